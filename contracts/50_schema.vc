@@raw
pub mod schemas {
use vstd::prelude::*;
use crate::vspec::*;
use crate::writer::*;
use crate::writer::encoding::TSEncoding;
use crate::writer::compression::CompressionType;
/// `a` has the values of `b` for the keys `ks` and no others
pub open spec fn copied<A, V>(a: Map<A, V>, b: Map<A, V>, ks: Seq<A>) -> bool {
    &&& forall|k: A| #[trigger] a.dom().contains(k) <==> ks.contains(k)
    &&& forall|k: A| a.dom().contains(k) ==> #[trigger] a[k] == b[k]
}
pub proof fn lemma_copied<A, V>(a: Map<A, V>, b: Map<A, V>, ks: Seq<A>, i: int)
    requires 0 <= i < ks.len(), copied(a, b, ks.take(i))
    ensures copied(a.insert(ks[i], b[ks[i]]), b, ks.take(i + 1))
{
    assert(ks.take(i + 1) =~= ks.take(i).push(ks[i]));
    let c = a.insert(ks[i], b[ks[i]]);
    assert forall|k: A| #[trigger] c.dom().contains(k) <==> ks.take(i + 1).contains(k) by {
        if k == ks[i] { assert(ks.take(i + 1)[i] == k); }
        if ks.take(i + 1).contains(k) && k != ks[i] {
            let j = choose|j: int| 0 <= j < i + 1 && #[trigger] ks.take(i + 1)[j] == k;
            assert(ks.take(i)[j] == k);
        }
        if ks.take(i).contains(k) {
            let j = choose|j: int| 0 <= j < i && #[trigger] ks.take(i)[j] == k;
            assert(ks.take(i + 1)[j] == k);
        }
    }
}
pub proof fn lemma_all_copied<A, V>(a: Map<A, V>, b: Map<A, V>, ks: Seq<A>)
    requires lists(ks, b.dom()), copied(a, b, ks.take(ks.len() as int))
    ensures a =~= b
{ assert(ks.take(ks.len() as int) =~= ks); assert(a.dom() =~= b.dom()); }
/// one series
pub open spec fn simple_schema<'a>(s: Schema<'a>, d: Seq<char>, m: Seq<char>, t: TSDataType, e: TSEncoding, c: CompressionType) -> bool {
    &&& s.measurement_groups@.dom() =~= set![d]
    &&& s.measurement_groups@[d].measurement_schemas@ =~= map![m => MeasurementSchema { data_type: t, encoding: e, compression: c }]
}
}
@@fn writer::MeasurementSchema::new
@@ret r
        ensures r.data_type == data_type, r.encoding == encoding, r.compression == compression,
@@each B=TsFileSchemaBuilder|DeviceBuilder
@@fn writer::schema::$B<'a>::new
@@ret r
        ensures r.measurement_groups_map@ == Map::<Seq<char>, _>::empty(),
@@fn writer::schema::$B<'a> as Default::default
@@ret r
        ensures r.measurement_groups_map@ == Map::<Seq<char>, _>::empty(),
@@end
@@fn writer::schema::TsFileSchemaBuilder<'a>::add
@@ret r
        ensures
            r.measurement_groups_map@ == old(self).measurement_groups_map@.insert(device@, schema),
            *final(r) == *final(self),
@@fn writer::schema::TsFileSchemaBuilder<'a>::build
@@ret r
        ensures
            r.measurement_groups@ =~= old(self).measurement_groups_map@,
            final(self).measurement_groups_map@ =~= old(self).measurement_groups_map@,
@@loop 0
            invariant
                self.measurement_groups_map@ =~= old(self).measurement_groups_map@,
                lists(key_views(verif_keys0@), self.measurement_groups_map@.dom()),
                copied(measurement_groups@, self.measurement_groups_map@, key_views(verif_keys0@).take(verif_i0 as int)),
@@in 0
            let ghost m0 = measurement_groups@;
            proof { assert(key_views(verif_keys0@)[verif_i0 as int] == verif_keys0@[verif_i0 as int].kv()); assert(key_views(verif_keys0@).contains(verif_keys0@[verif_i0 as int].kv())); }
@@inend 0
            proof { lemma_copied(m0, self.measurement_groups_map@, key_views(verif_keys0@), verif_i0 as int); assert(self.measurement_groups_map@ =~= old(self).measurement_groups_map@); }
@@exit
        proof { lemma_all_copied(measurement_groups@, self.measurement_groups_map@, key_views(verif_keys0@)); }
@@fn writer::schema::DeviceBuilder<'a>::add
@@ret r
        ensures
            r.measurement_groups_map@ == old(self).measurement_groups_map@.insert(measurement@, MeasurementSchema { data_type, encoding, compression }),
            *final(r) == *final(self),
@@fn writer::schema::DeviceBuilder<'a>::build
@@ret r
        requires
            old(self).measurement_groups_map@.dom().len() > 0,
        ensures
            r.measurement_schemas@ =~= old(self).measurement_groups_map@,
            final(self).measurement_groups_map@ =~= old(self).measurement_groups_map@,
@@loop 0
            invariant
                self.measurement_groups_map@ =~= old(self).measurement_groups_map@,
                lists(key_views(verif_keys0@), self.measurement_groups_map@.dom()),
                copied(measurement_schemas@, self.measurement_groups_map@, key_views(verif_keys0@).take(verif_i0 as int)),
@@in 0
            let ghost m0 = measurement_schemas@;
            proof { assert(key_views(verif_keys0@)[verif_i0 as int] == verif_keys0@[verif_i0 as int].kv()); assert(key_views(verif_keys0@).contains(verif_keys0@[verif_i0 as int].kv())); }
@@inend 0
            proof { lemma_copied(m0, self.measurement_groups_map@, key_views(verif_keys0@), verif_i0 as int); assert(self.measurement_groups_map@ =~= old(self).measurement_groups_map@); }
@@exit
        proof { lemma_all_copied(measurement_schemas@, self.measurement_groups_map@, key_views(verif_keys0@)); }
@@fn writer::Schema<'a>::simple
@@ret r
        ensures
            simple_schema(r, device_id@, measurement_id@, data_type, encoding, compression),
