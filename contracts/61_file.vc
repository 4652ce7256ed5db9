@@raw
/// the paths of series
pub mod paths {
use vstd::prelude::*;
use crate::vspec::*;
use crate::writer::*;
use std::cmp::Ordering;
/// a path: device, full path
pub type PathV = (Seq<char>, Seq<char>);
pub open spec fn path_lt(a: PathV, b: PathV) -> bool { str_lt(a.0, b.0) || (a.0 == b.0 && str_lt(a.1, b.1)) }
impl MapKey for Path {
    type KV = PathV;
    open spec fn kv(&self) -> PathV { (self.device@, self.path@) }
    open spec fn before(a: PathV, b: PathV) -> bool { path_lt(a, b) }
}
pub open spec fn str_order(a: Seq<char>, b: Seq<char>) -> Ordering { if str_lt(a, b) { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub open spec fn path_order(a: PathV, b: PathV) -> Ordering { if path_lt(a, b) { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
/// std's order of strings and of pairs
pub trait StdCmp { spec fn order(&self, o: &Self) -> Ordering; fn verif_cmp(&self, o: &Self) -> (r: Ordering) ensures r == self.order(o); }
impl StdCmp for String {
    open spec fn order(&self, o: &Self) -> Ordering { str_order(self@, o@) }
    #[verifier::external_body]
    fn verif_cmp(&self, o: &Self) -> Ordering { self.cmp(o) }
}
impl StdCmp for str {
    open spec fn order(&self, o: &Self) -> Ordering { str_order(self@, o@) }
    #[verifier::external_body]
    fn verif_cmp(&self, o: &Self) -> Ordering { self.cmp(o) }
}
impl<'a> StdCmp for &'a String {
    open spec fn order(&self, o: &Self) -> Ordering { str_order(self@, o@) }
    #[verifier::external_body]
    fn verif_cmp(&self, o: &Self) -> Ordering { self.cmp(o) }
}
impl<A: StdCmp, B: StdCmp> StdCmp for (A, B) {
    open spec fn order(&self, o: &Self) -> Ordering { if self.0.order(&o.0) == Ordering::Equal { self.1.order(&o.1) } else { self.0.order(&o.0) } }
    fn verif_cmp(&self, o: &Self) -> Ordering { let f = self.0.verif_cmp(&o.0); match f { Ordering::Equal => self.1.verif_cmp(&o.1), x => x } }
}
}
@@module writer
/// derived
impl PartialEq for Path {
    #[verifier::external_body]
    fn eq(&self, o: &Path) -> bool { unimplemented!() }
}
impl Eq for Path {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Path {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Path) -> bool { self.kv() == other.kv() }
}
impl crate::paths::StdCmp for Path {
    open spec fn order(&self, o: &Self) -> std::cmp::Ordering { path_order(self.kv(), o.kv()) }
    fn verif_cmp(&self, o: &Self) -> std::cmp::Ordering { Ord::cmp(self, o) }
}
impl vstd::std_specs::cmp::OrdSpecImpl for Path {
    open spec fn obeys_cmp_spec() -> bool { false } // the contract of cmp itself says what it returns
    open spec fn cmp_spec(&self, other: &Path) -> std::cmp::Ordering { arbitrary() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Path {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Path) -> Option<std::cmp::Ordering> { Some(path_order(self.kv(), other.kv())) }
}
@@fn writer::Path as Ord::cmp
@@ret r
    ensures r == path_order(self.kv(), other.kv())
@@fn writer::Path as PartialOrd<Self>::partial_cmp
@@ret r
    ensures r == Some(path_order(self.kv(), other.kv()))
@@raw
/// the metadata of the chunks
pub mod footer {
use vstd::prelude::*;
use crate::vspec::*;
use crate::writer::*;
use crate::writer::statistics::Statistics;
use crate::writer::ts_file_config::TsFileConfig;
use crate::writer::chunk_writer::ChunkMetadata;
pub type Metas = Seq<ChunkMetadata>;
pub type PathMap = Map<PathV, Vec<ChunkMetadata>>;
pub open spec fn cm_ser(m: ChunkMetadata, multi: bool) -> Seq<u8> { be_i64(m.offset_of_chunk_header) + (if multi { stat_ser(m.statistics) } else { Seq::empty() }) }
pub open spec fn cms_ser(s: Metas, multi: bool) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { cms_ser(s.drop_last(), multi) + cm_ser(s.last(), multi) }
}
/// the statistics of the chunks together
pub open spec fn cms_stat(t: TSDataType, s: Metas) -> Statistics decreases s.len() {
    if s.len() == 0 { no_stat(t) } else { stat_mrg(cms_stat(t, s.drop_last()), s.last().statistics) }
}
pub open spec fn cms_count(s: Metas) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { cms_count(s.drop_last()) + stat_count(s.last().statistics) }
}
pub open spec fn meta_ok(m: ChunkMetadata, t: TSDataType) -> bool {
    m.data_type == t && stat_type(m.statistics) == t && stat_ok(m.statistics) && m.mask == 0
}
/// the chunks of a series
pub open spec fn metas_ok(s: Metas) -> bool {
    &&& s.len() > 0
    &&& forall|i: int| 0 <= i < s.len() ==> meta_ok(#[trigger] s[i], s[0].data_type)
    &&& cms_count(s) <= u32::MAX
    &&& 69 * s.len() <= u32::MAX
    &&& str_ok(s[0].measurement_id@)
}
/// the metadata of a series: type 1 if there are several chunks, else 0; name; code; size of the list; statistics; the list
pub open spec fn series_block(s: Metas) -> Block {
    let list = cms_ser(s, s.len() > 1);
    Block {
        name: s[0].measurement_id@,
        bytes: seq![if s.len() > 1 { 1u8 } else { 0u8 }] + str_ser(s[0].measurement_id@) + seq![type_code(s[0].data_type)]
            + uvar(list.len()) + stat_ser(cms_stat(s[0].data_type, s)) + list,
    }
}
/// the series of a device
pub open spec fn dev_series(ks: Seq<PathV>, cm: PathMap, d: Seq<char>) -> Seq<Block> decreases ks.len() {
    if ks.len() == 0 { Seq::empty() }
    else if ks.last().0 == d { dev_series(ks.drop_last(), cm, d).push(series_block(cm[ks.last()]@)) }
    else { dev_series(ks.drop_last(), cm, d) }
}
pub open spec fn dev_listed(tm: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>>, d: Seq<char>, bs: Seq<Block>) -> bool {
    if tm.dom().contains(d) { bs.len() > 0 && list_of(tm[d]) == bs && all_ts_ok(tm[d]) } else { bs.len() == 0 }
}
/// the devices and their series
pub open spec fn series_listed(tm: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>>, ks: Seq<PathV>, cm: PathMap) -> bool {
    forall|d: Seq<char>| dev_listed(tm, d, #[trigger] dev_series(ks, cm, d))
}
pub open spec fn paths_ok(cm: PathMap) -> bool {
    forall|k: PathV| #[trigger] cm.dom().contains(k) ==> metas_ok(cm[k]@) && str_ok(k.0)
}
pub proof fn lemma_cms_step(s: Metas, i: int, multi: bool, t: TSDataType)
    requires 0 <= i < s.len()
    ensures
        cms_ser(s.take(i + 1), multi) =~= cms_ser(s.take(i), multi) + cm_ser(s[i], multi),
        cms_stat(t, s.take(i + 1)) == stat_mrg(cms_stat(t, s.take(i)), s[i].statistics),
        cms_count(s.take(i + 1)) == cms_count(s.take(i)) + stat_count(s[i].statistics),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn lemma_count_take(s: Metas, i: int)
    requires 0 <= i <= s.len()
    ensures cms_count(s.take(i)) <= cms_count(s)
    decreases s.len() - i
{
    if i < s.len() { lemma_cms_step(s, i, true, TSDataType::INT32); lemma_count_take(s, i + 1); }
    else { assert(s.take(i) =~= s); }
}
pub proof fn lemma_series_step(a: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>>, b: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>>, ks: Seq<PathV>, i: int, cm: PathMap, v: Vec<Box<TimeSeriesMetadata>>, t: Box<TimeSeriesMetadata>)
    requires
        series_listed(a, ks.take(i), cm), 0 <= i < ks.len(),
        b =~= a.insert(ks[i].0, v),
        v@ == (if a.dom().contains(ks[i].0) { a[ks[i].0]@ } else { Seq::empty() }).push(t),
        ts_ok(*t), t.measurement_id@ == series_block(cm[ks[i]]@).name, ts_ser(*t) == series_block(cm[ks[i]]@).bytes,
    ensures series_listed(b, ks.take(i + 1), cm)
{
    assert(ks.take(i + 1).drop_last() =~= ks.take(i));
    assert forall|d: Seq<char>| dev_listed(b, d, #[trigger] dev_series(ks.take(i + 1), cm, d)) by {
        assert(dev_listed(a, d, dev_series(ks.take(i), cm, d)));
        if d == ks[i].0 {
            let p = dev_series(ks.take(i), cm, d);
            assert(list_of(v) =~= p.push(series_block(cm[ks[i]]@))) by {
                if a.dom().contains(d) { assert(list_of(v) =~= list_of(a[d]).push(series_block(cm[ks[i]]@))); }
            }
        }
    }
}
pub proof fn lemma_index_ok(tm: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>>, ks: Seq<PathV>, cm: PathMap)
    requires series_listed(tm, ks, cm), paths_ok(cm), lists(ks, cm.dom())
    ensures index_ok(tm)
{
    assert forall|d: Seq<char>| #[trigger] tm.dom().contains(d) implies str_ok(d) && all_ts_ok(tm[d]) by {
        assert(dev_listed(tm, d, dev_series(ks, cm, d)));
        lemma_dev_some(ks, cm, d);
        let i = choose|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).0 == d;
        assert(ks.contains(ks[i]));
    }
}
pub proof fn lemma_dev_some(ks: Seq<PathV>, cm: PathMap, d: Seq<char>)
    ensures dev_series(ks, cm, d).len() > 0 ==> exists|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).0 == d
    decreases ks.len()
{
    if ks.len() > 0 {
        if ks.last().0 == d { assert(ks[ks.len() - 1].0 == d); }
        else {
            lemma_dev_some(ks.drop_last(), cm, d);
            if dev_series(ks, cm, d).len() > 0 {
                let i = choose|i: int| 0 <= i < ks.len() - 1 && (#[trigger] ks.drop_last()[i]).0 == d;
                assert(ks[i].0 == d);
            }
        }
    }
}
}
@@fn writer::tsfile_io_writer::TsFileIoWriter<'a,T>::flush_metadata_index
@@wrap 0 verif_vec
@@ret r
        requires
            WriteSpec::wf(&old(self).out),
            index_config_ok(old(self).config),
            old(self).timeseries_metadata_map@ == Map::<Seq<char>, Vec<Box<TimeSeriesMetadata>>>::empty(),
            paths_ok(chunk_metadata_list@),
        ensures
            grew(old(self).out, final(self).out, r is Ok),
            *final(self) == (TsFileIoWriter { out: final(self).out, timeseries_metadata_map: final(self).timeseries_metadata_map, ..*old(self) }),
            series_listed(final(self).timeseries_metadata_map@, order_of::<Path>(chunk_metadata_list@.dom()), chunk_metadata_list@),
            r is Ok ==> indexed(WriteSpec::out(&final(self).out), nv(r->Ok_0), final(self).timeseries_metadata_map@, old(self).config),
@@entry
    hide(stat_ok);
    broadcast use axiom_order;
    let ghost cm = chunk_metadata_list@;
    let ghost ks = order_of::<Path>(cm.dom());
    let ghost mut tm0 = self.timeseries_metadata_map@;
    proof { assert(ks.take(0) =~= Seq::<PathV>::empty()); }
@@iter 0 it
@@loop 0
        invariant
            cm == chunk_metadata_list@,
            ks == order_of::<Path>(cm.dom()),
            sorted::<Path>(ks),
            lists(ks, cm.dom()),
            paths_ok(cm),
            ref_items(cm, it.seq()),
            kviews2(it.seq()) == ks,
            *self == (TsFileIoWriter { timeseries_metadata_map: self.timeseries_metadata_map, ..*old(self) }),
            last_path is Some ==> exists|j: int| 0 <= j < it.index@ && last_path->Some_0.kv() == #[trigger] ks[j],
            series_listed(self.timeseries_metadata_map@, ks.take(it.index@), cm),
@@in 0
        let ghost ms = cm[path.kv()]@;
        let ghost mut n: int = 0;
        proof {
            tm0 = self.timeseries_metadata_map@;
            assert(ks[it.index@] == path.kv());
            assert(cm.dom().contains(path.kv()));
            assert(metas_ok(ms));
            assert(ms.take(0) =~= Seq::<ChunkMetadata>::empty());
            assert(ms[0].mask == 0);
            assert(1u8 | 0u8 == 1u8 && 0u8 | 0u8 == 0u8) by (bit_vector);
        }
@@iter 1 jt
@@loop 1
            invariant
                ms == metadata@,
                jt.seq().len() == ms.len(),
                forall|j: int| 0 <= j < ms.len() ==> *#[trigger] jt.seq()[j] == ms[j],
                metas_ok(ms),
                data_type == ms[0].data_type,
                serialize_statistic == (ms.len() > 1),
                n == jt.index@,
                stat_type(statistics) == data_type,
                stat_ok(statistics),
                if n == 0 { stat_empty(statistics) } else { statistics == cms_stat(data_type, ms.take(n)) },
                stat_count(statistics) == cms_count(ms.take(n)),
                buffer@ == cms_ser(ms.take(n), ms.len() > 1),
                buffer@.len() <= 69 * n,
@@in 1
            let ghost st = statistics;
            broadcast use be_len;
            proof {
                assert(meta_ok(ms[n], data_type));
                lemma_cms_step(ms, n, ms.len() > 1, data_type);
                lemma_count_take(ms, n + 1);
                lemma_stat_size(ms[n].statistics);
                lemma_stat_mrg(st, ms[n].statistics);
                if n == 0 { lemma_mrg_empty(data_type, st, ms[n].statistics); }
            }
@@inend 1
            proof {
                n = n + 1;
            }
@@after 1
        proof { assert(ms.take(ms.len() as int) =~= ms); }
@@inend 0
        proof {
            let tm = self.timeseries_metadata_map@;
            let v = tm[path.device@];
            lemma_series_step(tm0, tm, ks, it.index@, cm, v, v@.last());
        }
@@after 0
    proof {
        assert(ks.take(ks.len() as int) =~= ks);
        lemma_index_ok(self.timeseries_metadata_map@, ks, cm);
    }
@@raw
/// the whole file
pub mod whole {
use vstd::prelude::*;
use crate::vspec::*;
use crate::writer::*;
use crate::writer::ts_file_config::TsFileConfig;
use crate::writer::chunk_writer::ChunkMetadata;
/// the full path
pub open spec fn dotted(d: Seq<char>, m: Seq<char>) -> Seq<char> { d + "."@ + m }
pub open spec fn pathv(d: Seq<char>, m: Seq<char>) -> PathV { (d, dotted(d, m)) }
/// the measurement of a path
pub open spec fn m_of(k: PathV) -> Seq<char> { k.1.skip(k.0.len() as int + 1) }
pub proof fn lemma_m_of(d: Seq<char>, m: Seq<char>)
    ensures m_of(pathv(d, m)) =~= m
{ reveal_strlit("."); }
pub open spec fn metas_in(s: Metas, m: Seq<char>) -> Metas decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last().measurement_id@ == m { metas_in(s.drop_last(), m).push(s.last()) } else { metas_in(s.drop_last(), m) }
}
/// the metadata of the chunks of a series
pub open spec fn metas_of(gs: Seq<ChunkGroupMetadata>, d: Seq<char>, m: Seq<char>) -> Metas decreases gs.len() {
    if gs.len() == 0 { Seq::empty() }
    else if gs.last().device_id@ == d { metas_of(gs.drop_last(), d, m) + metas_in(gs.last().chunk_metadata@, m) }
    else { metas_of(gs.drop_last(), d, m) }
}
/// .. of `gs`, and of `cs` for the device `e`
pub open spec fn part(gs: Seq<ChunkGroupMetadata>, e: Seq<char>, cs: Metas, d: Seq<char>, m: Seq<char>) -> Metas {
    metas_of(gs, d, m) + (if d == e { metas_in(cs, m) } else { Seq::empty() })
}
pub open spec fn collected_at(cm: PathMap, k: PathV, s: Metas) -> bool {
    if cm.dom().contains(k) { k == pathv(k.0, m_of(k)) && s.len() > 0 && cm[k]@ == s } else { k == pathv(k.0, m_of(k)) ==> s.len() == 0 }
}
pub open spec fn collected(cm: PathMap, gs: Seq<ChunkGroupMetadata>, e: Seq<char>, cs: Metas) -> bool {
    forall|k: PathV| collected_at(cm, k, #[trigger] part(gs, e, cs, k.0, m_of(k)))
}
pub proof fn lemma_collected_begin(cm: PathMap, gs: Seq<ChunkGroupMetadata>, a: Seq<char>, b: Seq<char>)
    requires collected(cm, gs, a, Seq::empty())
    ensures collected(cm, gs, b, Seq::empty())
{
    assert forall|k: PathV| collected_at(cm, k, #[trigger] part(gs, b, Seq::empty(), k.0, m_of(k))) by {
        assert(part(gs, b, Seq::empty(), k.0, m_of(k)) =~= part(gs, a, Seq::empty(), k.0, m_of(k)));
    }
}
pub proof fn lemma_collected_group(cm: PathMap, gs: Seq<ChunkGroupMetadata>, i: int)
    requires 0 <= i < gs.len(), collected(cm, gs.take(i), gs[i].device_id@, gs[i].chunk_metadata@)
    ensures collected(cm, gs.take(i + 1), Seq::empty(), Seq::empty())
{
    let d = gs[i].device_id@;
    let cs = gs[i].chunk_metadata@;
    assert(gs.take(i + 1).drop_last() =~= gs.take(i));
    assert forall|k: PathV| collected_at(cm, k, #[trigger] part(gs.take(i + 1), Seq::empty(), Seq::empty(), k.0, m_of(k))) by {
        assert(part(gs.take(i + 1), Seq::empty(), Seq::empty(), k.0, m_of(k)) =~= part(gs.take(i), d, cs, k.0, m_of(k)));
    }
}
pub proof fn lemma_collected_step(a: PathMap, b: PathMap, gs: Seq<ChunkGroupMetadata>, d: Seq<char>, cs: Metas, j: int, k0: PathV, v: Vec<ChunkMetadata>)
    requires
        0 <= j < cs.len(), collected(a, gs, d, cs.take(j)),
        k0 == pathv(d, cs[j].measurement_id@),
        b =~= a.insert(k0, v),
        v@ == (if a.dom().contains(k0) { a[k0]@ } else { Seq::empty() }).push(cs[j]),
    ensures collected(b, gs, d, cs.take(j + 1))
{
    lemma_m_of(d, cs[j].measurement_id@);
    assert(cs.take(j + 1).drop_last() =~= cs.take(j));
    assert forall|k: PathV| collected_at(b, k, #[trigger] part(gs, d, cs.take(j + 1), k.0, m_of(k))) by {
        let p = part(gs, d, cs.take(j), k.0, m_of(k));
        let q = part(gs, d, cs.take(j + 1), k.0, m_of(k));
        assert(collected_at(a, k, p));
        if k == k0 { assert(q =~= p.push(cs[j])); if !a.dom().contains(k) { assert(p =~= Seq::<ChunkMetadata>::empty()); } }
        else if k == pathv(k.0, m_of(k)) {
            assert(!(k.0 == d && m_of(k) == cs[j].measurement_id@));
            assert(q =~= p);
        }
    }
}
/// the paths of the file
pub open spec fn few(gs: Seq<ChunkGroupMetadata>) -> bool {
    exists|s: Set<PathV>| #[trigger] s.len() <= i32::MAX && forall|d: Seq<char>, m: Seq<char>| #[trigger] metas_of(gs, d, m).len() > 0 ==> s.contains(pathv(d, m))
}
/// there is room for the metadata of each series, and each series has one type
pub open spec fn series_fit(gs: Seq<ChunkGroupMetadata>) -> bool {
    forall|d: Seq<char>, m: Seq<char>| #[trigger] metas_of(gs, d, m).len() > 0 ==> metas_ok(metas_of(gs, d, m)) && str_ok(d) && str_ok(dotted(d, m))
}
pub ghost struct Footer { pub ps: Seq<Piece>, pub root: NodeV, pub bloom: BloomFilter, pub cm: PathMap, pub tm: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>> }
/// what comes after the chunk groups `gs`, which have been recorded as `ms`
pub open spec fn footer_ok(f: Footer, out: Seq<u8>, gs: Seq<Group>, ms: Seq<ChunkGroupMetadata>, c: TsFileConfig) -> bool {
    let body = file_body(gs);
    let data = body + seq![2u8] + pieces_ser(f.ps);
    let foot = nodev_ser(f.root) + be(body.len(), 8) + bloom_ser(f.bloom);
    &&& out == data + foot + be(foot.len() as u32 as nat, 4) + magic()
    &&& collected(f.cm, ms, Seq::empty(), Seq::empty())
    &&& series_listed(f.tm, order_of::<Path>(f.cm.dom()), f.cm)
    &&& indexed(data, f.root, f.tm, c)
    &&& bloom_ok(f.bloom)
    &&& seeded(f.bloom, c)
    &&& forall|d: Seq<char>, m: Seq<char>| #[trigger] metas_of(ms, d, m).len() > 0 ==> admits(f.bloom, dotted(d, m))
}
pub open spec fn closed(out: Seq<u8>, gs: Seq<Group>, ms: Seq<ChunkGroupMetadata>, c: TsFileConfig) -> bool {
    exists|f: Footer| #[trigger] footer_ok(f, out, gs, ms, c)
}
pub proof fn lemma_paths_ok(cm: PathMap, gs: Seq<ChunkGroupMetadata>)
    requires collected(cm, gs, Seq::empty(), Seq::empty()), series_fit(gs), few(gs)
    ensures
        paths_ok(cm), cm.dom().len() <= i32::MAX,
        forall|k: PathV| #[trigger] cm.dom().contains(k) ==> str_ok(k.1),
        forall|d: Seq<char>, m: Seq<char>| #[trigger] metas_of(gs, d, m).len() > 0 ==> cm.dom().contains(pathv(d, m)),
{
    assert forall|k: PathV| #[trigger] cm.dom().contains(k) implies metas_ok(cm[k]@) && str_ok(k.0) && str_ok(k.1) && metas_of(gs, k.0, m_of(k)).len() > 0 by {
        let p = part(gs, Seq::empty(), Seq::empty(), k.0, m_of(k));
        assert(collected_at(cm, k, p));
        assert(p =~= metas_of(gs, k.0, m_of(k)));
    }
    assert forall|d: Seq<char>, m: Seq<char>| #[trigger] metas_of(gs, d, m).len() > 0 implies cm.dom().contains(pathv(d, m)) by {
        lemma_m_of(d, m);
        let k = pathv(d, m);
        let p = part(gs, Seq::empty(), Seq::empty(), k.0, m_of(k));
        assert(collected_at(cm, k, p));
        assert(p =~= metas_of(gs, d, m));
    }
    let s = choose|s: Set<PathV>| #[trigger] s.len() <= i32::MAX && forall|d: Seq<char>, m: Seq<char>| #[trigger] metas_of(gs, d, m).len() > 0 ==> s.contains(pathv(d, m));
    assert(cm.dom().subset_of(s)) by {
        assert forall|k: PathV| cm.dom().contains(k) implies s.contains(k) by {
            assert(metas_of(gs, k.0, m_of(k)).len() > 0);
            let p = part(gs, Seq::empty(), Seq::empty(), k.0, m_of(k));
            assert(collected_at(cm, k, p));
        }
    }
    vstd::set_lib::lemma_len_subset(cm.dom(), s);
}
pub proof fn lemma_root_ok(out: Seq<u8>, n: MetadataIndexNode, tm: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>>, c: TsFileConfig)
    requires indexed(out, nv(n), tm, c)
    ensures node_ok(n), node_ser(n) == nodev_ser(nv(n))
{
    lemma_node_ser(n);
    let roots = choose|roots: Map<Seq<char>, NodeV>| #[trigger] device_index(out, nv(n), tm, roots, c);
    assert forall|i: int| 0 <= i < n.children@.len() implies str_ok(#[trigger] n.children@[i].name@) by { assert(str_ok(nv(n).kids[i].0)); }
}
pub proof fn lemma_listed_len<A>(ks: Seq<A>, d: Set<A>)
    requires lists(ks, d)
    ensures ks.len() == d.len()
{
    ks.unique_seq_to_set();
    assert(ks.to_set() =~= d);
}
pub proof fn lemma_admits(paths: Seq<Path>, cm: PathMap, gs: Seq<ChunkGroupMetadata>, b: BloomFilter)
    requires
        lists(key_views(paths), cm.dom()),
        forall|i: int| 0 <= i < paths.len() ==> admits(b, (#[trigger] paths[i]).path@),
        forall|d: Seq<char>, m: Seq<char>| #[trigger] metas_of(gs, d, m).len() > 0 ==> cm.dom().contains(pathv(d, m)),
    ensures forall|d: Seq<char>, m: Seq<char>| #[trigger] metas_of(gs, d, m).len() > 0 ==> admits(b, dotted(d, m))
{
    assert forall|d: Seq<char>, m: Seq<char>| #[trigger] metas_of(gs, d, m).len() > 0 implies admits(b, dotted(d, m)) by {
        let ks = key_views(paths);
        assert(ks.contains(pathv(d, m)));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == pathv(d, m);
        assert(paths[i].kv() == ks[i]);
    }
}
}
@@replace? writer::tsfile_io_writer::TsFileIoWriter<'a,T>::end_file
let paths =
=>
let paths: Vec<Path> =
@@fn writer::tsfile_io_writer::TsFileIoWriter<'a,T>::end_file
@@ret r
        requires
            io_ok(*old(self)),
            index_config_ok(old(self).config),
            config_ok(old(self).config),
            series_fit(old(self).chunk_group_metadata_list@),
            few(old(self).chunk_group_metadata_list@),
        ensures
            WriteSpec::wf(&final(self).out),
            r is Ok ==> WriteSpec::failed(&final(self).out) == WriteSpec::failed(&old(self).out),
            r is Err ==> WriteSpec::failed(&final(self).out),
            r is Ok ==> closed(WriteSpec::out(&final(self).out), old(self).groups@, old(self).chunk_group_metadata_list@, old(self).config),
            final(self).groups@ == old(self).groups@,
            WriteSpec::id(&final(self).out) == WriteSpec::id(&old(self).out),
@@entry
    broadcast use axiom_order;
    let ghost gs = self.chunk_group_metadata_list@;
    let ghost body = WriteSpec::out(&self.out);
    proof { assert(gs.take(0) =~= Seq::<ChunkGroupMetadata>::empty()); lemma_magic(); }
@@iter 0 it
@@loop 0
        invariant
            gs == self.chunk_group_metadata_list@,
            gs.len() == it.seq().len(),
            forall|i: int| 0 <= i < gs.len() ==> *#[trigger] it.seq()[i] == gs[i],
            collected(chunk_metadata_map@, gs.take(it.index@), Seq::empty(), Seq::empty()),
@@in 0
        let ghost i = it.index@;
        let ghost d = gs[i].device_id@;
        let ghost cs = gs[i].chunk_metadata@;
        proof {
            assert(*it.seq()[i] == gs[i]);
            lemma_collected_begin(chunk_metadata_map@, gs.take(i), Seq::empty(), d);
            assert(cs.take(0) =~= Seq::<ChunkMetadata>::empty());
        }
@@iter 1 jt
@@loop 1
            invariant
                *group_metadata == gs[i],
                d == gs[i].device_id@,
                cs == gs[i].chunk_metadata@,
                cs.len() == jt.seq().len(),
                forall|j: int| 0 <= j < cs.len() ==> *#[trigger] jt.seq()[j] == cs[j],
                collected(chunk_metadata_map@, gs.take(i), d, cs.take(jt.index@)),
@@in 1
            let ghost cm0 = chunk_metadata_map@;
            let ghost j = jt.index@;
            let ghost k0 = pathv(d, cs[j].measurement_id@);
@@inend 1
            proof {
                assert(path.kv() == k0);
                lemma_collected_step(cm0, chunk_metadata_map@, gs.take(i), d, cs, j, k0, chunk_metadata_map@[k0]);
            }
@@after 1
        proof {
            assert(cs.take(cs.len() as int) =~= cs);
            lemma_collected_group(chunk_metadata_map@, gs, i);
        }
@@after 0
    let ghost cm = chunk_metadata_map@;
    let ghost ks = order_of::<Path>(cm.dom());
    proof {
        assert(gs.take(gs.len() as int) =~= gs);
        lemma_paths_ok(cm, gs);
    }
@@pre 0 let metadata_index_node
        proof { assert(WriteSpec::out(&self.out) =~= body + seq![2u8]); }
@@post 0 let metadata_index_node =
        let ghost tm = self.timeseries_metadata_map@;
        let ghost data = WriteSpec::out(&self.out);
        let ghost root = nv(metadata_index_node);
        let ghost ps = choose|ps: Seq<Piece>| data == body + seq![2u8] + #[trigger] pieces_ser(ps);
        proof {
            assert(more(body + seq![2u8], data));
            assert(data == body + seq![2u8] + pieces_ser(ps));
            lemma_root_ok(data, metadata_index_node, tm, self.config);
        }
@@post 0 let paths
        proof {
            assert(key_views(paths@) =~= ks);
            lemma_listed_len(ks, cm.dom());
            assert forall|i: int| 0 <= i < paths@.len() implies str_ok((#[trigger] paths@[i]).path@) by {
                assert(key_views(paths@)[i] == paths@[i].kv());
                assert(ks.contains(ks[i]));
                assert(cm.dom().contains(paths@[i].kv()));
            }
        }
        let ghost paths0 = paths@;
@@exit
        proof {
            lemma_admits(paths0, cm, gs, bloom_filter);
            let f = Footer { ps, root, bloom: bloom_filter, cm, tm };
            let foot = nodev_ser(root) + be(body.len(), 8) + bloom_ser(bloom_filter);
            assert(WriteSpec::out(&self.out) =~= data + foot + be(foot.len() as u32 as nat, 4) + magic());
            assert(footer_ok(f, WriteSpec::out(&self.out), old(self).groups@, gs, old(self).config));
        }
