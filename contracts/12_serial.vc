@@raw
/// serial forms
pub mod serial {
use vstd::prelude::*;
use vstd::string::*;
use crate::vspec::*;
use crate::writer::*;
/// UTF-8 bytes
pub open spec fn sbytes(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub trait StrLen { fn verif_str_len(&self) -> (r: usize); }
impl StrLen for str {
    /// std's str::len
    #[verifier::external_body]
    fn verif_str_len(&self) -> (r: usize)
        ensures r == sbytes(self@).len()
    { self.len() }
}
/// what format! does with strings
pub trait Show { spec fn shown(&self) -> Seq<char>; fn verif_show(&self) -> (r: String) ensures r@ == self.shown(); }
impl Show for str {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn verif_show(&self) -> String { self.to_string() }
}
impl Show for String {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn verif_show(&self) -> String { self.to_string() }
}
pub fn verif_string<T: Show + ?Sized>(s: &T) -> (r: String) ensures r@ == s.shown() { s.verif_show() }
#[verifier::external_body]
pub fn verif_text(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
pub fn verif_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { a + &b }
pub assume_specification [ String::len ] (s: &String) -> (r: usize)
    ensures r == sbytes(s@).len();
/// length as a zigzag varint, then the bytes
pub open spec fn str_ser(s: Seq<char>) -> Seq<u8> { ivar(sbytes(s).len() as i32) + sbytes(s) }
/// names of 2 GB and more are out of scope
pub open spec fn str_ok(s: Seq<char>) -> bool { sbytes(s).len() <= i32::MAX }
pub open spec fn node_code(t: MetadataIndexNodeType) -> u8 {
    match t {
        MetadataIndexNodeType::InternalDevice => 0,
        MetadataIndexNodeType::LeafDevice => 1,
        MetadataIndexNodeType::InternalMeasurement => 2,
        MetadataIndexNodeType::LeafMeasurement => 3,
    }
}
pub open spec fn entry_ser(e: MetadataIndexEntry) -> Seq<u8> { str_ser(e.name@) + be(e.offset as nat, 8) }
pub open spec fn entries_ser(s: Seq<MetadataIndexEntry>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { entries_ser(s.drop_last()) + entry_ser(s.last()) }
}
pub open spec fn node_ser(n: MetadataIndexNode) -> Seq<u8> {
    uvar(n.children@.len()) + entries_ser(n.children@) + be(n.end_offset as nat, 8) + seq![node_code(n.node_type)]
}
pub open spec fn node_ok(n: MetadataIndexNode) -> bool {
    n.children@.len() <= u32::MAX && forall|i: int| 0 <= i < n.children@.len() ==> str_ok(#[trigger] n.children@[i].name@)
}
pub open spec fn filemeta_ser(m: TsFileMetadata) -> Seq<u8> {
    (match m.metadata_index { Some(n) => node_ser(n), None => be(0, 4) }) + be(m.meta_offset as nat, 8)
}
}
@@impl writer::Serializable
    spec fn ser(&self) -> Seq<u8>;
    spec fn ser_ok(&self) -> bool;
@@fn writer::Serializable::serialize
@@ret r
        requires
            (*old(file)).wf(),
            self.ser_ok(),
        ensures
            wrote(*old(file), *final(file), r is Ok, self.ser()),
@@fn writer::write_str
@@ret r
    requires
        (*old(file)).wf(),
        str_ok(s@),
    ensures
        wrote(*old(file), *final(file), r is Ok, str_ser(s@)),
@@impl writer::MetadataIndexNodeType as Serializable
    open spec fn ser(&self) -> Seq<u8> { seq![node_code(*self)] }
    open spec fn ser_ok(&self) -> bool { true }
@@fn writer::MetadataIndexNodeType as Serializable::serialize
@@ret r
@@impl writer::MetadataIndexEntry as Serializable
    open spec fn ser(&self) -> Seq<u8> { entry_ser(*self) }
    open spec fn ser_ok(&self) -> bool { str_ok(self.name@) }
@@fn writer::MetadataIndexEntry as Serializable::serialize
@@ret r
@@impl writer::MetadataIndexNode as Serializable
    open spec fn ser(&self) -> Seq<u8> { node_ser(*self) }
    open spec fn ser_ok(&self) -> bool { node_ok(*self) }
@@fn writer::MetadataIndexNode as Serializable::serialize
@@ret r
@@iter 0 it
@@loop 0
        invariant
            node_ok(*self),
            it.seq().len() == self.children@.len(),
            forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == self.children@[k],
            wrote(*old(file), *file, true, uvar(self.children@.len()) + entries_ser(self.children@.take(it.index@))),
@@inend 0
        proof {
            assert(self.children@.take(it.index@ + 1).drop_last() =~= self.children@.take(it.index@));
        }
@@after 0
        proof {
            assert(self.children@.take(self.children@.len() as int) =~= self.children@);
        }
@@impl writer::TsFileMetadata as Serializable
    open spec fn ser(&self) -> Seq<u8> { filemeta_ser(*self) }
    open spec fn ser_ok(&self) -> bool { self.metadata_index is Some ==> node_ok(self.metadata_index->Some_0) }
@@fn writer::TsFileMetadata as Serializable::serialize
@@ret r
@@fn writer::TsFileMetadata::new
@@ret r
        ensures r.metadata_index == metadata_index, r.meta_offset == meta_offset,
@@impl writer::ChunkGroupHeader<'_> as Serializable
    open spec fn ser(&self) -> Seq<u8> { seq![0u8] + str_ser(self.device_id@) }
    open spec fn ser_ok(&self) -> bool { str_ok(self.device_id@) }
@@fn writer::ChunkGroupHeader<'_> as Serializable::serialize
@@ret r
@@fn writer::ChunkGroupHeader<'a>::new
@@ret r
        ensures r.device_id@ == device_id@,
@@impl writer::ChunkGroup<'_> as Serializable
    open spec fn ser(&self) -> Seq<u8> { seq![0u8] + str_ser(self.header.device_id@) }
    open spec fn ser_ok(&self) -> bool { str_ok(self.header.device_id@) }
@@fn writer::ChunkGroup<'_> as Serializable::serialize
@@ret r
