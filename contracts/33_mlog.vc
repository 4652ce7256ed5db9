@@root mlog=sync/mlog.rs
@@raw
/// the schema log
pub mod schemalog {
use vstd::prelude::*;
use crate::vspec::*;
use crate::writer::*;
use crate::writer::encoding::TSEncoding;
use crate::writer::compression::CompressionType;
pub uninterp spec fn crc32(s: Seq<u8>) -> u32;
pub mod crc32fast {
    use vstd::prelude::*;
    use crate::vspec::*;
    /// the crate crc32fast
    #[verifier::external_body]
    pub fn hash(b: &[u8]) -> (r: u32)
        ensures r == crc32(b@)
    { unimplemented!() }
}
/// set-storage-group: type 3, path, index
pub open spec fn group_plan(path: Seq<char>) -> Seq<u8> {
    seq![3u8] + be(sbytes(path).len(), 4) + sbytes(path) + be_i64(0i64)
}
/// create-timeseries: type 4, path, type, encoding, compression, tag offset -1, no alias, properties, tags, attributes, index
pub open spec fn series_plan(path: Seq<char>, t: TSDataType, e: TSEncoding, c: CompressionType) -> Seq<u8> {
    seq![4u8] + be(sbytes(path).len(), 4) + sbytes(path) + seq![type_code(t), encoding_code(e), compression_code(c)]
        + be_i64(-1i64) + seq![0u8, 0u8, 0u8, 0u8] + be_i64(0i64)
}
/// length, content, checksum
pub open spec fn frame(s: Seq<u8>) -> Seq<u8> { be(s.len(), 4) + s + be_i64(crc32(s) as i64) }
}
@@fn mlog::MLog::new
@@ret r
        ensures r.bytes@ =~= Seq::<u8>::empty(),
@@fn mlog::MLog::calculate_checksum
@@ret r
        ensures r == crc32(bytes@),
@@fn mlog::MLog::flush
@@ret r
        requires
            (*old(writer)).wf(),
            old(self).bytes@.len() <= i32::MAX,
        ensures
            wrote(*old(writer), *final(writer), r is Ok, frame(old(self).bytes@)),
            r is Ok ==> final(self).bytes@ =~= Seq::<u8>::empty(),
            r is Err ==> final(self).bytes@ == old(self).bytes@,
@@fn mlog::MLog::write_create_plan
@@ret r
        requires
            (*old(writer)).wf(),
            str_ok(path@),
        ensures
            wrote(*old(writer), *final(writer), r is Ok, series_plan(path@, data_type, encoding, compression)),
@@fn mlog::MLog::write_set_storage_group_plan
@@ret r
        requires
            (*old(writer)).wf(),
            str_ok(path@),
        ensures
            wrote(*old(writer), *final(writer), r is Ok, group_plan(path@)),
@@fn mlog::MLog::create_plan
@@ret r
        requires
            str_ok(path@),
        ensures
            r is Ok,
            final(self).bytes@ =~= old(self).bytes@ + series_plan(path@, data_type, encoding, compression),
@@fn mlog::MLog::set_storage_group_plan
@@ret r
        requires
            str_ok(path@),
        ensures
            r is Ok,
            final(self).bytes@ =~= old(self).bytes@ + group_plan(path@),
