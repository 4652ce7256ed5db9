@@raw
/// pages and chunks as a reader sees them
pub mod pages {
use vstd::prelude::*;
use crate::vspec::*;
use crate::writer::*;
use crate::writer::encoding::{Encoder, TSEncoding};
use crate::writer::compression::CompressionType;
use crate::writer::statistics::Statistics;
use crate::writer::chunk_writer::{PageWriter, ChunkWriter};
pub type Pt = (i64, IoTDBValue);
pub open spec fn times(p: Seq<Pt>) -> Seq<IoTDBValue> { Seq::new(p.len(), |i: int| IoTDBValue::LONG(p[i].0)) }
pub open spec fn values(p: Seq<Pt>) -> Seq<IoTDBValue> { Seq::new(p.len(), |i: int| p[i].1) }
/// points of a page
pub open spec fn pw_pts(w: PageWriter) -> Seq<Pt> {
    Seq::new(w.point_number as nat, |i: int| (w.time_encoder.vals()[i]->LONG_0, w.value_encoder.vals()[i]))
}
pub open spec fn pw_ok(w: PageWriter, t: TSDataType, k: Kind) -> bool {
    &&& w.data_type == t
    &&& w.time_encoder.ok()
    &&& w.time_encoder.kind() is Diff64
    &&& w.value_encoder.ok()
    &&& w.value_encoder.kind() == k
    &&& w.time_encoder.vals() =~= times(pw_pts(w))
    &&& w.value_encoder.vals() =~= values(pw_pts(w))
    &&& stat_type(w.statistics) == t
    &&& stat_ok(w.statistics)
    &&& stat_covers(w.statistics, pw_pts(w))
    &&& rising(pw_pts(w))
    &&& typed(pw_pts(w), t)
}
/// every value has the type
pub open spec fn typed(p: Seq<Pt>, t: TSDataType) -> bool { forall|i: int| 0 <= i < p.len() ==> val_type((#[trigger] p[i]).1) == Some(t) }
/// an operation that does not change the points
pub open spec fn pw_same(a: PageWriter, b: PageWriter) -> bool {
    &&& pw_ok(a, b.data_type, b.value_encoder.kind())
    &&& a.point_number == b.point_number
    &&& pw_pts(a) == pw_pts(b)
    &&& a.statistics == b.statistics
    &&& a.data_type == b.data_type
    &&& a.value_encoder.kind() == b.value_encoder.kind()
}
pub open spec fn body_of(p: Page, w: PageWriter) -> bool {
    &&& p.pts == pw_pts(w)
    &&& p.stat == w.statistics
    &&& encodes(Kind::Diff64, p.time, times(p.pts))
    &&& encodes(w.value_encoder.kind(), p.value, values(p.pts))
}
/// what a page holds
pub struct Page { pub pts: Seq<Pt>, pub time: Seq<u8>, pub value: Seq<u8>, pub stat: Statistics }
/// length of the time block, time block, value block
pub open spec fn page_body(p: Page) -> Seq<u8> { uvar(p.time.len()) + p.time + p.value }
/// both blocks decode to the points, the statistics are those of the points
pub open spec fn page_ok(p: Page, t: TSDataType, k: Kind) -> bool {
    &&& encodes(Kind::Diff64, p.time, times(p.pts))
    &&& encodes(k, p.value, values(p.pts))
    &&& stat_type(p.stat) == t
    &&& stat_ok(p.stat)
    &&& stat_covers(p.stat, p.pts)
    &&& rising(p.pts)
    &&& typed(p.pts, t)
    &&& p.pts.len() > 0
}
pub open spec fn stored(c: CompressionType, p: Page) -> Seq<u8> {
    match c { CompressionType::UNCOMPRESSED => page_body(p), CompressionType::SNAPPY => compressed(page_body(p)) }
}
/// uncompressed and compressed size
pub open spec fn page_head(c: CompressionType, p: Page) -> Seq<u8> { uvar(page_body(p).len()) + uvar(stored(c, p).len()) }
pub open spec fn page_bytes(c: CompressionType, p: Page, with_statistics: bool) -> Seq<u8> {
    page_head(c, p) + (if with_statistics { stat_ser(p.stat) } else { Seq::empty() }) + stored(c, p)
}
pub open spec fn pages_bytes(c: CompressionType, s: Seq<Page>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { pages_bytes(c, s.drop_last()) + page_bytes(c, s.last(), true) }
}
/// the data of a chunk: a single page has no statistics of its own
pub open spec fn chunk_data(c: CompressionType, s: Seq<Page>) -> Seq<u8> {
    if s.len() == 1 { page_bytes(c, s[0], false) } else { pages_bytes(c, s) }
}
/// statistics of a chunk, page by page
pub open spec fn chunk_stat(t: TSDataType, s: Seq<Page>) -> Statistics decreases s.len() {
    if s.len() == 0 { no_stat(t) } else { stat_mrg(chunk_stat(t, s.drop_last()), s.last().stat) }
}
pub open spec fn pages_pts(s: Seq<Page>) -> Seq<Pt> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { pages_pts(s.drop_last()) + s.last().pts }
}
}
@@fn writer::encoding::dynEncoder::new
@@ret r
        ensures
            r is Ok == kind_of(data_type, encoding) is Some,
            r is Ok ==> r->Ok_0.ok() && Some(r->Ok_0.kind()) == kind_of(data_type, encoding) && r->Ok_0.vals() =~= Seq::empty(),
            r is Err ==> r->Err_0 is Encoding,
@@module writer
impl vstd::std_specs::convert::FromSpecImpl<i64> for IoTDBValue {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(x: i64) -> IoTDBValue { arbitrary() }
}
@@fn writer::IoTDBValue as From<i64>::from
@@ret r
    ensures r == IoTDBValue::LONG(x)
@@replace? writer::chunk_writer::PageWriter::write
timestamp.into()
=>
IoTDBValue::from(timestamp)
@@fn writer::chunk_writer::PageWriter::new
@@ret r
        ensures
            r is Ok == kind_of(data_type, encoding) is Some,
            r is Ok ==> pw_ok(r->Ok_0, data_type, kind_of(data_type, encoding)->Some_0) && r->Ok_0.point_number == 0,
            r is Err ==> r->Err_0 is Encoding,
@@fn writer::chunk_writer::PageWriter::reset
        requires
            pw_ok(*old(self), old(self).data_type, old(self).value_encoder.kind()),
        ensures
            pw_ok(*final(self), old(self).data_type, old(self).value_encoder.kind()),
            final(self).point_number == 0,
@@fn writer::chunk_writer::PageWriter::write
@@ret r
        requires
            pw_ok(*old(self), old(self).data_type, old(self).value_encoder.kind()),
            accepts(old(self).value_encoder.kind(), *old(value)),
            val_type(*old(value)) == Some(old(self).data_type),
            old(self).point_number < u32::MAX,
            rising(pw_pts(*old(self)).push((timestamp, *old(value)))),
        ensures
            pw_ok(*final(self), old(self).data_type, old(self).value_encoder.kind()),
            pw_pts(*final(self)) =~= pw_pts(*old(self)).push((timestamp, *old(value))),
            r == Ok::<u32, &str>(1),
@@exit
        proof {
            let p = pw_pts(*old(self));
            lemma_stat_upd(old(self).statistics, p, timestamp, *old(value));
            assert(pw_pts(*self) =~= p.push((timestamp, *old(value))));
            assert(times(p.push((timestamp, *old(value)))) =~= times(p).push(IoTDBValue::LONG(timestamp)));
            assert(values(p.push((timestamp, *old(value)))) =~= values(p).push(*old(value)));
        }
@@fn writer::chunk_writer::PageWriter::estimate_max_mem_size
@@ret r
        requires
            pw_ok(*old(self), old(self).data_type, old(self).value_encoder.kind()),
            old(self).point_number <= 0x0080_0000,
        ensures
            pw_same(*final(self), *old(self)),
            r <= 128 * old(self).point_number + 64,
@@fn writer::chunk_writer::PageWriter::prepare_buffer
        requires
            pw_ok(*old(self), old(self).data_type, old(self).value_encoder.kind()),
            old(self).point_number <= 0x0080_0000,
        ensures
            pw_same(*final(self), *old(self)),
            exists|p: Page| body_of(p, *old(self)) && #[trigger] page_body(p) == final(self).buffer@,
            final(self).buffer@.len() <= 64 * old(self).point_number + 5,
@@entry
        hide(encodes);
        hide(stat_covers);
        hide(rising);
@@pre 0 self.value_encoder.serialize(
        proof {
            assert(appended(Seq::<u8>::empty(), time_buffer@) =~= time_buffer@);
            assert(self.buffer@ =~= uvar(time_buffer@.len()) + time_buffer@);
            crate::writer::utils::lemma_uvar_len(time_buffer@.len());
        }
@@exit
        proof {
            let x = uvar(time_buffer@.len()) + time_buffer@;
            let p = Page { pts: pw_pts(*old(self)), time: time_buffer@, value: appended(x, self.buffer@), stat: old(self).statistics };
            assert(page_body(p) =~= self.buffer@);
            assert(body_of(p, *old(self)));
        }
