@@raw
pub mod chunks {
use vstd::prelude::*;
use crate::vspec::*;
use crate::writer::*;
use crate::writer::encoding::{Encoder, TSEncoding};
use crate::writer::compression::CompressionType;
use crate::writer::statistics::Statistics;
use crate::writer::chunk_writer::{PageWriter, ChunkWriter, ChunkHeader, ChunkMetadata};
pub open spec fn cw_kind(w: ChunkWriter) -> Kind { kind_of(w.data_type, w.encoding)->Some_0 }
pub open spec fn cur_pts(w: ChunkWriter) -> Seq<Pt> {
    match w.current_page_writer { Some(p) => pw_pts(p), None => Seq::empty() }
}
/// the points of a chunk: closed pages and open page
pub open spec fn cw_pts(w: ChunkWriter) -> Seq<Pt> { pages_pts(w.pages@) + cur_pts(w) }
pub open spec fn pages_ok(s: Seq<Page>, t: TSDataType, k: Kind) -> bool {
    forall|i: int| 0 <= i < s.len() ==> page_ok(#[trigger] s[i], t, k)
}
pub open spec fn cw_ok(w: ChunkWriter) -> bool {
    &&& w.current_page_writer is Some ==> pw_ok(w.current_page_writer->Some_0, w.data_type, cw_kind(w))
    &&& w.current_page_writer is Some || w.pages@.len() > 0 ==> kind_of(w.data_type, w.encoding) is Some
    &&& pages_ok(w.pages@, w.data_type, cw_kind(w))
    &&& w.page_buffer@ == chunk_data(w.compression_type, w.pages@)
    &&& w.num_pages == w.pages@.len()
    &&& w.pages@.len() == 0 ==> w.size_without_statistics == 0
    &&& w.pages@.len() == 1 ==> w.first_page_statistics == Some(w.pages@[0].stat)
            && w.size_without_statistics == page_head(w.compression_type, w.pages@[0]).len()
    &&& stat_type(w.statistics) == w.data_type
    &&& stat_ok(w.statistics)
    &&& if w.pages@.len() == 0 { stat_empty(w.statistics) } else { w.statistics == chunk_stat(w.data_type, w.pages@) }
    &&& stat_count(w.statistics) == pages_pts(w.pages@).len()
    &&& rising(cw_pts(w))
}
pub proof fn lemma_cw(w: ChunkWriter)
    requires cw_ok(w)
    ensures
        rising(cw_pts(w)), w.page_buffer@ == chunk_data(w.compression_type, w.pages@), pages_ok(w.pages@, w.data_type, cw_kind(w)),
        w.current_page_writer is Some || w.pages@.len() > 0 ==> kind_of(w.data_type, w.encoding) is Some,
{}
/// one more page
pub proof fn lemma_page(c: CompressionType, t: TSDataType, k: Kind, s: Seq<Page>, p: Page)
    requires pages_ok(s, t, k), page_ok(p, t, k)
    ensures
        pages_ok(s.push(p), t, k),
        pages_pts(s.push(p)) == pages_pts(s) + p.pts,
        s.len() == 0 ==> chunk_data(c, s.push(p)) == page_bytes(c, p, false),
        s.len() == 1 ==> chunk_data(c, s.push(p)) == page_bytes(c, s[0], true) + page_bytes(c, p, true),
        s.len() > 1 ==> chunk_data(c, s.push(p)) == chunk_data(c, s) + page_bytes(c, p, true),
        chunk_stat(t, s.push(p)) == stat_mrg(chunk_stat(t, s), p.stat),
{
    assert(s.push(p).drop_last() =~= s);
    if s.len() == 1 {
        assert(s.drop_last() =~= Seq::empty());
        reveal_with_fuel(pages_bytes, 3);
        assert(pages_bytes(c, s) =~= page_bytes(c, s[0], true));
    }
}
pub proof fn lemma_mrg_empty(t: TSDataType, a: Statistics, o: Statistics)
    requires stat_type(a) == t, stat_empty(a), stat_type(o) == t
    ensures stat_mrg(a, o) == stat_mrg(no_stat(t), o)
{ reveal(stat_mrg); }
pub proof fn lemma_pages(s: Seq<Page>, t: TSDataType, k: Kind)
    requires pages_ok(s, t, k)
    ensures pages_pts(s).len() >= s.len()
    decreases s.len()
{ if s.len() > 0 { assert(pages_ok(s.drop_last(), t, k)) by { assert(forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s.drop_last()[i] == s[i]); } lemma_pages(s.drop_last(), t, k); assert(page_ok(s.last(), t, k)) by { assert(s.last() == s[s.len() - 1]); } } }
pub proof fn lemma_pw(w: PageWriter, t: TSDataType, k: Kind)
    requires pw_ok(w, t, k)
    ensures w.data_type == t, w.value_encoder.kind() == k, w.point_number == pw_pts(w).len(), stat_type(w.statistics) == t, stat_ok(w.statistics), stat_count(w.statistics) == pw_pts(w).len()
{}
/// what a page writer with points makes is a page
pub proof fn lemma_body(p: Page, w: PageWriter, t: TSDataType, k: Kind)
    requires pw_ok(w, t, k), body_of(p, w), w.point_number > 0
    ensures page_ok(p, t, k), p.stat == w.statistics, p.pts == pw_pts(w)
{}
pub proof fn lemma_buffer(a: PageWriter, b: PageWriter, t: TSDataType, k: Kind)
    requires pw_ok(a, t, k), b == (PageWriter { buffer: b.buffer, ..a })
    ensures pw_ok(b, t, k)
{}
pub proof fn lemma_one(c: CompressionType, s: Seq<Page>)
    ensures
        s.len() == 0 ==> chunk_data(c, s) =~= Seq::empty(),
        s.len() == 1 ==> chunk_data(c, s) == page_bytes(c, s[0], false) && page_head(c, s[0]).len() <= chunk_data(c, s).len(),
{}
pub proof fn lemma_pages_sum(t: TSDataType, s: Seq<Page>)
    ensures s.len() == 0 ==> pages_pts(s) =~= Seq::empty() && chunk_stat(t, s) == no_stat(t)
{}
/// one more page
pub proof fn lemma_next(a: ChunkWriter, b: ChunkWriter)
    requires
        cw_ok(a), a.current_page_writer is Some, cur_pts(a).len() > 0, cw_pts(a).len() < u32::MAX,
        cw_like(b, a),
        b.current_page_writer is Some, pw_ok(b.current_page_writer->Some_0, a.data_type, cw_kind(a)), b.current_page_writer->Some_0.point_number == 0,
        b.pages@.len() > 0,
        b.pages@ == a.pages@.push(b.pages@.last()),
        body_of(b.pages@.last(), a.current_page_writer->Some_0),
        b.page_buffer@ == chunk_data(a.compression_type, b.pages@),
        b.num_pages == a.num_pages + 1,
        b.statistics == stat_mrg(a.statistics, b.pages@.last().stat),
        stat_ok(b.statistics),
        a.pages@.len() == 0 ==> b.first_page_statistics == Some(b.pages@.last().stat)
            && b.size_without_statistics == page_head(a.compression_type, b.pages@.last()).len(),
    ensures
        cw_ok(b),
        cw_pts(b) =~= cw_pts(a),
{
    hide(page_ok);
    hide(encodes);
    hide(page_body);
    hide(chunk_data);
    hide(chunk_stat);
    hide(pages_pts);
    hide(stat_covers);
    hide(page_head);
    let p = b.pages@.last();
    let k = cw_kind(a);
    lemma_pages_sum(a.data_type, a.pages@);
    lemma_body(p, a.current_page_writer->Some_0, a.data_type, k);
    lemma_page(a.compression_type, a.data_type, k, a.pages@, p);
    lemma_pw(a.current_page_writer->Some_0, a.data_type, k);
    assert(cw_pts(a).len() == pages_pts(a.pages@).len() + cur_pts(a).len());
    lemma_stat_mrg(a.statistics, p.stat);
    if a.pages@.len() == 0 {
        lemma_mrg_empty(a.data_type, a.statistics, p.stat);
    }
    assert(cw_pts(b) =~= cw_pts(a));
}
pub proof fn lemma_split(c: CompressionType, p: Page, n: int)
    requires n == page_head(c, p).len()
    ensures
        page_bytes(c, p, false).subrange(0, n) + stat_ser(p.stat) + page_bytes(c, p, false).subrange(n, page_bytes(c, p, false).len() as int) =~= page_bytes(c, p, true)
{
    assert(page_bytes(c, p, false).subrange(0, n) =~= page_head(c, p));
    assert(page_bytes(c, p, false).subrange(n, page_bytes(c, p, false).len() as int) =~= stored(c, p));
}
pub proof fn lemma_fits(c: CompressionType, s: Seq<Page>, p: Page, h: int)
    requires
        page_body(p).len() <= 64 * h + 5, 0 < h <= 0x0080_0000,
    ensures stored(c, p).len() <= max_len(page_body(p).len()) ==> chunk_data(c, s.push(p)).len() <= chunk_data(c, s).len() + 300 * h
{
    if stored(c, p).len() <= max_len(page_body(p).len()) {
    assert(s.push(p).drop_last() =~= s);
    crate::writer::utils::lemma_uvar_len(page_body(p).len());
    assert(stored(c, p).len() <= 75 * h + 38);
    crate::writer::utils::lemma_uvar_len(stored(c, p).len());
    lemma_stat_size(p.stat);
    assert(page_head(c, p).len() <= 10);
    assert(page_bytes(c, p, true).len() <= 75 * h + 38 + 10 + 61);
    assert(page_bytes(c, p, false).len() <= 75 * h + 38 + 10 + 61);
    if s.len() == 1 {
        lemma_stat_size(s[0].stat);
        assert(s.drop_last() =~= Seq::empty());
        reveal_with_fuel(pages_bytes, 3);
        assert(page_bytes(c, s[0], true).len() <= chunk_data(c, s).len() + 61);
    }
    }
}
/// a chunk in a file
pub struct Chunk { pub name: Seq<char>, pub data_type: TSDataType, pub compression: CompressionType, pub encoding: TSEncoding, pub pages: Seq<Page> }
pub open spec fn chunk_of(w: ChunkWriter) -> Chunk {
    Chunk { name: w.measurement_id@, data_type: w.data_type, compression: w.compression_type, encoding: w.encoding, pages: w.pages@ }
}
/// marker (5: one page, 1: several), name, number of bytes of the pages, codes
pub open spec fn chunk_head(c: Chunk) -> Seq<u8> {
    seq![if c.pages.len() <= 1 { 5u8 } else { 1u8 }] + str_ser(c.name) + uvar(chunk_data(c.compression, c.pages).len())
        + seq![type_code(c.data_type), compression_code(c.compression), encoding_code(c.encoding)]
}
pub open spec fn chunk_ser(c: Chunk) -> Seq<u8> { chunk_head(c) + chunk_data(c.compression, c.pages) }
/// an operation that changes nothing that matters
pub open spec fn cw_same(a: ChunkWriter, b: ChunkWriter) -> bool {
    &&& cw_ok(a)
    &&& cw_like(a, b)
    &&& a.pages@ == b.pages@
    &&& a.page_buffer@ == b.page_buffer@
    &&& cur_pts(a) == cur_pts(b)
}
pub proof fn lemma_data_len(c: CompressionType, s: Seq<Page>)
    ensures s.len() > 0 ==> chunk_data(c, s).len() > 0, s.len() == 0 ==> chunk_data(c, s).len() == 0
{
    if s.len() > 0 {
        crate::writer::utils::lemma_uvar_len(page_body(s[0]).len());
        crate::writer::utils::lemma_uvar_len(page_body(s.last()).len());
    }
}
pub proof fn lemma_rising_tail(a: Seq<Pt>, b: Seq<Pt>, x: Pt)
    requires rising((a + b).push(x))
    ensures rising(b.push(x))
{
    let c = (a + b).push(x);
    assert forall|i: int| 0 < i < b.push(x).len() implies b.push(x)[i - 1].0 < (#[trigger] b.push(x)[i]).0 by {
        let j = a.len() + i;
        assert(c[j - 1].0 < c[j].0);
        assert(c[j] == b.push(x)[i]);
        assert(c[j - 1] == b.push(x)[i - 1]);
    }
}
pub proof fn lemma_write(a: ChunkWriter, b: ChunkWriter, x: Pt)
    requires
        cw_ok(a), rising(cw_pts(a).push(x)),
        b == (ChunkWriter { current_page_writer: b.current_page_writer, ..a }),
        b.current_page_writer is Some,
        kind_of(a.data_type, a.encoding) is Some,
        pw_ok(b.current_page_writer->Some_0, a.data_type, cw_kind(a)),
        pw_pts(b.current_page_writer->Some_0) =~= cur_pts(a).push(x),
    ensures
        cw_ok(b),
        cw_pts(b) =~= cw_pts(a).push(x),
        cur_pts(b).len() == cur_pts(a).len() + 1,
{
    hide(pw_ok);
    hide(page_ok);
    hide(chunk_data);
    hide(chunk_stat);
    hide(pages_pts);
    assert(cw_pts(b) =~= cw_pts(a).push(x));
}
/// the same series
pub open spec fn cw_like(a: ChunkWriter, b: ChunkWriter) -> bool {
    &&& a.measurement_id == b.measurement_id
    &&& a.data_type == b.data_type
    &&& a.compression_type == b.compression_type
    &&& a.encoding == b.encoding
    &&& a.mask == b.mask
}
}
@@fields writer::chunk_writer::ChunkWriter
    pub pages: Ghost<Seq<Page>>,
@@init ChunkWriter
 pages: Ghost(Seq::empty())
@@fn writer::chunk_writer::ChunkWriter::new
@@ret r
        ensures
            cw_ok(r),
            cw_pts(r) =~= Seq::empty(),
            r.pages@ =~= Seq::empty(),
            r.measurement_id@ == measurement_id@,
            r.data_type == data_type,
            r.compression_type == compression_type,
            r.encoding == encoding,
            r.mask == 0,
@@fn writer::chunk_writer::ChunkWriter::write_page_to_buffer
@@attr
#[verifier::rlimit(60)]
@@ret r
        requires
            cw_ok(*old(self)),
            old(self).current_page_writer is Some ==> cur_pts(*old(self)).len() > 0,
            old(self).page_buffer@.len() <= 0x2000_0000,
            cur_pts(*old(self)).len() <= 0x0080_0000,
            cw_pts(*old(self)).len() < u32::MAX,
        ensures
            r is Ok,
            cw_ok(*final(self)),
            cw_like(*final(self), *old(self)),
            cw_pts(*final(self)) =~= cw_pts(*old(self)),
            cur_pts(*final(self)).len() == 0,
            final(self).page_buffer@.len() <= old(self).page_buffer@.len() + 300 * cur_pts(*old(self)).len(),
@@entry
        hide(pw_ok);
        hide(page_ok);
        hide(encodes);
        hide(page_body);
        hide(chunk_data);
        hide(chunk_stat);
        hide(pages_pts);
        hide(uvar);
        hide(page_bytes);
        hide(stat_covers);
        hide(rising);
        hide(times);
        hide(values);
@@pre 0 page_writer.prepare_buffer()
            let ghost k = cw_kind(*old(self));
            let ghost pw0 = *page_writer;
            proof {
                lemma_pw(*page_writer, self.data_type, k);
                lemma_pages(self.pages@, self.data_type, k);
            }
@@post 0 page_writer.prepare_buffer()
            let ghost pw1 = *page_writer;
            let ghost pg = choose|p: Page| body_of(p, pw0) && #[trigger] page_body(p) == page_writer.buffer@;
            proof { 
                lemma_one(self.compression_type, self.pages@);
                assert(body_of(pg, pw0));
                lemma_body(pg, pw0, self.data_type, k);
                lemma_fits(self.compression_type, self.pages@, pg, pw0.point_number as int);
                lemma_page(self.compression_type, self.data_type, k, self.pages@, pg);
            }
@@post 0 page_writer.buffer.clear()
            assert(self.page_buffer@ == chunk_data(self.compression_type, self.pages@.push(pg))) by {
                reveal(page_bytes);
                assert(self.page_buffer@ =~= page_bytes(self.compression_type, pg, false));
            }
@@post 1 page_writer.buffer.clear()
            assert(self.page_buffer@ == chunk_data(self.compression_type, self.pages@.push(pg))) by {
                lemma_split(self.compression_type, self.pages@[0], self.size_without_statistics as int);
                assert(self.page_buffer@ =~= page_bytes(self.compression_type, self.pages@[0], true) + page_bytes(self.compression_type, pg, true)) by { reveal(page_bytes); }
            }
@@post 2 page_writer.buffer.clear()
            assert(self.page_buffer@ == chunk_data(self.compression_type, self.pages@.push(pg))) by {
                reveal(page_bytes);
                assert(self.page_buffer@ =~= chunk_data(self.compression_type, self.pages@) + page_bytes(self.compression_type, pg, true));
            }
@@pre 0 page_writer.reset()
            proof { lemma_buffer(pw1, *page_writer, self.data_type, k); }
@@post 0 page_writer.reset()
            proof { self.pages@ = self.pages@.push(pg); }
@@exit
        proof { if old(self).current_page_writer is Some { lemma_next(*old(self), *self); } }
@@fn writer::chunk_writer::ChunkWriter::seal_current_page
        requires
            cw_ok(*old(self)),
            old(self).page_buffer@.len() <= 0x2000_0000,
            cur_pts(*old(self)).len() <= 0x0080_0000,
            cw_pts(*old(self)).len() < u32::MAX,
        ensures
            cw_ok(*final(self)),
            cw_like(*final(self), *old(self)),
            cw_pts(*final(self)) =~= cw_pts(*old(self)),
            cur_pts(*final(self)).len() == 0,
            final(self).page_buffer@.len() <= old(self).page_buffer@.len() + 300 * cur_pts(*old(self)).len(),
            cur_pts(*old(self)).len() == 0 ==> *final(self) == *old(self),
@@fn writer::chunk_writer::ChunkWriter::get_serialized_chunk_size
@@ret r
        requires
            cw_ok(*self),
            str_ok(self.measurement_id@),
            self.page_buffer@.len() <= 0x7fff_ffff,
        ensures
            r == (if self.pages@.len() == 0 { 0 } else { chunk_ser(chunk_of(*self)).len() }),
@@entry
        hide(pw_ok);
        hide(page_ok);
        hide(chunk_data);
        hide(chunk_stat);
        hide(pages_pts);
        hide(rising);
        proof { lemma_data_len(self.compression_type, self.pages@); }
@@fn writer::chunk_writer::ChunkWriter::estimate_max_series_mem_size
@@ret r
        requires
            cw_ok(*old(self)),
            old(self).page_buffer@.len() <= 0x4000_0000,
            cur_pts(*old(self)).len() <= 0x0080_0000,
        ensures
            cw_same(*final(self), *old(self)),
            r <= old(self).page_buffer@.len() + 128 * cur_pts(*old(self)).len() + 200,
@@entry
        hide(pw_ok);
        hide(page_ok);
        hide(chunk_data);
        hide(chunk_stat);
        hide(pages_pts);
        hide(rising);
@@pre 0 let pw_mem_size=
                proof { lemma_pw(*pw, self.data_type, cw_kind(*old(self))); }
@@pre 0 let stat_size=
                proof { lemma_stat_size(pw.statistics); }
@@fn writer::chunk_writer::ChunkWriter::check_page_size_and_may_open_new_page
        requires
            cw_ok(*old(self)),
            old(self).page_buffer@.len() <= 0x2000_0000,
            cur_pts(*old(self)).len() <= 0x0080_0000,
            cw_pts(*old(self)).len() < u32::MAX,
        ensures
            cw_ok(*final(self)),
            cw_like(*final(self), *old(self)),
            cw_pts(*final(self)) =~= cw_pts(*old(self)),
            cur_pts(*final(self)).len() <= 0x0020_0000,
            final(self).page_buffer@.len() + 300 * cur_pts(*final(self)).len() <= old(self).page_buffer@.len() + 300 * cur_pts(*old(self)).len(),
@@entry
        hide(pw_ok);
        hide(page_ok);
        hide(chunk_data);
        hide(chunk_stat);
        hide(pages_pts);
        hide(rising);
        broadcast use group_floats;
        proof { if self.current_page_writer is Some { lemma_pw(self.current_page_writer->Some_0, self.data_type, cw_kind(*self)); } }
@@fn writer::chunk_writer::ChunkWriter::write
@@ret r
        requires
            cw_ok(*old(self)),
            old(self).page_buffer@.len() <= 0x2000_0000,
            cur_pts(*old(self)).len() <= 0x0020_0000,
            cw_pts(*old(self)).len() + 1 < u32::MAX,
            rising(cw_pts(*old(self)).push((timestamp, value))),
        ensures
            r is Ok == (val_type(value) == Some(old(self).data_type) && kind_of(old(self).data_type, old(self).encoding) is Some),
            r is Ok ==> r->Ok_0 == 1 && cw_pts(*final(self)) =~= cw_pts(*old(self)).push((timestamp, value)),
            r is Err ==> *final(self) == *old(self),
            r is Err ==> (if val_type(value) == Some(old(self).data_type) { r->Err_0 is Encoding } else { r->Err_0 is WrongTypeForSeries }),
            cw_ok(*final(self)),
            cw_like(*final(self), *old(self)),
            cur_pts(*final(self)).len() <= 0x0020_0000,
            final(self).page_buffer@.len() + 300 * cur_pts(*final(self)).len() <= old(self).page_buffer@.len() + 300 * cur_pts(*old(self)).len() + 300,
@@entry
        hide(pw_ok);
        hide(page_ok);
        hide(chunk_data);
        hide(chunk_stat);
        hide(pages_pts);
        hide(rising);
        let ghost x: Pt = (timestamp, value);
@@pre 0 let records_written=
        proof {
            lemma_rising_tail(pages_pts(self.pages@), cur_pts(*old(self)), x);
            assert(pw_pts(self.current_page_writer->Some_0) =~= cur_pts(*old(self)));
            lemma_pw(self.current_page_writer->Some_0, self.data_type, cw_kind(*self));
        }
@@post 0 let records_written=
        proof { lemma_write(*old(self), *self, x); }
