@@raw
/// closing a writer
pub mod closing {
use vstd::prelude::*;
use crate::vspec::*;
use crate::writer::*;
use crate::writer::statistics::Statistics;
use crate::writer::ts_file_config::TsFileConfig;
use crate::writer::chunk_writer::ChunkMetadata;
use crate::writer::tsfile_writer::TsFileWriter;
use crate::writer::tsfile_io_writer::TsFileIoWriter;
use crate::reading::{small, metas_found, lemma_found};
use crate::points::{reads_back, lemma_reads_back};
/// the chunks of a series
pub open spec fn chunks_in(s: Seq<Chunk>, m: Seq<char>) -> Seq<Chunk> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last().name == m { chunks_in(s.drop_last(), m).push(s.last()) } else { chunks_in(s.drop_last(), m) }
}
pub open spec fn series_chunks(gs: Seq<Group>, d: Seq<char>, m: Seq<char>) -> Seq<Chunk> decreases gs.len() {
    if gs.len() == 0 { Seq::empty() }
    else if gs.last().device == d { series_chunks(gs.drop_last(), d, m) + chunks_in(gs.last().chunks, m) }
    else { series_chunks(gs.drop_last(), d, m) }
}
pub open spec fn pts_of(s: Seq<Chunk>) -> Seq<Pt> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { pts_of(s.drop_last()) + pages_pts(s.last().pages) }
}
pub proof fn lemma_pts_cat(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures pts_of(a + b) =~= pts_of(a) + pts_of(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { lemma_pts_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn lemma_pts_in(s: Seq<Chunk>, m: Seq<char>)
    ensures pts_of(chunks_in(s, m)) =~= chunks_pts(s, m)
    decreases s.len()
{
    hide(pages_pts);
    if s.len() > 0 {
        lemma_pts_in(s.drop_last(), m);
        if s.last().name == m { assert(chunks_in(s, m).drop_last() =~= chunks_in(s.drop_last(), m)); }
    }
}
/// the points of a series are those of its chunks
pub proof fn lemma_pts_of(gs: Seq<Group>, d: Seq<char>, m: Seq<char>)
    ensures pts_of(series_chunks(gs, d, m)) =~= file_pts(gs, d, m)
    decreases gs.len()
{
    hide(pages_pts);
    if gs.len() > 0 {
        lemma_pts_of(gs.drop_last(), d, m);
        if gs.last().device == d {
            lemma_pts_in(gs.last().chunks, m);
            lemma_pts_cat(series_chunks(gs.drop_last(), d, m), chunks_in(gs.last().chunks, m));
        }
    }
}
pub proof fn lemma_full(gs: Seq<Group>, d: Seq<char>, m: Seq<char>)
    ensures series_chunks(full(gs), d, m) =~= series_chunks(gs, d, m)
    decreases gs.len()
{
    if gs.len() > 0 {
        lemma_full(gs.drop_last(), d, m);
        if gs.last().chunks.len() > 0 { assert(full(gs).drop_last() =~= full(gs.drop_last())); }
    }
}
pub open spec fn metas_placed(ms: Metas, out: Seq<u8>, cs: Seq<Chunk>, m: Seq<char>) -> bool {
    all_placed(ms, out, cs) && forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).name == m
}
pub proof fn lemma_metas_in(ms: Metas, out: Seq<u8>, cs: Seq<Chunk>, m: Seq<char>)
    requires all_placed(ms, out, cs)
    ensures metas_placed(metas_in(ms, m), out, chunks_in(cs, m), m)
    decreases ms.len()
{
    hide(placed);
    if ms.len() > 0 {
        assert forall|i: int| 0 <= i < ms.len() - 1 implies placed(#[trigger] ms.drop_last()[i], out, cs.drop_last()[i]) by { assert(placed(ms[i], out, cs[i])); }
        lemma_metas_in(ms.drop_last(), out, cs.drop_last(), m);
        let n = ms.len() - 1;
        assert(placed(ms[n], out, cs[n]));
        assert(ms[n].measurement_id@ == cs[n].name) by { reveal(placed); }
    }
}
/// the metadata of a series is that of its chunks
pub proof fn lemma_metas_of(ms: Seq<ChunkGroupMetadata>, out: Seq<u8>, gs: Seq<Group>, d: Seq<char>, m: Seq<char>)
    requires groups_placed(ms, out, gs)
    ensures metas_placed(metas_of(ms, d, m), out, series_chunks(gs, d, m), m)
    decreases ms.len()
{
    hide(placed);
    if ms.len() > 0 {
        assert forall|i: int| 0 <= i < ms.len() - 1 implies group_placed(#[trigger] ms.drop_last()[i], out, gs.drop_last()[i]) by { assert(group_placed(ms[i], out, gs[i])); }
        lemma_metas_of(ms.drop_last(), out, gs.drop_last(), d, m);
        let n = ms.len() - 1;
        assert(group_placed(ms[n], out, gs[n]));
        if gs.last().device == d {
            lemma_metas_in(ms[n].chunk_metadata@, out, gs[n].chunks, m);
            let a = metas_of(ms.drop_last(), d, m);
            let b = metas_in(ms[n].chunk_metadata@, m);
            let x = series_chunks(gs.drop_last(), d, m);
            let y = chunks_in(gs[n].chunks, m);
            assert forall|i: int| 0 <= i < a.len() + b.len() implies placed(#[trigger] (a + b)[i], out, (x + y)[i]) by {
                if i < a.len() { assert(placed(a[i], out, x[i])); } else { assert(placed(b[i - a.len()], out, y[i - a.len()])); }
            }
            assert forall|i: int| 0 <= i < x.len() + y.len() implies (#[trigger] (x + y)[i]).name == m by {
                if i < x.len() { assert(x[i].name == m); } else { assert(y[i - x.len()].name == m); }
            }
        }
    }
}
/// chunks as declared
pub open spec fn declared_chunks<'a>(cs: Seq<Chunk>, d: Seq<char>, s: Schema<'a>) -> bool {
    forall|i: int| 0 <= i < cs.len() ==> chunk_declared(#[trigger] cs[i], d, s)
}
pub proof fn lemma_chunks_in<'a>(cs: Seq<Chunk>, d: Seq<char>, m: Seq<char>, s: Schema<'a>)
    requires declared_chunks(cs, d, s), forall|i: int, j: int| 0 <= i < j < cs.len() ==> str_lt((#[trigger] cs[i]).name, (#[trigger] cs[j]).name)
    ensures
        declared_chunks(chunks_in(cs, m), d, s), chunks_in(cs, m).len() <= 1,
        chunks_in(cs, m).len() == 1 ==> exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).name == m,
    decreases cs.len()
{
    hide(chunk_declared);
    if cs.len() > 0 {
        let t = cs.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies chunk_declared(#[trigger] t[i], d, s) by { assert(chunk_declared(cs[i], d, s)); }
        lemma_chunks_in(t, d, m, s);
        assert(chunk_declared(cs[cs.len() - 1], d, s));
        if cs.last().name == m {
            if chunks_in(t, m).len() == 1 {
                let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).name == m;
                assert(str_lt(cs[i].name, cs[cs.len() - 1].name));
                lemma_bytes_lt(sbytes(m), sbytes(m), sbytes(m));
            }
            assert(cs[cs.len() - 1].name == m);
        } else if chunks_in(t, m).len() == 1 {
            let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).name == m;
            assert(cs[i].name == m);
        }
    }
}
pub proof fn lemma_series_chunks<'a>(gs: Seq<Group>, d: Seq<char>, m: Seq<char>, s: Schema<'a>)
    requires forall|i: int| 0 <= i < gs.len() ==> group_declared(#[trigger] gs[i], s)
    ensures declared_chunks(series_chunks(gs, d, m), d, s), series_chunks(gs, d, m).len() <= gs.len()
    decreases gs.len()
{
    hide(chunk_declared);
    if gs.len() > 0 {
        let t = gs.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies group_declared(#[trigger] t[i], s) by { assert(group_declared(gs[i], s)); }
        lemma_series_chunks(t, d, m, s);
        assert(group_declared(gs[gs.len() - 1], s));
        if gs.last().device == d { lemma_chunks_in(gs.last().chunks, d, m, s); }
    }
}
pub proof fn lemma_chunk_count(t: TSDataType, k: Kind, s: Seq<Page>)
    requires pages_ok(s, t, k), pages_pts(s).len() <= u32::MAX
    ensures stat_count(chunk_stat(t, s)) == pages_pts(s).len(), stat_type(chunk_stat(t, s)) == t
    decreases s.len()
{
    hide(page_ok);
    if s.len() > 0 {
        let r = s.drop_last();
        assert forall|i: int| 0 <= i < r.len() implies page_ok(#[trigger] r[i], t, k) by { assert(page_ok(s[i], t, k)); }
        lemma_chunk_count(t, k, r);
        assert(page_ok(s[s.len() - 1], t, k));
        lemma_page_count(s.last(), t, k);
        lemma_stat_mrg(chunk_stat(t, r), s.last().stat);
    }
}
pub proof fn lemma_page_count(p: Page, t: TSDataType, k: Kind)
    requires page_ok(p, t, k)
    ensures stat_count(p.stat) == p.pts.len(), stat_type(p.stat) == t
{}
pub proof fn lemma_metas_count(ms: Metas, out: Seq<u8>, cs: Seq<Chunk>)
    requires all_placed(ms, out, cs), pts_of(cs).len() <= u32::MAX
    ensures cms_count(ms) == pts_of(cs).len()
    decreases ms.len()
{
    hide(chunk_stat); hide(pages_pts); hide(pages_ok);
    if ms.len() > 0 {
        let n = ms.len() - 1;
        assert forall|i: int| 0 <= i < n implies placed(#[trigger] ms.drop_last()[i], out, cs.drop_last()[i]) by { assert(placed(ms[i], out, cs[i])); }
        assert(pts_of(cs).len() == pts_of(cs.drop_last()).len() + pages_pts(cs.last().pages).len());
        lemma_metas_count(ms.drop_last(), out, cs.drop_last());
        assert(placed(ms[n], out, cs[n]));
        lemma_chunk_count(cs[n].data_type, kind_of(cs[n].data_type, cs[n].encoding)->Some_0, cs[n].pages);
    }
}
/// there is room for the metadata
pub open spec fn may_close<'a, T: PositionedWrite>(w: TsFileWriter<'a, T>) -> bool {
    &&& config_ok(w.file_io_writer.config)
    &&& index_config_ok(w.file_io_writer.config)
    &&& w.file_io_writer.groups@.len() + w.group_writers@.dom().len() <= 60_000_000
    &&& forall|d: Seq<char>, m: Seq<char>| #[trigger] all_pts(w.group_writers@, w.file_io_writer.groups@, d, m).len() <= u32::MAX
    &&& paths_declared(w.schema)
}
pub open spec fn paths_declared<'a>(s: Schema<'a>) -> bool {
    &&& forall|d: Seq<char>, m: Seq<char>| #[trigger] declared(s, d, m) ==> str_ok(dotted(d, m))
    &&& exists|p: Set<PathV>| #[trigger] p.len() <= i32::MAX && forall|d: Seq<char>, m: Seq<char>| #[trigger] declared(s, d, m) ==> p.contains(pathv(d, m))
}
pub open spec fn all_declared<'a>(gs: Seq<Group>, s: Schema<'a>) -> bool { forall|i: int| 0 <= i < gs.len() ==> group_declared(#[trigger] gs[i], s) }
pub proof fn lemma_series_fit<'a>(ms: Seq<ChunkGroupMetadata>, out: Seq<u8>, gs: Seq<Group>, s: Schema<'a>)
    requires
        groups_placed(ms, out, full(gs)),
        all_declared(gs, s),
        names_ok(s),
        gs.len() <= 60_000_000,
        forall|d: Seq<char>, m: Seq<char>| #[trigger] file_pts(gs, d, m).len() <= u32::MAX,
        paths_declared(s),
    ensures series_fit(ms), few(ms)
{
    hide(placed); hide(chunk_declared); hide(pages_pts);
    assert forall|d: Seq<char>, m: Seq<char>| #[trigger] metas_of(ms, d, m).len() > 0 implies metas_ok(metas_of(ms, d, m)) && str_ok(d) && str_ok(dotted(d, m)) && declared(s, d, m) by {
        let cs = series_chunks(gs, d, m);
        let v = metas_of(ms, d, m);
        lemma_full(gs, d, m);
        lemma_metas_of(ms, out, full(gs), d, m);
        lemma_series_chunks(gs, d, m, s);
        lemma_pts_of(gs, d, m);
        lemma_metas_count(v, out, cs);
        assert(file_pts(gs, d, m).len() <= u32::MAX);
        assert forall|i: int| 0 <= i < v.len() implies meta_ok(#[trigger] v[i], decl(s, d, m).data_type) && v[i].measurement_id@ == m && declared(s, d, m) by {
            assert(placed(v[i], out, cs[i]));
            assert(chunk_declared(cs[i], d, s));
            assert(cs[i].name == m);
            reveal(placed); reveal(chunk_declared);
        }
        assert(v[0].measurement_id@ == m);
        assert(meta_ok(v[0], decl(s, d, m).data_type));
    }
    let p = choose|p: Set<PathV>| #[trigger] p.len() <= i32::MAX && forall|d: Seq<char>, m: Seq<char>| #[trigger] declared(s, d, m) ==> p.contains(pathv(d, m));
    assert forall|d: Seq<char>, m: Seq<char>| #[trigger] metas_of(ms, d, m).len() > 0 implies p.contains(pathv(d, m)) by { assert(declared(s, d, m)); }
}
/// with no group begun, all groups that have chunks are recorded
pub proof fn lemma_all_closed<'a, T: PositionedWrite>(w: TsFileIoWriter<'a, T>)
    requires io_ok(w), idle(w)
    ensures groups_placed(w.chunk_group_metadata_list@, WriteSpec::out(&w.out), full(w.groups@))
{}
/// a file with the groups `gs`, recorded as `ms`
pub open spec fn whole_file<'a>(out: Seq<u8>, gs: Seq<Group>, ms: Seq<ChunkGroupMetadata>, s: Schema<'a>, c: TsFileConfig) -> bool {
    &&& closed(out, gs, ms, c)
    &&& groups_placed(ms, out, full(gs))
    &&& all_declared(gs, s)
    &&& series_fit(ms)
    &&& small(out, gs) ==> metas_found(out, ms) && reads_back(out, gs)
}
/// .. with the points of the writer `w`
pub open spec fn has_points<'a, T: PositionedWrite>(gs: Seq<Group>, w: TsFileWriter<'a, T>) -> bool {
    forall|d: Seq<char>, m: Seq<char>| #[trigger] file_pts(gs, d, m) =~= series(w, d, m)
}
pub open spec fn finished<'a, T: PositionedWrite>(out: Seq<u8>, w: TsFileWriter<'a, T>) -> bool {
    exists|gs: Seq<Group>, ms: Seq<ChunkGroupMetadata>| #[trigger] whole_file(out, gs, ms, w.schema, w.file_io_writer.config) && has_points(gs, w)
}
pub proof fn lemma_closed<'a>(out: Seq<u8>, gs: Seq<Group>, ms: Seq<ChunkGroupMetadata>, s: Schema<'a>, c: TsFileConfig)
    requires closed(out, gs, ms, c), groups_placed(ms, file_body(gs), full(gs)), all_declared(gs, s), series_fit(ms), index_config_ok(c)
    ensures whole_file(out, gs, ms, s, c)
{
    lemma_found(out, gs, ms, c);
    let f = choose|f: Footer| #[trigger] footer_ok(f, out, gs, ms, c);
    let b = file_body(gs);
    let foot = nodev_ser(f.root) + be(b.len(), 8) + bloom_ser(f.bloom);
    let w = seq![2u8] + pieces_ser(f.ps) + foot + be(foot.len() as u32 as nat, 4) + magic();
    assert(out =~= b + w);
    lemma_groups_placed(ms, b, w, full(gs));
    if small(out, gs) { lemma_reads_back(out, gs, ms); }
}
/// everything is in chunk groups
pub open spec fn ready<'a, T: PositionedWrite>(gs: Seq<Group>, ms: Seq<ChunkGroupMetadata>, w: TsFileWriter<'a, T>) -> bool {
    &&& groups_placed(ms, file_body(gs), full(gs))
    &&& all_declared(gs, w.schema)
    &&& series_fit(ms)
    &&& has_points(gs, w)
    &&& index_config_ok(w.file_io_writer.config)
}
pub proof fn lemma_same_sink<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>)
    requires tw_like(a, b)
    ensures WriteSpec::id(&b.file_io_writer.out) == WriteSpec::id(&a.file_io_writer.out)
{}
pub proof fn lemma_ready<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>)
    requires tw_ok(a), may_close(a), tw_like(a, b), tw_ok(b), flushed_all(a, b)
    ensures
        ready(b.file_io_writer.groups@, b.file_io_writer.chunk_group_metadata_list@, a),
        io_ok(b.file_io_writer), series_fit(b.file_io_writer.chunk_group_metadata_list@), few(b.file_io_writer.chunk_group_metadata_list@),
        config_ok(b.file_io_writer.config), index_config_ok(b.file_io_writer.config), b.file_io_writer.config == a.file_io_writer.config,
{
    broadcast use axiom_order;
    let io = b.file_io_writer;
    let gs = io.groups@;
    lemma_all_closed(io);
    assert(WriteSpec::out(&io.out) == file_body(gs));
    lemma_listed_len(tw_order(a.group_writers@), a.group_writers@.dom());
    assert(gs.len() <= 60_000_000);
    assert forall|d: Seq<char>, m: Seq<char>| #[trigger] file_pts(gs, d, m) =~= series(a, d, m) && file_pts(gs, d, m).len() <= u32::MAX by {
        assert(series(b, d, m) =~= file_pts(gs, d, m));
        assert(all_pts(a.group_writers@, a.file_io_writer.groups@, d, m).len() <= u32::MAX);
    }
    lemma_series_fit(io.chunk_group_metadata_list@, WriteSpec::out(&io.out), gs, a.schema);
}
pub proof fn lemma_finished<'a, T: PositionedWrite>(out: Seq<u8>, gs: Seq<Group>, ms: Seq<ChunkGroupMetadata>, w: TsFileWriter<'a, T>, c: TsFileConfig)
    requires closed(out, gs, ms, c), ready(gs, ms, w), c == w.file_io_writer.config
    ensures finished(out, w)
{
    lemma_closed(out, gs, ms, w.schema, c);
}
}
@@fn writer::tsfile_writer::TsFileWriter<'a,T>::close
@@ret r
        requires
            tw_ok(*old(self)),
            room(old(self).group_writers@, 0),
            may_close(*old(self)),
        ensures
            r is Ok ==> WriteSpec::failed(&final(self).file_io_writer.out) == WriteSpec::failed(&old(self).file_io_writer.out),
            r is Err ==> WriteSpec::failed(&final(self).file_io_writer.out),
            r is Ok ==> finished(WriteSpec::out(&final(self).file_io_writer.out), *old(self)),
            r is Ok ==> WriteSpec::id(&final(self).file_io_writer.out) == WriteSpec::id(&old(self).file_io_writer.out),
@@entry
        hide(io_ok); hide(idle); hide(names_ok); hide(groups_ok); hide(group_declared); hide(in_step); hide(nothing_buffered); hide(flushed_all); hide(same_series);
        hide(may_close); hide(io_like); hide(room); hide(tw_ok); hide(series_fit); hide(few); hide(closed); hide(finished); hide(ready);
        let ghost w = *self;
@@post 0 self.flush_all_chunk_groups()?
        let ghost io = self.file_io_writer;
        let ghost c = io.config;
        let ghost gs = io.groups@;
        let ghost ms = io.chunk_group_metadata_list@;
        proof {
            lemma_ready(w, *self);
            lemma_same_sink(w, *self);
            assert forall|out: Seq<u8>| #[trigger] closed(out, gs, ms, c) implies finished(out, w) by { lemma_finished(out, gs, ms, w, c); }
        }
