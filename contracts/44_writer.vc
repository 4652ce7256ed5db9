@@raw
/// the writer
pub mod writers {
use vstd::prelude::*;
use crate::vspec::*;
use crate::writer::*;
use crate::writer::errors::TsFileError;
use crate::writer::chunk_writer::ChunkWriter;
use crate::writer::group_writer::GroupWriter;
use crate::writer::tsfile_writer::{DataPoint, TsFileWriter};
use crate::writer::tsfile_io_writer::TsFileIoWriter;
/// declared names are shorter than 2 GB
pub open spec fn names_ok<'a>(s: Schema<'a>) -> bool {
    &&& forall|d: Seq<char>| #[trigger] s.measurement_groups@.dom().contains(d) ==> str_ok(d)
    &&& forall|d: Seq<char>, m: Seq<char>| s.measurement_groups@.dom().contains(d) && #[trigger] s.measurement_groups@[d].measurement_schemas@.dom().contains(m) ==> str_ok(m)
}
pub open spec fn fresh_writer(w: ChunkWriter, m: Seq<char>, s: MeasurementSchema) -> bool {
    &&& writer_ok(w, m)
    &&& cw_pts(w) =~= Seq::empty()
    &&& w.pages@ =~= Seq::empty()
    &&& like_schema(w, s)
}
pub open spec fn like_schema(w: ChunkWriter, s: MeasurementSchema) -> bool {
    w.data_type == s.data_type && w.encoding == s.encoding && w.compression_type == s.compression
}
pub open spec fn fresh_writers(ws: Map<Seq<char>, ChunkWriter>, ss: Map<Seq<char>, MeasurementSchema>) -> bool {
    &&& ws.dom() =~= ss.dom()
    &&& forall|m: Seq<char>| #[trigger] ws.dom().contains(m) ==> fresh_writer(ws[m], m, ss[m])
}
pub open spec fn fresh_group<'a>(g: GroupWriter<'a>, d: Seq<char>, s: MeasurementGroup<'a>, last: Map<Seq<char>, i64>) -> bool {
    &&& g.path@ == d
    &&& fresh_writers(g.chunk_writers@, s.measurement_schemas@)
    &&& g.last_time_map@ =~= last
}
pub type LastTimes<'a> = Map<Seq<char>, crate::maps::BTreeMap<&'a str, i64>>;
pub open spec fn last_of<'a>(n: LastTimes<'a>, d: Seq<char>) -> Map<Seq<char>, i64> {
    if n.dom().contains(d) { n[d]@ } else { Map::empty() }
}
pub open spec fn fresh_groups<'a>(gs: Map<Seq<char>, GroupWriter<'a>>, s: Schema<'a>, n: LastTimes<'a>) -> bool {
    &&& gs.dom() =~= s.measurement_groups@.dom()
    &&& forall|d: Seq<char>| #[trigger] gs.dom().contains(d) ==> fresh_group(gs[d], d, s.measurement_groups@[d], last_of(n, d))
}
pub proof fn lemma_fresh_writers<'a>(a: Seq<(&'a str, ChunkWriter)>, src: Seq<(&&'a str, &MeasurementSchema)>, ss: Map<Seq<char>, MeasurementSchema>)
    requires
        ref_items(ss, src), a.len() == src.len(),
        forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0@ == src[i].0@ && fresh_writer(a[i].1, src[i].0@, *src[i].1),
    ensures fresh_writers(map_of(a), ss)
{
    hide(fresh_writer);
    lemma_map_of(a);
    let ws = map_of(a);
    assert forall|m: Seq<char>| #[trigger] ws.dom().contains(m) <==> ss.dom().contains(m) by {
        if ws.dom().contains(m) {
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0.kv() == m && a[i].1 == ws[m];
            assert(ss.dom().contains(src[i].0.kv()));
        }
        if ss.dom().contains(m) {
            assert(kviews2(src).contains(m));
            let i = choose|i: int| 0 <= i < kviews2(src).len() && kviews2(src)[i] == m;
            assert(src[i].0.kv() == m);
            assert(a[i].0.kv() == m);
        }
    }
    assert forall|m: Seq<char>| #[trigger] ws.dom().contains(m) implies fresh_writer(ws[m], m, ss[m]) by {
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0.kv() == m && a[i].1 == ws[m];
        assert(ss.dom().contains(src[i].0.kv()));
    }
}
pub proof fn lemma_fresh_groups<'a>(a: Seq<(&'a str, GroupWriter<'a>)>, src: Seq<(&'a str, MeasurementGroup<'a>)>, s: Schema<'a>, n: LastTimes<'a>)
    requires
        own_items(s.measurement_groups@, src), a.len() == src.len(),
        forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0@ == src[i].0@ && fresh_group(a[i].1, src[i].0@, src[i].1, last_of(n, src[i].0@)),
    ensures fresh_groups(map_of(a), s, n)
{
    hide(fresh_group);
    lemma_map_of(a);
    let gs = map_of(a);
    let ss = s.measurement_groups@;
    assert forall|m: Seq<char>| #[trigger] gs.dom().contains(m) <==> ss.dom().contains(m) by {
        if gs.dom().contains(m) {
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0.kv() == m && a[i].1 == gs[m];
            assert(ss.dom().contains(src[i].0.kv()));
        }
        if ss.dom().contains(m) {
            assert(kviews(src).contains(m));
            let i = choose|i: int| 0 <= i < kviews(src).len() && kviews(src)[i] == m;
            assert(src[i].0.kv() == m);
            assert(a[i].0.kv() == m);
        }
    }
    assert forall|m: Seq<char>| #[trigger] gs.dom().contains(m) implies fresh_group(gs[m], m, ss[m], last_of(n, m)) by {
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0.kv() == m && a[i].1 == gs[m];
        assert(ss.dom().contains(src[i].0.kv()));
    }
}

/// the points of a series in the groups of a file
pub open spec fn file_pts(s: Seq<Group>, d: Seq<char>, m: Seq<char>) -> Seq<Pt> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s.last().device == d { file_pts(s.drop_last(), d, m) + chunks_pts(s.last().chunks, m) }
    else { file_pts(s.drop_last(), d, m) }
}
pub type Groups<'a> = Map<Seq<char>, GroupWriter<'a>>;
pub open spec fn buffered<'a>(gs: Groups<'a>, d: Seq<char>, m: Seq<char>) -> Seq<Pt> {
    if gs.dom().contains(d) && gv(gs[d]).dom().contains(m) { gv(gs[d])[m].pts } else { Seq::empty() }
}
/// the points that a writer has accepted for a series
pub open spec fn series<'a, T: PositionedWrite>(w: TsFileWriter<'a, T>, d: Seq<char>, m: Seq<char>) -> Seq<Pt> {
    all_pts(w.group_writers@, w.file_io_writer.groups@, d, m)
}
/// in the file or buffered
pub open spec fn all_pts<'a>(gs: Groups<'a>, f: Seq<Group>, d: Seq<char>, m: Seq<char>) -> Seq<Pt> {
    file_pts(f, d, m) + buffered(gs, d, m)
}
/// the declaration of a series
pub open spec fn declared<'a>(s: Schema<'a>, d: Seq<char>, m: Seq<char>) -> bool {
    s.measurement_groups@.dom().contains(d) && s.measurement_groups@[d].measurement_schemas@.dom().contains(m)
}
pub open spec fn decl<'a>(s: Schema<'a>, d: Seq<char>, m: Seq<char>) -> MeasurementSchema {
    s.measurement_groups@[d].measurement_schemas@[m]
}
/// `last` is the last timestamp of `p`, or -1 if there is none
pub open spec fn ends(p: Seq<Pt>, last: int) -> bool {
    if p.len() == 0 { last == -1 } else { p.last().0 == last }
}
/// the group writer serves the device `d` as declared
pub open spec fn serves<'a>(g: GroupWriter<'a>, d: Seq<char>, s: MeasurementGroup<'a>) -> bool {
    &&& gw_ok(g)
    &&& g.path@ == d
    &&& g.chunk_writers@.dom() =~= s.measurement_schemas@.dom()
    &&& forall|m: Seq<char>| #[trigger] g.chunk_writers@.dom().contains(m) ==> like_schema(g.chunk_writers@[m], s.measurement_schemas@[m])
}
pub open spec fn group_declared<'a>(g: Group, s: Schema<'a>) -> bool {
    &&& s.measurement_groups@.dom().contains(g.device)
    &&& forall|i: int| 0 <= i < g.chunks.len() ==> chunk_declared(#[trigger] g.chunks[i], g.device, s)
    &&& forall|i: int, j: int| 0 <= i < j < g.chunks.len() ==> str_lt((#[trigger] g.chunks[i]).name, (#[trigger] g.chunks[j]).name)
}
pub open spec fn chunk_declared<'a>(c: Chunk, d: Seq<char>, s: Schema<'a>) -> bool {
    &&& declared(s, d, c.name)
    &&& c.data_type == decl(s, d, c.name).data_type
    &&& c.encoding == decl(s, d, c.name).encoding
    &&& c.compression == decl(s, d, c.name).compression
}
pub open spec fn in_step<'a>(gs: Groups<'a>, f: Seq<Group>) -> bool {
    forall|d: Seq<char>, m: Seq<char>| #![trigger file_pts(f, d, m)] gs.dom().contains(d) && gs[d].chunk_writers@.dom().contains(m) ==>
        rising(file_pts(f, d, m) + buffered(gs, d, m)) && ends(file_pts(f, d, m) + buffered(gs, d, m), gw_last(gs[d], m))
}
/// no chunk group has been begun and not finished
pub open spec fn idle<'a, T: PositionedWrite>(w: TsFileIoWriter<'a, T>) -> bool {
    w.current_chunk_group_device_id is Some ==> w.chunk_metadata_list@.len() == 0
}
/// `b` is `a` and one group for each of the devices `ks`, with the points `gs` has buffered
pub open spec fn added<'a>(a: Seq<Group>, b: Seq<Group>, ks: Seq<Seq<char>>, gs: Groups<'a>) -> bool {
    &&& b.len() == a.len() + ks.len()
    &&& forall|i: int| 0 <= i < a.len() ==> b[i] == #[trigger] a[i]
    &&& forall|j: int| 0 <= j < ks.len() ==> group_of(b[a.len() + j], #[trigger] ks[j], gs)
}
pub open spec fn group_of<'a>(g: Group, d: Seq<char>, gs: Groups<'a>) -> bool {
    g.device == d && holds_group(g.chunks, gv(gs[d]))
}
pub proof fn lemma_added_step<'a>(a: Seq<Group>, b: Seq<Group>, c: Seq<Group>, ks: Seq<Seq<char>>, i: int, gs: Groups<'a>)
    requires
        0 <= i < ks.len(), added(a, b, ks.take(i), gs),
        group_added(b.push(Group { device: ks[i], chunks: Seq::empty() }), c, gv(gs[ks[i]])),
    ensures added(a, c, ks.take(i + 1), gs)
{
    hide(holds_group); hide(gv);
    let x = b.push(Group { device: ks[i], chunks: Seq::empty() });
    let cs = choose|cs: Seq<Chunk>| c == #[trigger] with_chunks(x, cs) && holds_group(cs, gv(gs[ks[i]]));
    assert(x.drop_last() =~= b);
    assert forall|j: int| 0 <= j < i + 1 implies group_of(c[a.len() + j], #[trigger] ks.take(i + 1)[j], gs) by {
        if j < i { assert(group_of(b[a.len() + j], ks.take(i)[j], gs)); assert(c[a.len() + j] == b[a.len() + j]); }
    }
    assert forall|j: int| 0 <= j < a.len() implies c[j] == #[trigger] a[j] by { assert(c[j] == b[j]); }
}
pub proof fn lemma_file_pts<'a>(a: Seq<Group>, b: Seq<Group>, ks: Seq<Seq<char>>, gs: Groups<'a>, d: Seq<char>, m: Seq<char>)
    requires added(a, b, ks, gs), ks.no_duplicates(),
        forall|k: Seq<char>| #[trigger] ks.contains(k) ==> gs.dom().contains(k),
    ensures file_pts(b, d, m) =~= file_pts(a, d, m) + (if ks.contains(d) { buffered(gs, d, m) } else { Seq::empty() })
    decreases ks.len()
{
    hide(gv); hide(as_declared);
    if ks.len() == 0 { assert(a =~= b); }
    else {
        let r = ks.drop_last();
        let c = b.drop_last();
        let z = ks.last();
        assert forall|j: int| 0 <= j < r.len() implies group_of(c[a.len() + j], #[trigger] r[j], gs) by { assert(group_of(b[a.len() + j], ks[j], gs)); }
        assert forall|j: int| 0 <= j < a.len() implies c[j] == #[trigger] a[j] by { assert(b[j] == a[j]); }
        assert forall|k: Seq<char>| #[trigger] r.contains(k) implies gs.dom().contains(k) && ks.contains(k) && k != z by {
            let j = choose|j: int| 0 <= j < r.len() && #[trigger] r[j] == k;
            assert(ks[j] == r[j] && ks[j] != ks[ks.len() - 1]);
            assert(ks.contains(k));
        }
        assert forall|k: Seq<char>| #[trigger] ks.contains(k) implies k == z || r.contains(k) by {
            let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k; if j < r.len() { assert(r[j] == k); }
        }
        lemma_file_pts(a, c, r, gs, d, m);
        assert(group_of(b[a.len() + (ks.len() - 1)], ks[ks.len() - 1], gs));
        assert(b.last() == b[a.len() + (ks.len() - 1)]);
        assert(ks.contains(z)) by { assert(ks[ks.len() - 1] == z); }
        if z == d {
            assert(points_in(b.last().chunks, gv(gs[d])));
            assert(chunks_pts(b.last().chunks, m) =~= buffered(gs, d, m));
        }
    }
}
pub proof fn lemma_group_declared<'a>(g: Group, d: Seq<char>, gs: Groups<'a>, s: Schema<'a>)
    requires group_of(g, d, gs), gs.dom().contains(d), groups_ok(gs, s)
    ensures group_declared(g, s)
{
    hide(gw_ok);
    assert(serves(gs[d], d, s.measurement_groups@[d]));
    assert forall|i: int| 0 <= i < g.chunks.len() implies chunk_declared(#[trigger] g.chunks[i], g.device, s) by {
        let c = g.chunks[i];
        assert(as_declared(c, gv(gs[d])));
        assert(gs[d].chunk_writers@.dom().contains(c.name));
        assert(like_schema(gs[d].chunk_writers@[c.name], s.measurement_groups@[d].measurement_schemas@[c.name]));
    }
}
/// the last timestamps of these devices are remembered
pub open spec fn times_kept<'a>(n: LastTimes<'a>, ks: Seq<Seq<char>>, gs: Groups<'a>) -> bool {
    forall|d: Seq<char>| #[trigger] ks.contains(d) ==> n.dom().contains(d) && n[d]@ == gs[d].last_time_map@
}
/// nothing is lost when the points go into the file
pub proof fn lemma_all_flushed<'a>(a: Seq<Group>, b: Seq<Group>, ks: Seq<Seq<char>>, gs: Groups<'a>, s: Schema<'a>, n: LastTimes<'a>, fs: Groups<'a>)
    requires
        added(a, b, ks, gs), lists(ks, gs.dom()), groups_ok(gs, s), in_step(gs, a), names_ok(s),
        fresh_groups(fs, s, n),
        forall|d: Seq<char>| #[trigger] gs.dom().contains(d) ==> n.dom().contains(d) && n[d]@ == gs[d].last_time_map@,
        forall|i: int| 0 <= i < a.len() ==> group_declared(#[trigger] a[i], s),
    ensures
        groups_ok(fs, s), in_step(fs, b), nothing_buffered(fs),
        forall|i: int| 0 <= i < b.len() ==> group_declared(#[trigger] b[i], s),
        forall|d: Seq<char>, m: Seq<char>| #[trigger] file_pts(b, d, m) =~= file_pts(a, d, m) + buffered(gs, d, m),
        forall|r: int| #[trigger] room(gs, r) ==> room(fs, r),
{
    hide(gw_weight);
    assert forall|d: Seq<char>, m: Seq<char>| #[trigger] file_pts(b, d, m) =~= file_pts(a, d, m) + buffered(gs, d, m) by {
        assert(ks.contains(d) <==> gs.dom().contains(d));
        lemma_file_pts(a, b, ks, gs, d, m);
    }
    assert(gs.dom() =~= fs.dom());
    assert forall|d: Seq<char>| #[trigger] fs.dom().contains(d) implies serves(fs[d], d, s.measurement_groups@[d]) by {
        assert(gs.dom().contains(d));
        assert(serves(gs[d], d, s.measurement_groups@[d]));
        assert(fresh_group(fs[d], d, s.measurement_groups@[d], last_of(n, d)));
        lemma_fresh_ok(fs[d], d, s.measurement_groups@[d], last_of(n, d), gs[d]);
    }
    assert forall|d: Seq<char>, m: Seq<char>| #[trigger] buffered(fs, d, m) =~= Seq::empty() by {
        if fs.dom().contains(d) && gv(fs[d]).dom().contains(m) {
            assert(fresh_group(fs[d], d, s.measurement_groups@[d], last_of(n, d)));
            assert(fresh_writer(fs[d].chunk_writers@[m], m, s.measurement_groups@[d].measurement_schemas@[m]));
        }
    }
    assert(in_step(fs, b)) by {
        assert forall|d: Seq<char>, m: Seq<char>| #![trigger file_pts(b, d, m)] fs.dom().contains(d) && fs[d].chunk_writers@.dom().contains(m) implies
            rising(file_pts(b, d, m) + buffered(fs, d, m)) && ends(file_pts(b, d, m) + buffered(fs, d, m), gw_last(fs[d], m)) by {
            assert(fresh_group(fs[d], d, s.measurement_groups@[d], last_of(n, d)));
            assert(gs.dom().contains(d));
            assert(serves(gs[d], d, s.measurement_groups@[d]));
            assert(buffered(fs, d, m) =~= Seq::empty());
            let p = file_pts(a, d, m) + buffered(gs, d, m);
            assert(file_pts(b, d, m) =~= p);
            assert(file_pts(b, d, m) + buffered(fs, d, m) =~= p);
            assert(gw_last(fs[d], m) == gw_last(gs[d], m));
        }
    }
    assert forall|i: int| 0 <= i < b.len() implies group_declared(#[trigger] b[i], s) by {
        if i < a.len() { assert(b[i] == a[i]); } else {
            let j = i - a.len();
            assert(group_of(b[a.len() + j], ks[j], gs));
            assert(ks.contains(ks[j]));
            lemma_group_declared(b[i], ks[j], gs, s);
        }
    }
    lemma_fresh_room(gs, s, n, fs);
}
pub proof fn lemma_fresh_ok<'a>(g: GroupWriter<'a>, d: Seq<char>, s: MeasurementGroup<'a>, last: Map<Seq<char>, i64>, o: GroupWriter<'a>)
    requires fresh_group(g, d, s, last), serves(o, d, s), last == o.last_time_map@, str_ok(d)
    ensures serves(g, d, s)
{
    hide(cw_ok);
    assert forall|m: Seq<char>| #[trigger] g.chunk_writers@.dom().contains(m) implies writer_ok(g.chunk_writers@[m], m) && follows(cw_pts(g.chunk_writers@[m]), gw_last(g, m))
        && like_schema(g.chunk_writers@[m], s.measurement_schemas@[m]) by {
        assert(fresh_writer(g.chunk_writers@[m], m, s.measurement_schemas@[m]));
    }
    assert forall|m: Seq<char>| #[trigger] g.last_time_map@.dom().contains(m) implies g.last_time_map@[m] >= -1 && (!g.chunk_writers@.dom().contains(m) ==> g.last_time_map@[m] == -1) by {
        assert(o.last_time_map@.dom().contains(m));
    }
}
pub proof fn lemma_fresh_weight(w: ChunkWriter, o: ChunkWriter, m: Seq<char>, s: MeasurementSchema)
    requires fresh_writer(w, m, s), writer_ok(o, m)
    ensures weight(w) <= weight(o), cw_pts(w).len() == 0, cur_pts(w).len() == 0, w.page_buffer@.len() == 0
{
    lemma_pages_sum(w.data_type, w.pages@);
    lemma_data_len(w.compression_type, w.pages@);
    assert(cw_pts(w).len() == pages_pts(w.pages@).len() + cur_pts(w).len());
}
pub proof fn lemma_fresh_room<'a>(gs: Groups<'a>, s: Schema<'a>, n: LastTimes<'a>, fs: Groups<'a>)
    requires groups_ok(gs, s), fresh_groups(fs, s, n)
    ensures forall|r: int| #[trigger] room(gs, r) ==> room(fs, r)
{
    hide(weight); hide(cw_ok); hide(cw_pts);
    broadcast use axiom_order;
    assert(gs.dom() =~= fs.dom());
    let ks = tw_order(gs);
    assert(tw_order(fs) == ks);
    assert forall|d: Seq<char>| #[trigger] gs.dom().contains(d) implies gw_weight(fs[d]) <= gw_weight(gs[d]) && forall|r: int| #[trigger] gw_room(gs[d], r) ==> gw_room(fs[d], r) by {
        let ss = s.measurement_groups@[d];
        assert(serves(gs[d], d, ss));
        assert(fresh_group(fs[d], d, ss, last_of(n, d)));
        let ms = gw_order(gs[d]);
        assert(fs[d].chunk_writers@.dom() =~= gs[d].chunk_writers@.dom());
        assert(gw_order(fs[d]) == ms);
        assert forall|m: Seq<char>| #[trigger] gs[d].chunk_writers@.dom().contains(m) implies
            weight(fs[d].chunk_writers@[m]) <= weight(gs[d].chunk_writers@[m]) && cw_pts(fs[d].chunk_writers@[m]).len() == 0 && cur_pts(fs[d].chunk_writers@[m]).len() == 0 && fs[d].chunk_writers@[m].page_buffer@.len() == 0 by {
            assert(fs[d].chunk_writers@.dom().contains(m));
            assert(fresh_writer(fs[d].chunk_writers@[m], m, ss.measurement_schemas@[m]));
            lemma_fresh_weight(fs[d].chunk_writers@[m], gs[d].chunk_writers@[m], m, ss.measurement_schemas@[m]);
        }
        assert forall|i: int| 0 <= i < ms.len() implies weight(fs[d].chunk_writers@[#[trigger] ms[i]]) <= weight(gs[d].chunk_writers@[ms[i]]) by { assert(ms.contains(ms[i])); }
        lemma_weights(gs[d].chunk_writers@, fs[d].chunk_writers@, ms);
        assert forall|r: int| #[trigger] gw_room(gs[d], r) implies gw_room(fs[d], r) by {
            assert forall|m: Seq<char>| #[trigger] fs[d].chunk_writers@.dom().contains(m) implies writer_room(fs[d].chunk_writers@[m], r) by {
                assert(gs[d].chunk_writers@.dom().contains(m));
                assert(writer_room(gs[d].chunk_writers@[m], r));
            }
        }
    }
    assert forall|i: int| 0 <= i < ks.len() implies gw_weight(fs[#[trigger] ks[i]]) <= gw_weight(gs[ks[i]]) by { assert(ks.contains(ks[i])); }
    lemma_gweights_same(gs, fs, ks);
    assert forall|r: int| #[trigger] room(gs, r) implies room(fs, r) by {
        assert forall|d: Seq<char>| #[trigger] fs.dom().contains(d) implies gw_room(fs[d], r) by { assert(gs.dom().contains(d)); assert(gw_room(gs[d], r)); }
    }
}
pub proof fn lemma_io<'a, T: PositionedWrite>(a: TsFileIoWriter<'a, T>, b: TsFileIoWriter<'a, T>)
    requires io_ok(a)
    ensures
        WriteSpec::wf(&a.out),
        a.current_chunk_group_device_id is None ==> a.chunk_metadata_list@.len() == 0,
{}
pub proof fn lemma_serves<'a>(g: GroupWriter<'a>, d: Seq<char>, s: MeasurementGroup<'a>)
    requires serves(g, d, s)
    ensures gw_ok(g), g.path@ == d
{}
/// nothing but the accounting changes
pub open spec fn tw_like<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>) -> bool {
    a.schema == b.schema && a.config == b.config && io_like(a.file_io_writer, b.file_io_writer)
}
/// the points of all series are the same, and they are in the file
pub open spec fn flushed_all<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>) -> bool {
    &&& nothing_buffered(b.group_writers@)
    &&& forall|d: Seq<char>, m: Seq<char>| #![trigger series(b, d, m)] series(b, d, m) =~= series(a, d, m) && series(b, d, m) =~= file_pts(b.file_io_writer.groups@, d, m)
    &&& b.file_io_writer.groups@ == a.file_io_writer.groups@ || added(a.file_io_writer.groups@, b.file_io_writer.groups@, tw_order(a.group_writers@), a.group_writers@)
    &&& a.record_count == 0 ==> b.file_io_writer.groups@ == a.file_io_writer.groups@
    &&& b.record_count == 0
}
/// between two calls, as long as the sink has not failed
pub open spec fn tw_ok<'a, T: PositionedWrite>(w: TsFileWriter<'a, T>) -> bool {
    &&& io_ok(w.file_io_writer)
    &&& idle(w.file_io_writer)
    &&& names_ok(w.schema)
    &&& groups_ok(w.group_writers@, w.schema)
    &&& forall|i: int| 0 <= i < w.file_io_writer.groups@.len() ==> group_declared(#[trigger] w.file_io_writer.groups@[i], w.schema)
    &&& in_step(w.group_writers@, w.file_io_writer.groups@)
    &&& w.record_count == 0 ==> nothing_buffered(w.group_writers@)
}
pub open spec fn groups_ok<'a>(gs: Groups<'a>, s: Schema<'a>) -> bool {
    &&& gs.dom() =~= s.measurement_groups@.dom()
    &&& forall|d: Seq<char>| #[trigger] gs.dom().contains(d) ==> serves(gs[d], d, s.measurement_groups@[d])
}
pub open spec fn nothing_buffered<'a>(gs: Groups<'a>) -> bool {
    forall|d: Seq<char>, m: Seq<char>| #[trigger] buffered(gs, d, m) =~= Seq::empty()
}
/// sum of the bounds on the memory
pub open spec fn gweights<'a>(s: Groups<'a>, ks: Seq<Seq<char>>) -> int decreases ks.len() {
    if ks.len() == 0 { 0 } else { gweights(s, ks.drop_last()) + gw_weight(s[ks.last()]) }
}
pub open spec fn tw_order<'a>(s: Groups<'a>) -> Seq<Seq<char>> { order_of::<&'a str>(s.dom()) }
/// less than 4 GB are buffered, also after `n` more points
pub open spec fn room<'a>(gs: Groups<'a>, n: int) -> bool {
    &&& gweights(gs, tw_order(gs)) + 300 * n <= u32::MAX
    &&& forall|d: Seq<char>| #[trigger] gs.dom().contains(d) ==> gw_room(gs[d], n)
}
pub open spec fn tw_room<'a, T: PositionedWrite>(w: TsFileWriter<'a, T>, n: int) -> bool {
    room(w.group_writers@, n) && w.record_count + n <= u32::MAX
}
/// the same points
pub open spec fn same_views<'a>(a: Groups<'a>, b: Groups<'a>) -> bool {
    &&& a.dom() =~= b.dom()
    &&& forall|d: Seq<char>| #[trigger] a.dom().contains(d) ==> gv(a[d]) =~= gv(b[d]) && gw_weight(a[d]) == gw_weight(b[d]) && a[d].last_time_map == b[d].last_time_map
}
pub proof fn lemma_same_tw<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>)
    requires
        tw_ok(a), groups_ok(b.group_writers@, a.schema), same_views(b.group_writers@, a.group_writers@),
        b == (TsFileWriter { group_writers: b.group_writers, ..a }),
    ensures
        tw_ok(b), same_series(a, b),
{
    hide(gv); hide(serves); hide(gw_weight); hide(file_pts); hide(group_declared); hide(io_ok);
    let x = a.group_writers@;
    let y = b.group_writers@;
    assert forall|d: Seq<char>, m: Seq<char>| #[trigger] buffered(x, d, m) == buffered(y, d, m) by {
        if y.dom().contains(d) { assert(gv(y[d]) == gv(x[d])); }
    }
    assert forall|d: Seq<char>, m: Seq<char>| #[trigger] buffered(y, d, m) == buffered(x, d, m) by { assert(buffered(x, d, m) == buffered(y, d, m)); }
    let f = a.file_io_writer.groups@;
    assert forall|d: Seq<char>, m: Seq<char>| #![trigger file_pts(f, d, m)] y.dom().contains(d) && y[d].chunk_writers@.dom().contains(m) implies
        rising(file_pts(f, d, m) + buffered(y, d, m)) && ends(file_pts(f, d, m) + buffered(y, d, m), gw_last(y[d], m)) by {
        assert(x.dom().contains(d));
        assert(gv(y[d]) == gv(x[d]));
        lemma_gv_dom(x[d]); lemma_gv_dom(y[d]);
        assert(buffered(x, d, m) == buffered(y, d, m));
        assert(gw_last(y[d], m) == gw_last(x[d], m));
    }
    if b.record_count == 0 {
        assert forall|d: Seq<char>, m: Seq<char>| #[trigger] buffered(y, d, m) =~= Seq::empty() by { assert(buffered(x, d, m) =~= Seq::empty()); }
    }
    assert forall|d: Seq<char>, m: Seq<char>| #[trigger] all_pts(b.group_writers@, b.file_io_writer.groups@, d, m) == all_pts(a.group_writers@, a.file_io_writer.groups@, d, m) by { assert(buffered(x, d, m) == buffered(y, d, m)); }
}
pub proof fn lemma_gv_dom<'a>(g: GroupWriter<'a>)
    ensures gv(g).dom() =~= g.chunk_writers@.dom()
{}
/// the same points are in the same series
pub open spec fn same_series<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>) -> bool {
    forall|d: Seq<char>, m: Seq<char>| #[trigger] all_pts(b.group_writers@, b.file_io_writer.groups@, d, m) == all_pts(a.group_writers@, a.file_io_writer.groups@, d, m)
}
/// timestamp of the last point, -1 if there is none
pub open spec fn last_ts(p: Seq<Pt>) -> int { if p.len() == 0 { -1 } else { p.last().0 as int } }
/// a point that has to be accepted
pub open spec fn may_write<'a, T: PositionedWrite>(w: TsFileWriter<'a, T>, d: Seq<char>, m: Seq<char>, x: Pt) -> bool {
    &&& declared(w.schema, d, m)
    &&& x.0 > last_ts(series(w, d, m))
    &&& val_type(x.1) == Some(decl(w.schema, d, m).data_type)
    &&& kind_of(decl(w.schema, d, m).data_type, decl(w.schema, d, m).encoding) is Some
}
/// the error that a point is refused with
pub open spec fn refused<'a, T: PositionedWrite>(w: TsFileWriter<'a, T>, d: Seq<char>, m: Seq<char>, x: Pt, e: TsFileError) -> bool {
    if !w.schema.measurement_groups@.dom().contains(d) { e is IllegalState }
    else if x.0 <= (if declared(w.schema, d, m) { last_ts(series(w, d, m)) } else { -1 }) { e is OutOfOrderData }
    else if !declared(w.schema, d, m) { e is IllegalState }
    else if val_type(x.1) != Some(decl(w.schema, d, m).data_type) { e is WrongTypeForSeries }
    else { e is Encoding }
}
/// no trace: what decides the outcome of later calls and the contents of the file is the same
pub open spec fn no_trace<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>) -> bool {
    &&& b == (TsFileWriter { group_writers: b.group_writers, ..a })
    &&& b.group_writers@.dom() =~= a.group_writers@.dom()
    &&& forall|d: Seq<char>| #[trigger] a.group_writers@.dom().contains(d) ==> same_group(a.group_writers@[d], b.group_writers@[d])
}
/// one point more in one series
pub open spec fn pushed<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>, d: Seq<char>, m: Seq<char>, x: Pt) -> bool {
    forall|e: Seq<char>, n: Seq<char>| #[trigger] all_pts(b.group_writers@, b.file_io_writer.groups@, e, n)
        =~= (if e == d && n == m { all_pts(a.group_writers@, a.file_io_writer.groups@, e, n).push(x) } else { all_pts(a.group_writers@, a.file_io_writer.groups@, e, n) })
}
/// the buffered points continue the ones in the file
pub open spec fn continues(f: Seq<Group>, d: Seq<char>, v: Device) -> bool {
    forall|m: Seq<char>| #[trigger] v.dom().contains(m) ==> rising(file_pts(f, d, m) + v[m].pts) && ends(file_pts(f, d, m) + v[m].pts, v[m].last)
}
pub proof fn lemma_continues_push(f: Seq<Group>, d: Seq<char>, v: Device, m: Seq<char>, x: Pt)
    requires continues(f, d, v), takes(v, m, x)
    ensures continues(f, d, adds(v, m, x))
{
    let p = file_pts(f, d, m) + v[m].pts;
    lemma_push_rising(p, v[m].last, x);
    assert forall|n: Seq<char>| #[trigger] adds(v, m, x).dom().contains(n) implies
        rising(file_pts(f, d, n) + adds(v, m, x)[n].pts) && ends(file_pts(f, d, n) + adds(v, m, x)[n].pts, adds(v, m, x)[n].last) by {
        if n == m { assert(file_pts(f, d, m) + v[m].pts.push(x) =~= p.push(x)); }
        else { assert(v.dom().contains(n)); }
    }
}
/// a group writer is replaced
pub proof fn lemma_regroup<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>, d: Seq<char>)
    requires
        tw_ok(a), a.group_writers@.dom().contains(d),
        b == (TsFileWriter { group_writers: b.group_writers, record_count: b.record_count, ..a }),
        b.group_writers@ == a.group_writers@.insert(d, b.group_writers@[d]),
        gw_ok(b.group_writers@[d]),
        gw_like(b.group_writers@[d], a.group_writers@[d]),
        continues(a.file_io_writer.groups@, d, gv(b.group_writers@[d])),
        b.record_count == 0 ==> a.record_count == 0 && gv(b.group_writers@[d]) =~= gv(a.group_writers@[d]),
    ensures
        tw_ok(b),
        forall|e: Seq<char>, n: Seq<char>| e != d ==> #[trigger] all_pts(b.group_writers@, b.file_io_writer.groups@, e, n) == all_pts(a.group_writers@, a.file_io_writer.groups@, e, n),
{
    hide(gw_ok); hide(io_ok); hide(group_declared); hide(file_pts);
    let x = a.group_writers@;
    let y = b.group_writers@;
    let f = a.file_io_writer.groups@;
    assert(y.dom() =~= x.dom());
    assert forall|e: Seq<char>| #[trigger] y.dom().contains(e) implies serves(y[e], e, a.schema.measurement_groups@[e]) by {
        assert(serves(x[e], e, a.schema.measurement_groups@[e]));
        if e == d {
            assert forall|m: Seq<char>| #[trigger] y[d].chunk_writers@.dom().contains(m) implies like_schema(y[d].chunk_writers@[m], a.schema.measurement_groups@[d].measurement_schemas@[m]) by {
                assert(like_schema(x[d].chunk_writers@[m], a.schema.measurement_groups@[d].measurement_schemas@[m]));
            }
        }
    }
    assert forall|e: Seq<char>, m: Seq<char>| #![trigger file_pts(f, e, m)] y.dom().contains(e) && y[e].chunk_writers@.dom().contains(m) implies
        rising(file_pts(f, e, m) + buffered(y, e, m)) && ends(file_pts(f, e, m) + buffered(y, e, m), gw_last(y[e], m)) by {
        if e == d { assert(gv(y[d]).dom().contains(m)); } else { assert(buffered(y, e, m) == buffered(x, e, m)); }
    }
    if b.record_count == 0 {
        assert forall|e: Seq<char>, m: Seq<char>| #[trigger] buffered(y, e, m) =~= Seq::empty() by { assert(buffered(x, e, m) =~= Seq::empty()); assert(buffered(x, e, m) == buffered(y, e, m)); }
    }
}
pub proof fn lemma_continues<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, d: Seq<char>)
    requires tw_ok(a), a.group_writers@.dom().contains(d)
    ensures
        continues(a.file_io_writer.groups@, d, gv(a.group_writers@[d])),
        serves(a.group_writers@[d], d, a.schema.measurement_groups@[d]),
        gw_ok(a.group_writers@[d]),
        a.group_writers@.dom() == a.schema.measurement_groups@.dom(),
        forall|m: Seq<char>, x: Pt| #[trigger] takes(gv(a.group_writers@[d]), m, x) == may_write(a, d, m, x),
        forall|m: Seq<char>, x: Pt, e: TsFileError| #[trigger] refusal(gv(a.group_writers@[d]), m, x, e) == refused(a, d, m, x, e),
{
    hide(gw_ok); hide(io_ok); hide(group_declared); hide(file_pts);
    let f = a.file_io_writer.groups@;
    let g = a.group_writers@[d];
    assert(serves(g, d, a.schema.measurement_groups@[d])) by { assert(groups_ok(a.group_writers@, a.schema)); }
    reveal(gw_ok);
    assert forall|m: Seq<char>| #[trigger] gv(g).dom().contains(m) implies rising(file_pts(f, d, m) + gv(g)[m].pts) && ends(file_pts(f, d, m) + gv(g)[m].pts, gv(g)[m].last) by {
        assert(g.chunk_writers@.dom().contains(m));
        assert(buffered(a.group_writers@, d, m) == gv(g)[m].pts);
    }
    assert forall|m: Seq<char>| #[trigger] gv(g).dom().contains(m) implies declared(a.schema, d, m) && gv(g)[m].last == last_ts(series(a, d, m))
        && gv(g)[m].data_type == decl(a.schema, d, m).data_type && gv(g)[m].encoding == decl(a.schema, d, m).encoding by {
        assert(g.chunk_writers@.dom().contains(m));
        assert(like_schema(g.chunk_writers@[m], a.schema.measurement_groups@[d].measurement_schemas@[m]));
        assert(file_pts(f, d, m) + buffered(a.group_writers@, d, m) == series(a, d, m));
    }
    assert forall|m: Seq<char>| declared(a.schema, d, m) implies #[trigger] gv(g).dom().contains(m) by { assert(g.chunk_writers@.dom().contains(m)); }
}
/// one of the groups gains at most `n` points
pub proof fn lemma_gweights_one<'a>(a: Groups<'a>, b: Groups<'a>, ks: Seq<Seq<char>>, k: Seq<char>, d: int)
    requires
        ks.no_duplicates(), d >= 0,
        forall|i: int| 0 <= i < ks.len() && ks[i] != k ==> gw_weight(b[#[trigger] ks[i]]) <= gw_weight(a[ks[i]]),
        gw_weight(b[k]) <= gw_weight(a[k]) + d,
    ensures gweights(b, ks) <= gweights(a, ks) + d
    decreases ks.len()
{
    if ks.len() > 0 {
        let r = ks.drop_last();
        assert forall|i: int| 0 <= i < r.len() && r[i] != k implies gw_weight(b[#[trigger] r[i]]) <= gw_weight(a[r[i]]) by { assert(r[i] == ks[i]); }
        assert(ks.last() == ks[ks.len() - 1]);
        if ks.last() == k {
            assert forall|i: int| 0 <= i < r.len() implies gw_weight(b[#[trigger] r[i]]) <= gw_weight(a[r[i]]) by { assert(r[i] == ks[i]); assert(ks[i] != k); }
            lemma_gweights_same(a, b, r);
        } else {
            lemma_gweights_one(a, b, r, k, d);
        }
    }
}
pub proof fn lemma_room_one<'a>(a: Groups<'a>, b: Groups<'a>, d: Seq<char>, n: int, k: int)
    requires
        a.dom().contains(d), b == a.insert(d, b[d]), room(a, n), 0 <= k <= n, gw_room(b[d], n - k),
        gw_weight(b[d]) <= gw_weight(a[d]) + 300 * k,
    ensures room(b, n - k)
{
    hide(gw_weight);
    broadcast use axiom_order;
    assert(b.dom() =~= a.dom());
    let ks = tw_order(a);
    lemma_gweights_one(a, b, ks, d, 300 * k);
    assert forall|e: Seq<char>| #[trigger] b.dom().contains(e) implies gw_room(b[e], n - k) by {
        if e != d { lemma_less_room(a[e], n, n - k); }
    }
}
/// a point has been written
pub proof fn lemma_wrote<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>, d: Seq<char>, m: Seq<char>, x: Pt)
    requires
        tw_ok(a), a.group_writers@.dom().contains(d),
        b == (TsFileWriter { group_writers: b.group_writers, record_count: b.record_count, ..a }),
        b.record_count == a.record_count + 1,
        b.group_writers@ == a.group_writers@.insert(d, b.group_writers@[d]),
        gw_ok(b.group_writers@[d]),
        gw_like(b.group_writers@[d], a.group_writers@[d]),
        takes(gv(a.group_writers@[d]), m, x),
        gv(b.group_writers@[d]) =~= adds(gv(a.group_writers@[d]), m, x),
        gw_weight(b.group_writers@[d]) <= gw_weight(a.group_writers@[d]) + 300,
        forall|n: int| n >= 1 && #[trigger] gw_room(a.group_writers@[d], n) ==> gw_room(b.group_writers@[d], n - 1),
    ensures
        tw_ok(b), pushed(a, b, d, m, x),
        forall|n: int| n >= 1 && #[trigger] tw_room(a, n) ==> tw_room(b, n - 1),
{
    hide(gw_ok); hide(io_ok); hide(group_declared); hide(file_pts); hide(gw_room); hide(gw_weight); hide(takes); hide(gv); hide(adds);
    let f = a.file_io_writer.groups@;
    lemma_continues(a, d);
    lemma_continues_push(f, d, gv(a.group_writers@[d]), m, x);
    lemma_regroup(a, b, d);
    reveal(adds); reveal(takes);
    let v = gv(a.group_writers@[d]);
    assert forall|e: Seq<char>, n: Seq<char>| #[trigger] all_pts(b.group_writers@, b.file_io_writer.groups@, e, n)
        =~= (if e == d && n == m { all_pts(a.group_writers@, a.file_io_writer.groups@, e, n).push(x) } else { all_pts(a.group_writers@, a.file_io_writer.groups@, e, n) }) by {
        if e == d && n == m { assert(file_pts(f, d, m) + v[m].pts.push(x) =~= (file_pts(f, d, m) + v[m].pts).push(x)); }
    }
    assert forall|n: int| n >= 1 && #[trigger] tw_room(a, n) implies tw_room(b, n - 1) by {
        assert(gw_room(a.group_writers@[d], n));
        lemma_room_one(a.group_writers@, b.group_writers@, d, n, 1);
    }
}
/// a refused point changes nothing that matters
pub proof fn lemma_refused<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, d: Seq<char>)
    requires tw_ok(a), a.group_writers@.dom().contains(d)
    ensures
        forall|b: TsFileWriter<'a, T>| #![trigger tw_ok(b)] #![trigger no_trace(a, b)]
            b == (TsFileWriter { group_writers: b.group_writers, ..a }) && b.group_writers@ == a.group_writers@.insert(d, b.group_writers@[d])
            && gw_ok(b.group_writers@[d]) && same_group(a.group_writers@[d], b.group_writers@[d]) ==> tw_ok(b) && no_trace(a, b),
{
    hide(gw_ok); hide(io_ok); hide(group_declared); hide(file_pts); hide(tw_ok);
    lemma_continues(a, d);
    assert forall|b: TsFileWriter<'a, T>| #![trigger tw_ok(b)] #![trigger no_trace(a, b)]
            b == (TsFileWriter { group_writers: b.group_writers, ..a }) && b.group_writers@ == a.group_writers@.insert(d, b.group_writers@[d])
            && gw_ok(b.group_writers@[d]) && same_group(a.group_writers@[d], b.group_writers@[d]) implies tw_ok(b) && no_trace(a, b) by {
        let x = a.group_writers@[d];
        let y = b.group_writers@[d];
        assert forall|m: Seq<char>| gw_last(y, m) == gw_last(x, m) by { assert(gw_last(x, m) == gw_last(x, m)); }
        assert(gv(y) =~= gv(x));
        lemma_regroup(a, b, d);
        assert forall|e: Seq<char>| #[trigger] a.group_writers@.dom().contains(e) implies same_group(a.group_writers@[e], b.group_writers@[e]) by {}
    }
}
/// the points of a series among the first `k` points of a row
pub open spec fn row_pts<'a>(s: Seq<DataPoint<'a>>, t: i64, k: int, m: Seq<char>) -> Seq<Pt> decreases k {
    if k <= 0 { Seq::empty() }
    else if s[k - 1].measurement_id@ == m { row_pts(s, t, k - 1, m).push((t, s[k - 1].value)) }
    else { row_pts(s, t, k - 1, m) }
}
/// the point `j` of a row has to be accepted, the ones before it have been
pub open spec fn row_point<'a, T: PositionedWrite>(w: TsFileWriter<'a, T>, d: Seq<char>, t: i64, s: Seq<DataPoint<'a>>, j: int) -> bool {
    let m = s[j].measurement_id@;
    &&& declared(w.schema, d, m)
    &&& t > last_ts(series(w, d, m) + row_pts(s, t, j, m))
    &&& val_type(s[j].value) == Some(decl(w.schema, d, m).data_type)
    &&& kind_of(decl(w.schema, d, m).data_type, decl(w.schema, d, m).encoding) is Some
}
pub open spec fn declared_device<'a, T: PositionedWrite>(w: TsFileWriter<'a, T>, d: Seq<char>) -> bool { w.schema.measurement_groups@.dom().contains(d) }
pub open spec fn row_takes<'a, T: PositionedWrite>(w: TsFileWriter<'a, T>, d: Seq<char>, t: i64, s: Seq<DataPoint<'a>>, k: int) -> bool {
    forall|j: int| 0 <= j < k ==> #[trigger] row_point(w, d, t, s, j)
}
/// the first `k` points of a row have been added
pub open spec fn row_pushed<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>, d: Seq<char>, t: i64, s: Seq<DataPoint<'a>>, k: int) -> bool {
    forall|e: Seq<char>, n: Seq<char>| #[trigger] all_pts(b.group_writers@, b.file_io_writer.groups@, e, n)
        =~= (if e == d { all_pts(a.group_writers@, a.file_io_writer.groups@, e, n) + row_pts(s, t, k, n) } else { all_pts(a.group_writers@, a.file_io_writer.groups@, e, n) })
}
/// the error that the point `j` is refused with
pub open spec fn row_refused<'a, T: PositionedWrite>(w: TsFileWriter<'a, T>, d: Seq<char>, t: i64, s: Seq<DataPoint<'a>>, j: int, e: TsFileError) -> bool {
    let m = s[j].measurement_id@;
    if t <= (if declared(w.schema, d, m) { last_ts(series(w, d, m) + row_pts(s, t, j, m)) } else { -1 }) { e is OutOfOrderData }
    else if !declared(w.schema, d, m) { e is IllegalState }
    else if val_type(s[j].value) != Some(decl(w.schema, d, m).data_type) { e is WrongTypeForSeries }
    else { e is Encoding }
}
/// the points before the first refused one are in, the others are not
pub open spec fn row_stopped<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>, d: Seq<char>, t: i64, s: Seq<DataPoint<'a>>, e: TsFileError) -> bool {
    exists|k: int| 0 <= k < s.len() && #[trigger] row_pushed(a, b, d, t, s, k) && row_takes(a, d, t, s, k) && !row_point(a, d, t, s, k) && row_refused(a, d, t, s, k, e)
        && (k == 0 ==> no_trace(a, b))
}
pub proof fn lemma_after<'a>(f: Seq<Group>, d: Seq<char>, v: Device, t: i64, s: Seq<DataPoint<'a>>, k: int)
    requires continues(f, d, v), row_accepted(v, t, s, k), 0 <= k <= s.len()
    ensures
        continues(f, d, after(v, t, s, k)),
        after(v, t, s, k).dom() =~= v.dom(),
        forall|m: Seq<char>| #[trigger] v.dom().contains(m) ==> after(v, t, s, k)[m] == (Series { pts: after(v, t, s, k)[m].pts, last: after(v, t, s, k)[m].last, ..v[m] })
            && after(v, t, s, k)[m].pts =~= v[m].pts + row_pts(s, t, k, m),
        forall|m: Seq<char>| !#[trigger] v.dom().contains(m) ==> row_pts(s, t, k, m) =~= Seq::empty(),
    decreases k
{
    hide(continues);
    if k > 0 {
        lemma_after(f, d, v, t, s, k - 1);
        assert(takes(after(v, t, s, k - 1), s[k - 1].measurement_id@, (t, s[k - 1].value)));
        lemma_continues_push(f, d, after(v, t, s, k - 1), s[k - 1].measurement_id@, (t, s[k - 1].value));
    } else {
        assert(after(v, t, s, k) == v);
    }
}
/// what GroupWriter::write_many has done
pub open spec fn rowed<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>, d: Seq<char>, t: i64, s: Seq<DataPoint<'a>>) -> bool {
    let k = b.record_count - a.record_count;
    &&& b == (TsFileWriter { group_writers: b.group_writers, record_count: b.record_count, ..a })
    &&& b.group_writers@ == a.group_writers@.insert(d, b.group_writers@[d])
    &&& gw_ok(b.group_writers@[d])
    &&& gw_like(b.group_writers@[d], a.group_writers@[d])
    &&& 0 <= k <= s.len()
    &&& gv(b.group_writers@[d]) =~= after(gv(a.group_writers@[d]), t, s, k)
    &&& row_accepted(gv(a.group_writers@[d]), t, s, k)
    &&& gw_room(b.group_writers@[d], s.len() - k)
    &&& gw_weight(b.group_writers@[d]) <= gw_weight(a.group_writers@[d]) + 300 * k
}
pub proof fn lemma_row_point<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, d: Seq<char>, t: i64, s: Seq<DataPoint<'a>>, j: int)
    requires
        tw_ok(a), a.group_writers@.dom().contains(d), 0 <= j < s.len(), row_accepted(gv(a.group_writers@[d]), t, s, j),
    ensures
        row_point(a, d, t, s, j) == takes(after(gv(a.group_writers@[d]), t, s, j), s[j].measurement_id@, (t, s[j].value)),
        forall|e: TsFileError| #[trigger] row_refused(a, d, t, s, j, e) == refusal(after(gv(a.group_writers@[d]), t, s, j), s[j].measurement_id@, (t, s[j].value), e),
{
    hide(gw_ok); hide(io_ok); hide(group_declared); hide(file_pts); hide(serves);
    let f = a.file_io_writer.groups@;
    let g = a.group_writers@[d];
    let v = gv(g);
    let m = s[j].measurement_id@;
    lemma_continues(a, d);
    lemma_after(f, d, v, t, s, j);
    let z = after(v, t, s, j);
    if v.dom().contains(m) {
        assert(z.dom().contains(m));
        assert(g.chunk_writers@.dom().contains(m));
        reveal(serves);
        assert(like_schema(g.chunk_writers@[m], a.schema.measurement_groups@[d].measurement_schemas@[m]));
        assert(series(a, d, m) == file_pts(f, d, m) + v[m].pts);
        assert(file_pts(f, d, m) + z[m].pts =~= series(a, d, m) + row_pts(s, t, j, m));
        assert(z[m].last == last_ts(series(a, d, m) + row_pts(s, t, j, m)));
        assert(declared(a.schema, d, m));
    } else {
        reveal(serves);
        assert(!g.chunk_writers@.dom().contains(m));
        assert(!declared(a.schema, d, m));
    }
}
pub proof fn lemma_rowed<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>, d: Seq<char>, t: i64, s: Seq<DataPoint<'a>>)
    requires tw_ok(a), a.group_writers@.dom().contains(d), rowed(a, b, d, t, s), tw_room(a, s.len() as int)
    ensures
        tw_ok(b),
        row_pushed(a, b, d, t, s, b.record_count - a.record_count),
        row_takes(a, d, t, s, b.record_count - a.record_count),
        tw_room(b, s.len() - (b.record_count - a.record_count)),
        b.record_count - a.record_count < s.len() ==> row_point(a, d, t, s, b.record_count - a.record_count) == takes(gv(b.group_writers@[d]), s[b.record_count - a.record_count].measurement_id@, (t, s[b.record_count - a.record_count].value)),
        b.record_count - a.record_count < s.len() ==> forall|e: TsFileError| #[trigger] row_refused(a, d, t, s, b.record_count - a.record_count, e) == refusal(gv(b.group_writers@[d]), s[b.record_count - a.record_count].measurement_id@, (t, s[b.record_count - a.record_count].value), e),
{
    hide(gw_ok); hide(io_ok); hide(group_declared); hide(file_pts); hide(gw_room); hide(gw_weight); hide(takes); hide(refusal); hide(row_point); hide(row_refused); hide(serves); hide(row_pushed); hide(gv); hide(continues); hide(row_takes);
    let k = b.record_count - a.record_count;
    let f = a.file_io_writer.groups@;
    let v = gv(a.group_writers@[d]);
    lemma_continues(a, d);
    lemma_after(f, d, v, t, s, k);
    lemma_regroup(a, b, d);
    lemma_row_points(a, d, t, s, k);
    lemma_room_one(a.group_writers@, b.group_writers@, d, s.len() as int, k);
    lemma_row_pushed(a, b, d, t, s, k);
}
pub proof fn lemma_row_points<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, d: Seq<char>, t: i64, s: Seq<DataPoint<'a>>, k: int)
    requires tw_ok(a), a.group_writers@.dom().contains(d), 0 <= k <= s.len(), row_accepted(gv(a.group_writers@[d]), t, s, k)
    ensures
        row_takes(a, d, t, s, k),
        k < s.len() ==> row_point(a, d, t, s, k) == takes(after(gv(a.group_writers@[d]), t, s, k), s[k].measurement_id@, (t, s[k].value)),
        k < s.len() ==> forall|e: TsFileError| #[trigger] row_refused(a, d, t, s, k, e) == refusal(after(gv(a.group_writers@[d]), t, s, k), s[k].measurement_id@, (t, s[k].value), e),
{
    hide(tw_ok); hide(takes); hide(refusal); hide(row_point); hide(row_refused); hide(gv); hide(after);
    assert forall|j: int| 0 <= j < k implies #[trigger] row_point(a, d, t, s, j) by {
        lemma_row_point(a, d, t, s, j);
        assert(takes(after(gv(a.group_writers@[d]), t, s, j), s[j].measurement_id@, (t, s[j].value)));
    }
    if k < s.len() { lemma_row_point(a, d, t, s, k); }
}
pub proof fn lemma_row_pushed<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>, d: Seq<char>, t: i64, s: Seq<DataPoint<'a>>, k: int)
    requires
        a.group_writers@.dom().contains(d), b.group_writers@ == a.group_writers@.insert(d, b.group_writers@[d]), b.file_io_writer == a.file_io_writer,
        gv(b.group_writers@[d]) =~= after(gv(a.group_writers@[d]), t, s, k), row_accepted(gv(a.group_writers@[d]), t, s, k), 0 <= k <= s.len(),
        continues(a.file_io_writer.groups@, d, gv(a.group_writers@[d])),
    ensures row_pushed(a, b, d, t, s, k)
{
    hide(gv); hide(file_pts); hide(continues); hide(after); hide(row_accepted);
    let f = a.file_io_writer.groups@;
    let v = gv(a.group_writers@[d]);
    lemma_after(f, d, v, t, s, k);
    assert forall|e: Seq<char>, n: Seq<char>| #[trigger] all_pts(b.group_writers@, b.file_io_writer.groups@, e, n)
        =~= (if e == d { all_pts(a.group_writers@, a.file_io_writer.groups@, e, n) + row_pts(s, t, k, n) } else { all_pts(a.group_writers@, a.file_io_writer.groups@, e, n) }) by {
        if e == d {
            if v.dom().contains(n) { assert(file_pts(f, d, n) + (v[n].pts + row_pts(s, t, k, n)) =~= (file_pts(f, d, n) + v[n].pts) + row_pts(s, t, k, n)); }
        }
    }
}
/// GroupWriter::write_many has refused a point
pub open spec fn halted<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>, d: Seq<char>, t: i64, s: Seq<DataPoint<'a>>, e: TsFileError) -> bool {
    let k = b.record_count - a.record_count;
    let x = s[k].measurement_id@;
    &&& rowed(a, b, d, t, s)
    &&& k < s.len()
    &&& !takes(gv(b.group_writers@[d]), x, (t, s[k].value))
    &&& refusal(gv(b.group_writers@[d]), x, (t, s[k].value), e)
    &&& k == 0 ==> same_group(a.group_writers@[d], b.group_writers@[d])
}
pub open spec fn row_failed<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>, d: Seq<char>, t: i64, s: Seq<DataPoint<'a>>, e: TsFileError) -> bool {
    if row_takes(a, d, t, s, s.len() as int) { WriteSpec::failed(&b.file_io_writer.out) }
    else { tw_ok(b) && row_stopped(a, b, d, t, s, e) }
}
pub proof fn lemma_halted<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>, d: Seq<char>, t: i64, s: Seq<DataPoint<'a>>, e: TsFileError)
    requires tw_ok(a), a.group_writers@.dom().contains(d), tw_room(a, s.len() as int), halted(a, b, d, t, s, e)
    ensures row_failed(a, b, d, t, s, e)
{
    hide(tw_ok); hide(row_pushed); hide(row_point); hide(gv); hide(takes); hide(refusal); hide(row_refused); hide(tw_room); hide(no_trace);
    lemma_rowed(a, b, d, t, s);
    let k = b.record_count - a.record_count;
    assert(row_refused(a, d, t, s, k, e));
    assert(!row_point(a, d, t, s, k));
    if k == 0 { lemma_refused(a, d); assert(no_trace(a, b)); }
}
/// for all outcomes of GroupWriter::write_many
pub proof fn lemma_rows<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, d: Seq<char>, t: i64, s: Seq<DataPoint<'a>>)
    requires tw_ok(a), a.group_writers@.dom().contains(d), tw_room(a, s.len() as int)
    ensures
        forall|b: TsFileWriter<'a, T>, e: TsFileError| halted(a, b, d, t, s, e) ==> #[trigger] row_failed(a, b, d, t, s, e),
{
    hide(tw_ok); hide(halted); hide(row_failed); hide(tw_room);
    assert forall|b: TsFileWriter<'a, T>, e: TsFileError| halted(a, b, d, t, s, e) implies #[trigger] row_failed(a, b, d, t, s, e) by { lemma_halted(a, b, d, t, s, e); }
}
/// a new writer
pub proof fn lemma_new<'a, T: PositionedWrite>(w: TsFileWriter<'a, T>)
    requires
        io_ok(w.file_io_writer), w.file_io_writer.groups@ == Seq::<Group>::empty(), idle(w.file_io_writer), names_ok(w.schema),
        fresh_groups(w.group_writers@, w.schema, Map::empty()),
    ensures tw_ok(w), forall|d: Seq<char>, m: Seq<char>| #[trigger] series(w, d, m) =~= Seq::empty()
{
    hide(io_ok); hide(cw_ok);
    let gs = w.group_writers@;
    let f = w.file_io_writer.groups@;
    assert forall|d: Seq<char>| #[trigger] gs.dom().contains(d) implies serves(gs[d], d, w.schema.measurement_groups@[d]) by {
        assert(fresh_group(gs[d], d, w.schema.measurement_groups@[d], Map::empty()));
        assert forall|m: Seq<char>| #[trigger] gs[d].chunk_writers@.dom().contains(m) implies writer_ok(gs[d].chunk_writers@[m], m) && follows(cw_pts(gs[d].chunk_writers@[m]), gw_last(gs[d], m))
            && like_schema(gs[d].chunk_writers@[m], w.schema.measurement_groups@[d].measurement_schemas@[m]) by {
            assert(fresh_writer(gs[d].chunk_writers@[m], m, w.schema.measurement_groups@[d].measurement_schemas@[m]));
        }
    }
    assert forall|d: Seq<char>, m: Seq<char>| #[trigger] buffered(gs, d, m) =~= Seq::empty() by {
        if gs.dom().contains(d) && gv(gs[d]).dom().contains(m) {
            assert(fresh_group(gs[d], d, w.schema.measurement_groups@[d], Map::empty()));
            assert(fresh_writer(gs[d].chunk_writers@[m], m, w.schema.measurement_groups@[d].measurement_schemas@[m]));
        }
    }
    assert forall|d: Seq<char>, m: Seq<char>| #[trigger] file_pts(f, d, m) =~= Seq::empty() by {}
    assert forall|d: Seq<char>, m: Seq<char>| #![trigger file_pts(f, d, m)] gs.dom().contains(d) && gs[d].chunk_writers@.dom().contains(m) implies
        rising(file_pts(f, d, m) + buffered(gs, d, m)) && ends(file_pts(f, d, m) + buffered(gs, d, m), gw_last(gs[d], m)) by {
        assert(fresh_group(gs[d], d, w.schema.measurement_groups@[d], Map::empty()));
        assert(file_pts(f, d, m) + buffered(gs, d, m) =~= Seq::empty());
    }
    assert forall|d: Seq<char>, m: Seq<char>| #[trigger] series(w, d, m) =~= Seq::empty() by { assert(buffered(gs, d, m) =~= Seq::empty()); }
}
pub proof fn lemma_tw_kept<'a, T: PositionedWrite>(a: TsFileWriter<'a, T>, b: TsFileWriter<'a, T>)
    requires
        forall|n: int| #[trigger] room(a.group_writers@, n) ==> room(b.group_writers@, n),
        b.record_count <= a.record_count,
    ensures forall|n: int| #[trigger] tw_room(a, n) ==> tw_room(b, n)
{}
pub proof fn lemma_gweights_same<'a>(a: Groups<'a>, b: Groups<'a>, ks: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < ks.len() ==> gw_weight(b[#[trigger] ks[i]]) <= gw_weight(a[ks[i]])
    ensures gweights(b, ks) <= gweights(a, ks)
    decreases ks.len()
{
    if ks.len() > 0 {
        let r = ks.drop_last();
        assert forall|i: int| 0 <= i < r.len() implies gw_weight(b[#[trigger] r[i]]) <= gw_weight(a[r[i]]) by { assert(r[i] == ks[i]); }
        lemma_gweights_same(a, b, r);
        assert(ks.last() == ks[ks.len() - 1]);
    }
}
pub proof fn lemma_same_room<'a>(a: Groups<'a>, b: Groups<'a>)
    requires
        same_views(b, a),
        forall|n: int, d: Seq<char>| a.dom().contains(d) && #[trigger] gw_room(a[d], n) ==> gw_room(b[d], n),
    ensures forall|n: int| #[trigger] room(a, n) ==> room(b, n)
{
    hide(gw_weight); hide(gw_room); hide(gv);
    broadcast use axiom_order;
    let ks = tw_order(a);
    assert(tw_order(b) == ks);
    assert forall|i: int| 0 <= i < ks.len() implies gw_weight(b[#[trigger] ks[i]]) <= gw_weight(a[ks[i]]) by {
        assert(ks.contains(ks[i]));
        assert(b.dom().contains(ks[i]));
    }
    lemma_gweights_same(a, b, ks);
    assert forall|n: int| #[trigger] room(a, n) implies room(b, n) by {
        assert forall|d: Seq<char>| #[trigger] b.dom().contains(d) implies gw_room(b[d], n) by { assert(a.dom().contains(d)); assert(gw_room(a[d], n)); }
    }
}
pub proof fn lemma_gweights<'a>(s: Groups<'a>, ks: Seq<Seq<char>>, i: int)
    requires 0 <= i <= ks.len()
    ensures
        0 <= gweights(s, ks.take(i)) <= gweights(s, ks),
        i < ks.len() ==> gweights(s, ks.take(i + 1)) == gweights(s, ks.take(i)) + gw_weight(s[ks[i]]),
    decreases ks.len()
{
    if i < ks.len() { assert(ks.take(i + 1).drop_last() =~= ks.take(i)); }
    if ks.len() > 0 {
        lemma_weights_nonneg(s[ks.last()].chunk_writers@, gw_order(s[ks.last()]), 0);
        if i == ks.len() {
            assert(ks.take(i) =~= ks);
            lemma_gweights(s, ks.drop_last(), i - 1);
            assert(ks.drop_last().take(i - 1) =~= ks.drop_last());
        } else {
            lemma_gweights(s, ks.drop_last(), i);
            assert(ks.drop_last().take(i) =~= ks.take(i));
            lemma_gweights(s, ks.drop_last(), ks.len() - 1);
        }
    } else { assert(ks.take(i) =~= ks); }
}
}
@@fn writer::tsfile_writer::TsFileWriter<'a,T>::reset
        requires
            names_ok(old(self).schema),
        ensures
            *final(self) == (TsFileWriter { record_count: 0, group_writers: final(self).group_writers, ..*old(self) }),
            fresh_groups(final(self).group_writers@, old(self).schema, old(self).non_aligned_timeseries_last_time_map@),
@@elem 0 (&'a str, GroupWriter<'a>)
@@iter 0 it
@@loop 0
            invariant
                *self == (TsFileWriter { record_count: 0, ..*old(self) }),
                names_ok(self.schema),
                last_time_map == &self.non_aligned_timeseries_last_time_map,
                own_items(self.schema.measurement_groups@, it.seq()),
                verif_acc0@.len() == it.index@,
                forall|i: int| 0 <= i < it.index@ ==> (#[trigger] verif_acc0@[i]).0@ == it.seq()[i].0@
                    && fresh_group(verif_acc0@[i].1, it.seq()[i].0@, it.seq()[i].1, last_of(self.non_aligned_timeseries_last_time_map@, it.seq()[i].0@)),
@@elem 1 (&'a str, ChunkWriter)
@@iter 1 it2
@@loop 1
            invariant
                ref_items(v.measurement_schemas@, it2.seq()),
                forall|m: Seq<char>| #[trigger] v.measurement_schemas@.dom().contains(m) ==> str_ok(m),
                verif_acc1@.len() == it2.index@,
                forall|i: int| 0 <= i < it2.index@ ==> (#[trigger] verif_acc1@[i]).0@ == it2.seq()[i].0@
                    && fresh_writer(verif_acc1@[i].1, it2.seq()[i].0@, *it2.seq()[i].1),
@@after 0
        proof { lemma_fresh_groups(verif_acc0@, verif_src0@, self.schema, self.non_aligned_timeseries_last_time_map@); }
@@after 1
        proof { lemma_fresh_writers(verif_acc1@, verif_src1@, v.measurement_schemas@); }
@@fn writer::tsfile_writer::TsFileWriter<'a,T>::calculate_mem_size_for_all_groups
@@ret r
        requires
            groups_ok(old(self).group_writers@, old(self).schema),
            room(old(self).group_writers@, 0),
        ensures
            *final(self) == (TsFileWriter { group_writers: final(self).group_writers, ..*old(self) }),
            groups_ok(final(self).group_writers@, final(self).schema),
            same_views(final(self).group_writers@, old(self).group_writers@),
            forall|n: int| #[trigger] room(old(self).group_writers@, n) ==> room(final(self).group_writers@, n),
@@entry
        hide(gw_ok);
        hide(gw_room);
        hide(gw_weight);
        hide(gv);
        broadcast use axiom_order;
@@before 0
        let ghost ks = key_views(verif_keys0@);
        let ghost s = self.group_writers@;
@@loop 0
            invariant
                lists(ks, s.dom()),
                ks =~= key_views(verif_keys0@),
                ks == tw_order(s),
                s == old(self).group_writers@,
                groups_ok(s, self.schema),
                room(s, 0),
                *self == (TsFileWriter { group_writers: self.group_writers, ..*old(self) }),
                groups_ok(self.group_writers@, self.schema),
                same_views(self.group_writers@, s),
                forall|n: int, d: Seq<char>| s.dom().contains(d) && #[trigger] gw_room(s[d], n) ==> gw_room(self.group_writers@[d], n),
                0 <= mem_total_size <= gweights(s, ks.take(verif_i0 as int)),
                gweights(s, ks) <= u32::MAX,
@@in 0
            let ghost s0 = self.group_writers@;
            proof {
                lemma_take(ks, verif_i0 as int);
                assert(ks[verif_i0 as int] == verif_key0@);
                lemma_gweights(s, ks, verif_i0 as int);
                lemma_gweights(s, ks, verif_i0 as int + 1);
                assert(serves(s0[verif_key0@], verif_key0@, self.schema.measurement_groups@[verif_key0@]));
                assert(gw_room(s[verif_key0@], 0));
            }
@@after 0
        proof { lemma_same_room(s, self.group_writers@); }
@@fn writer::tsfile_writer::TsFileWriter<'a,T>::flush_all_chunk_groups
@@ret r
        requires
            tw_ok(*old(self)),
            room(old(self).group_writers@, 0),
        ensures
            tw_like(*old(self), *final(self)),
            r is Ok ==> r->Ok_0 && tw_ok(*final(self)) && WriteSpec::failed(&final(self).file_io_writer.out) == WriteSpec::failed(&old(self).file_io_writer.out),
            r is Ok ==> flushed_all(*old(self), *final(self)) && same_series(*old(self), *final(self)),
            r is Ok ==> forall|n: int| #[trigger] room(old(self).group_writers@, n) ==> room(final(self).group_writers@, n),
            r is Err ==> WriteSpec::failed(&final(self).file_io_writer.out),
@@entry
        hide(gw_ok);
        hide(gw_room);
        hide(gw_weight);
        hide(gv);
        hide(io_ok);
        hide(group_declared);
        hide(holds_group);
        hide(group_added);
        hide(file_pts);
        hide(serves);
        broadcast use axiom_order;
        proof { lemma_io(self.file_io_writer, self.file_io_writer); }
@@before 0
            let ghost ks = key_views(verif_keys0@);
            let ghost s = self.group_writers@;
            let ghost g = self.file_io_writer.groups@;
            proof { assert(ks.take(0) =~= Seq::empty()); assert(times_kept(self.non_aligned_timeseries_last_time_map@, ks.take(0), s)); }
@@loop 0
            invariant
                lists(ks, s.dom()),
                ks =~= key_views(verif_keys0@),
                ks == tw_order(s),
                s == old(self).group_writers@,
                g == old(self).file_io_writer.groups@,
                names_ok(self.schema),
                groups_ok(s, self.schema),
                room(s, 0),
                *self == (TsFileWriter { group_writers: self.group_writers, file_io_writer: self.file_io_writer, non_aligned_timeseries_last_time_map: self.non_aligned_timeseries_last_time_map, ..*old(self) }),
                self.group_writers@.dom() =~= s.dom(),
                forall|d: Seq<char>| #[trigger] s.dom().contains(d) && !ks.take(verif_i0 as int).contains(d) ==> self.group_writers@[d] == s[d],
                times_kept(self.non_aligned_timeseries_last_time_map@, ks.take(verif_i0 as int), s),
                io_ok(self.file_io_writer),
                idle(self.file_io_writer),
                io_like(old(self).file_io_writer, self.file_io_writer),
                WriteSpec::failed(&self.file_io_writer.out) == WriteSpec::failed(&old(self).file_io_writer.out),
                added(g, self.file_io_writer.groups@, ks.take(verif_i0 as int), s),
@@in 0
            let ghost io0 = self.file_io_writer;
            let ghost n1 = self.non_aligned_timeseries_last_time_map@;
            proof {
                lemma_take(ks, verif_i0 as int);
                assert(ks[verif_i0 as int] == verif_key0@);
                assert(serves(s[verif_key0@], verif_key0@, self.schema.measurement_groups@[verif_key0@]));
                lemma_serves(s[verif_key0@], verif_key0@, self.schema.measurement_groups@[verif_key0@]);
                assert(gw_room(s[verif_key0@], 0));
                assert(str_ok(verif_key0@));
            }
@@post 0 self.file_io_writer.start_chunk_group(device_id)?
            let ghost io1 = self.file_io_writer;
            proof { lemma_io(io0, io1); }
@@post 0 let data_size =
            let ghost io2 = self.file_io_writer;
            proof { lemma_io(io1, io2); }
@@post 0 self.non_aligned_timeseries_last_time_map.insert(
            proof {
                let n = self.non_aligned_timeseries_last_time_map@;
                assert(n == n0.insert(verif_key0@, n[verif_key0@]));
                assert(n[verif_key0@]@ == s[verif_key0@].last_time_map@);
            }
@@post 0 self.file_io_writer.end_chunk_group()?
            let ghost n0 = self.non_aligned_timeseries_last_time_map@;
            assert(group_writer.last_time_map == s[verif_key0@].last_time_map);
            assert(n0 == n1);
            proof {
                lemma_io(io2, self.file_io_writer);
                lemma_added_step(g, io0.groups@, self.file_io_writer.groups@, ks, verif_i0 as int, s);
            }
@@inend 0
            proof {
                let n = self.non_aligned_timeseries_last_time_map@;
                assert(times_kept(n, ks.take(verif_i0 as int + 1), s)) by {
                    assert forall|d: Seq<char>| #[trigger] ks.take(verif_i0 as int + 1).contains(d) implies n.dom().contains(d) && n[d]@ == s[d].last_time_map@ by {
                        assert(ks.take(verif_i0 as int).contains(d) || d == verif_key0@);
                        if d != verif_key0@ { assert(n0.dom().contains(d)); assert(n[d] == n0[d]); }
                    }
                }
            }
@@after 0
            proof { lemma_take_all(ks); }
            let ghost n = self.non_aligned_timeseries_last_time_map@;
@@post 0 self.reset()
            proof {
                assert forall|d: Seq<char>| #[trigger] s.dom().contains(d) implies n.dom().contains(d) && n[d]@ == s[d].last_time_map@ by { assert(ks.contains(d)); }
                lemma_all_flushed(g, self.file_io_writer.groups@, ks, s, self.schema, n, self.group_writers@);
            }
@@fn writer::tsfile_writer::TsFileWriter<'a,T>::check_memory_size_and_may_flush_chunks
@@ret r
        requires
            tw_ok(*old(self)),
            room(old(self).group_writers@, 0),
        ensures
            tw_like(*old(self), *final(self)),
            r is Ok ==> tw_ok(*final(self)) && WriteSpec::failed(&final(self).file_io_writer.out) == WriteSpec::failed(&old(self).file_io_writer.out),
            r is Ok ==> same_series(*old(self), *final(self)) && final(self).record_count <= old(self).record_count,
            r is Ok ==> forall|n: int| #[trigger] room(old(self).group_writers@, n) ==> room(final(self).group_writers@, n),
            r is Err ==> WriteSpec::failed(&final(self).file_io_writer.out),
@@entry
        hide(groups_ok);
        hide(io_ok);
        hide(in_step);
        hide(nothing_buffered);
        hide(room);
        hide(same_views);
        hide(added);
        proof { lemma_io(self.file_io_writer, self.file_io_writer); }
@@post 0 let mem_size =
            let ghost next = self.record_count_for_next_mem_check as int;
            assert(next * (CHUNK_GROUP_SIZE_THRESHOLD_BYTE as int) <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith)
                requires 0 <= next <= 0xffff_ffff, 0 <= CHUNK_GROUP_SIZE_THRESHOLD_BYTE <= 0xffff_ffff;
            proof { lemma_same_tw(*old(self), *self); }
@@fn writer::tsfile_writer::TsFileWriter<'a,T>::write
@@ret r
        requires
            tw_ok(*old(self)),
            tw_room(*old(self), 1),
        ensures
            tw_like(*old(self), *final(self)),
            !may_write(*old(self), device@, measurement_id@, (timestamp, value)) ==> r is Err
                && refused(*old(self), device@, measurement_id@, (timestamp, value), r->Err_0)
                && tw_ok(*final(self)) && no_trace(*old(self), *final(self)),
            r is Ok ==> tw_ok(*final(self)) && pushed(*old(self), *final(self), device@, measurement_id@, (timestamp, value))
                && WriteSpec::failed(&final(self).file_io_writer.out) == WriteSpec::failed(&old(self).file_io_writer.out),
            r is Ok ==> forall|n: int| n >= 1 && #[trigger] tw_room(*old(self), n) ==> tw_room(*final(self), n - 1),
            r is Err && may_write(*old(self), device@, measurement_id@, (timestamp, value)) ==> WriteSpec::failed(&final(self).file_io_writer.out),
@@entry
        hide(gw_ok);
        hide(gw_room);
        hide(gw_weight);
        hide(gv);
        hide(io_ok);
        hide(group_declared);
        hide(file_pts);
        hide(serves);
        hide(takes);
        hide(refusal);
        let ghost x: Pt = (timestamp, value);
        proof {
            lemma_io(self.file_io_writer, self.file_io_writer);
            if self.group_writers@.dom().contains(device@) {
                lemma_continues(*self, device@);
                lemma_refused(*self, device@);
                assert(gw_room(self.group_writers@[device@], 1));
            }
        }
@@post 0 self.record_count += records_written
                proof { lemma_wrote(*old(self), *self, device@, measurement_id@, x); }
@@fn writer::tsfile_writer::TsFileWriter<'a,T>::write_many
@@ret r
        requires
            tw_ok(*old(self)),
            tw_room(*old(self), items_of(values).len() as int),
        ensures
            tw_like(*old(self), *final(self)),
            !declared_device(*old(self), device@) ==> r is Err && r->Err_0 is IllegalState && tw_ok(*final(self)) && no_trace(*old(self), *final(self)),
            declared_device(*old(self), device@) && r is Err ==> row_failed(*old(self), *final(self), device@, timestamp, items_of(values), r->Err_0),
            r is Ok ==> declared_device(*old(self), device@) && row_takes(*old(self), device@, timestamp, items_of(values), items_of(values).len() as int),
            r is Ok ==> tw_ok(*final(self)) && row_pushed(*old(self), *final(self), device@, timestamp, items_of(values), items_of(values).len() as int)
                && WriteSpec::failed(&final(self).file_io_writer.out) == WriteSpec::failed(&old(self).file_io_writer.out),
@@entry
        hide(gw_ok);
        hide(gw_room);
        hide(gw_weight);
        hide(gv);
        hide(io_ok);
        hide(group_declared);
        hide(file_pts);
        hide(serves);
        hide(takes);
        hide(refusal);
        hide(row_stopped);
        hide(row_point);
        let ghost s = items_of(values);
        proof {
            lemma_io(self.file_io_writer, self.file_io_writer);
            if self.group_writers@.dom().contains(device@) {
                lemma_continues(*self, device@);
                lemma_rows(*self, device@, timestamp, s);
                assert(gw_room(self.group_writers@[device@], s.len() as int));
            }
        }
@@post 0 group.write_many(
                proof { lemma_rowed(*old(self), *self, device@, timestamp, s); }
@@replace? writer::tsfile_writer::TsFileWriter<'a,T>::new_from_writer
path.borrow()
=>
path
@@fn writer::tsfile_writer::TsFileWriter<'a,T>::new_from_writer
@@ret r
        requires
            names_ok(schema),
            WriteSpec::wf(&file_writer),
            WriteSpec::out(&file_writer).len() == 0,
        ensures
            r is Ok ==> tw_ok(r->Ok_0) && r->Ok_0.schema == schema && r->Ok_0.config == config && r->Ok_0.file_io_writer.config == config,
            r is Ok ==> r->Ok_0.file_io_writer.groups@ == Seq::<Group>::empty(),
            r is Ok ==> forall|d: Seq<char>, m: Seq<char>| #[trigger] series(r->Ok_0, d, m) =~= Seq::empty(),
            r is Ok ==> WriteSpec::failed(&r->Ok_0.file_io_writer.out) == WriteSpec::failed(&file_writer),
            r is Ok ==> WriteSpec::id(&r->Ok_0.file_io_writer.out) == WriteSpec::id(&file_writer),
            r is Err ==> io_fails(),
@@entry
        broadcast use axiom_io_fails;
@@elem 0 (&'a str, GroupWriter<'a>)
@@iter 0 it
@@loop 0
            invariant
                names_ok(schema),
                own_items(schema.measurement_groups@, it.seq()),
                verif_acc0@.len() == it.index@,
                forall|i: int| 0 <= i < it.index@ ==> (#[trigger] verif_acc0@[i]).0@ == it.seq()[i].0@
                    && fresh_group(verif_acc0@[i].1, it.seq()[i].0@, it.seq()[i].1, last_of(Map::empty(), it.seq()[i].0@)),
@@elem 1 (&'a str, ChunkWriter)
@@iter 1 it2
@@loop 1
            invariant
                ref_items(v.measurement_schemas@, it2.seq()),
                forall|m: Seq<char>| #[trigger] v.measurement_schemas@.dom().contains(m) ==> str_ok(m),
                verif_acc1@.len() == it2.index@,
                forall|i: int| 0 <= i < it2.index@ ==> (#[trigger] verif_acc1@[i]).0@ == it2.seq()[i].0@
                    && fresh_writer(verif_acc1@[i].1, it2.seq()[i].0@, *it2.seq()[i].1),
@@after 0
        proof { lemma_fresh_groups(verif_acc0@, verif_src0@, schema, Map::empty()); }
@@after 1
        proof { lemma_fresh_writers(verif_acc1@, verif_src1@, v.measurement_schemas@); }
@@exit
        proof {
            assert forall|w: TsFileWriter<'a, T>| io_ok(w.file_io_writer) && w.file_io_writer.groups@ == Seq::<Group>::empty() && idle(w.file_io_writer) && names_ok(w.schema)
                && fresh_groups(w.group_writers@, w.schema, Map::empty()) implies #[trigger] tw_ok(w) && forall|d: Seq<char>, m: Seq<char>| #[trigger] series(w, d, m) =~= Seq::empty() by { lemma_new(w); }
        }
