@@raw
/// the series of a device
pub mod groups {
use vstd::prelude::*;
use crate::vspec::*;
use crate::writer::*;
use crate::writer::errors::TsFileError;
use crate::writer::encoding::{Encoder, TSEncoding};
use crate::writer::compression::CompressionType;
use crate::writer::chunk_writer::ChunkWriter;
use crate::writer::group_writer::GroupWriter;
use crate::writer::tsfile_writer::DataPoint;
use crate::writer::tsfile_io_writer::TsFileIoWriter;
use crate::writer::PositionedWrite;
/// a series: points not yet flushed, timestamp of the last point ever accepted (or -1), declaration
pub struct Series { pub pts: Seq<Pt>, pub last: int, pub data_type: TSDataType, pub encoding: TSEncoding, pub compression: CompressionType }
pub type Device = Map<Seq<char>, Series>;
pub open spec fn gw_last<'a>(g: GroupWriter<'a>, m: Seq<char>) -> int {
    if g.last_time_map@.dom().contains(m) { g.last_time_map@[m] as int } else { -1 }
}
pub open spec fn series_of(w: ChunkWriter, last: int) -> Series {
    Series { pts: cw_pts(w), last, data_type: w.data_type, encoding: w.encoding, compression: w.compression_type }
}
pub open spec fn gv<'a>(g: GroupWriter<'a>) -> Device {
    Map::new(g.chunk_writers@.dom(), |m: Seq<char>| series_of(g.chunk_writers@[m], gw_last(g, m)))
}
pub open spec fn writer_ok(w: ChunkWriter, m: Seq<char>) -> bool {
    &&& cw_ok(w)
    &&& w.measurement_id@ == m
    &&& str_ok(m)
    &&& cur_pts(w).len() <= 0x0020_0000
}
pub open spec fn gw_ok<'a>(g: GroupWriter<'a>) -> bool {
    &&& str_ok(g.path@)
    &&& forall|m: Seq<char>| #[trigger] g.chunk_writers@.dom().contains(m) ==> writer_ok(g.chunk_writers@[m], m)
    &&& forall|m: Seq<char>| #[trigger] g.chunk_writers@.dom().contains(m) ==> follows(cw_pts(g.chunk_writers@[m]), gw_last(g, m))
    &&& forall|m: Seq<char>| #[trigger] g.last_time_map@.dom().contains(m) ==> g.last_time_map@[m] >= -1
    &&& forall|m: Seq<char>| #[trigger] g.last_time_map@.dom().contains(m) && !g.chunk_writers@.dom().contains(m) ==> g.last_time_map@[m] == -1
}
/// `last` is the timestamp of the last point, if there is one
pub open spec fn follows(p: Seq<Pt>, last: int) -> bool { p.len() > 0 ==> p.last().0 == last }
/// a point the writer has to accept
pub open spec fn takes(v: Device, m: Seq<char>, x: Pt) -> bool {
    &&& v.dom().contains(m)
    &&& x.0 > v[m].last
    &&& val_type(x.1) == Some(v[m].data_type)
    &&& kind_of(v[m].data_type, v[m].encoding) is Some
}
pub open spec fn adds(v: Device, m: Seq<char>, x: Pt) -> Device {
    v.insert(m, Series { pts: v[m].pts.push(x), last: x.0 as int, ..v[m] })
}
/// the error a refused point is reported with
pub open spec fn refusal(v: Device, m: Seq<char>, x: Pt, e: TsFileError) -> bool {
    if x.0 <= (if v.dom().contains(m) { v[m].last } else { -1 }) { e is OutOfOrderData }
    else if !v.dom().contains(m) { e is IllegalState }
    else if val_type(x.1) != Some(v[m].data_type) { e is WrongTypeForSeries }
    else { e is Encoding }
}
/// bytes of memory, as a bound
pub open spec fn weight(w: ChunkWriter) -> int {
    (w.page_buffer@.len() + 300 * cur_pts(w).len() + sbytes(w.measurement_id@).len() + 200) as int
}
pub open spec fn weights(s: Map<Seq<char>, ChunkWriter>, ks: Seq<Seq<char>>) -> int decreases ks.len() {
    if ks.len() == 0 { 0 } else { weights(s, ks.drop_last()) + weight(s[ks.last()]) }
}
pub open spec fn gw_order<'a>(g: GroupWriter<'a>) -> Seq<Seq<char>> { order_of::<&'a str>(g.chunk_writers@.dom()) }
pub open spec fn gw_weight<'a>(g: GroupWriter<'a>) -> int { weights(g.chunk_writers@, gw_order(g)) }
pub open spec fn writer_room(w: ChunkWriter, n: int) -> bool {
    &&& w.page_buffer@.len() + 300 * cur_pts(w).len() + 300 * n <= 0x2000_0000
    &&& cw_pts(w).len() + n < u32::MAX
}
/// the writer is not asked to buffer more than it can
pub open spec fn gw_room<'a>(g: GroupWriter<'a>, n: int) -> bool {
    &&& gw_weight(g) + 300 * n <= u32::MAX
    &&& forall|m: Seq<char>| #[trigger] g.chunk_writers@.dom().contains(m) ==> writer_room(g.chunk_writers@[m], n)
}
/// the same declarations
pub open spec fn gw_like<'a>(a: GroupWriter<'a>, b: GroupWriter<'a>) -> bool {
    &&& a.path == b.path
    &&& a.chunk_writers@.dom() =~= b.chunk_writers@.dom()
    &&& forall|m: Seq<char>| #[trigger] a.chunk_writers@.dom().contains(m) ==> cw_like(a.chunk_writers@[m], b.chunk_writers@[m])
}
/// only the bookkeeping of times may differ
pub open spec fn same_group<'a>(a: GroupWriter<'a>, b: GroupWriter<'a>) -> bool {
    &&& b.path == a.path
    &&& b.chunk_writers@ =~= a.chunk_writers@
    &&& forall|m: Seq<char>| gw_last(b, m) == #[trigger] gw_last(a, m)
}
/// the state after the first `k` points of a row
pub open spec fn after<'a>(v: Device, t: i64, s: Seq<DataPoint<'a>>, k: int) -> Device decreases k {
    if k <= 0 { v } else { adds(after(v, t, s, k - 1), s[k - 1].measurement_id@, (t, s[k - 1].value)) }
}
pub open spec fn row_accepted<'a>(v: Device, t: i64, s: Seq<DataPoint<'a>>, k: int) -> bool {
    forall|j: int| 0 <= j < k ==> takes(#[trigger] after(v, t, s, j), s[j].measurement_id@, (t, s[j].value))
}
pub proof fn lemma_weights(a: Map<Seq<char>, ChunkWriter>, b: Map<Seq<char>, ChunkWriter>, ks: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < ks.len() ==> weight(b[#[trigger] ks[i]]) <= weight(a[ks[i]])
    ensures weights(b, ks) <= weights(a, ks)
    decreases ks.len()
{
    if ks.len() > 0 {
        let r = ks.drop_last();
        assert forall|i: int| 0 <= i < r.len() implies weight(b[#[trigger] r[i]]) <= weight(a[r[i]]) by { assert(r[i] == ks[i]); }
        lemma_weights(a, b, r);
        assert(ks.last() == ks[ks.len() - 1]);
    }
}
/// one of them gains at most d
pub proof fn lemma_weights_one(a: Map<Seq<char>, ChunkWriter>, b: Map<Seq<char>, ChunkWriter>, ks: Seq<Seq<char>>, k: Seq<char>, d: int)
    requires
        ks.no_duplicates(), d >= 0,
        forall|i: int| 0 <= i < ks.len() && ks[i] != k ==> weight(b[#[trigger] ks[i]]) <= weight(a[ks[i]]),
        weight(b[k]) <= weight(a[k]) + d,
    ensures weights(b, ks) <= weights(a, ks) + d
    decreases ks.len()
{
    if ks.len() > 0 {
        let r = ks.drop_last();
        assert forall|i: int| 0 <= i < r.len() && r[i] != k implies weight(b[#[trigger] r[i]]) <= weight(a[r[i]]) by { assert(r[i] == ks[i]); }
        assert(ks.last() == ks[ks.len() - 1]);
        if ks.last() == k {
            assert forall|i: int| 0 <= i < r.len() implies weight(b[#[trigger] r[i]]) <= weight(a[r[i]]) by { assert(r[i] == ks[i]); assert(ks[i] != k); }
            lemma_weights(a, b, r);
        } else {
            lemma_weights_one(a, b, r, k, d);
        }
    }
}
pub proof fn lemma_weights_nonneg(a: Map<Seq<char>, ChunkWriter>, ks: Seq<Seq<char>>, i: int)
    requires 0 <= i <= ks.len()
    ensures 0 <= weights(a, ks.take(i)) <= weights(a, ks)
    decreases ks.len()
{
    if i == ks.len() { assert(ks.take(i) =~= ks); if i > 0 { lemma_weights_nonneg(a, ks.drop_last(), i - 1); assert(ks.drop_last().take(i - 1) =~= ks.drop_last()); } }
    else { lemma_weights_nonneg(a, ks.drop_last(), i); assert(ks.drop_last().take(i) =~= ks.take(i)); lemma_weights_nonneg(a, ks.drop_last(), ks.len() - 1); }
}
pub proof fn lemma_weights_step(a: Map<Seq<char>, ChunkWriter>, ks: Seq<Seq<char>>, i: int)
    requires 0 <= i < ks.len()
    ensures weights(a, ks.take(i + 1)) == weights(a, ks.take(i)) + weight(a[ks[i]])
{ assert(ks.take(i + 1).drop_last() =~= ks.take(i)); }
pub proof fn lemma_take<A>(ks: Seq<A>, i: int)
    requires 0 <= i < ks.len(), ks.no_duplicates()
    ensures
        forall|m: A| ks.take(i + 1).contains(m) <==> #[trigger] ks.take(i).contains(m) || m == ks[i],
        forall|m: A| #[trigger] ks.take(i + 1).contains(m) <==> ks.take(i).contains(m) || m == ks[i],
        !ks.take(i).contains(ks[i]),
        ks.contains(ks[i]),
{
    assert(ks.take(i + 1) =~= ks.take(i).push(ks[i]));
    assert forall|m: A| #[trigger] ks.take(i + 1).contains(m) <==> ks.take(i).contains(m) || m == ks[i] by {
        if ks.take(i + 1).contains(m) && m != ks[i] {
            let j = choose|j: int| 0 <= j < i + 1 && #[trigger] ks.take(i + 1)[j] == m;
            assert(ks.take(i)[j] == m);
        }
        if ks.take(i).contains(m) {
            let j = choose|j: int| 0 <= j < i && #[trigger] ks.take(i)[j] == m;
            assert(ks.take(i + 1)[j] == m);
        }
        if m == ks[i] { assert(ks.take(i + 1)[i] == m); }
    }
    if ks.take(i).contains(ks[i]) {
        let j = choose|j: int| 0 <= j < i && #[trigger] ks.take(i)[j] == ks[i];
        assert(ks[j] == ks[i]);
    }
}
pub proof fn lemma_less_room<'a>(g: GroupWriter<'a>, n: int, k: int)
    requires gw_room(g, n), k <= n
    ensures gw_room(g, k)
{
    hide(gw_weight);
    assert forall|m: Seq<char>| #[trigger] g.chunk_writers@.dom().contains(m) implies writer_room(g.chunk_writers@[m], k) by { assert(writer_room(g.chunk_writers@[m], n)); }
}
pub broadcast proof fn lemma_insert_same<K, V>(s: Map<K, V>, k: K)
    requires s.dom().contains(k)
    ensures #[trigger] s.insert(k, s[k]) == s
{ assert(s.insert(k, s[k]) =~= s); }
pub proof fn lemma_push_rising(p: Seq<Pt>, last: int, x: Pt)
    requires rising(p), follows(p, last), x.0 > last
    ensures rising(p.push(x))
{
    assert forall|i: int| 0 < i < p.push(x).len() implies p.push(x)[i - 1].0 < (#[trigger] p.push(x)[i]).0 by {
        if i < p.len() { assert(p[i - 1].0 < p[i].0); }
    }
}
/// one more point
pub proof fn lemma_row<'a>(a: GroupWriter<'a>, b: GroupWriter<'a>, m: Seq<char>, x: Pt)
    requires
        gw_ok(a), a.chunk_writers@.dom().contains(m), x.0 > gw_last(a, m),
        b.path == a.path,
        b.chunk_writers@ == a.chunk_writers@.insert(m, b.chunk_writers@[m]),
        writer_ok(b.chunk_writers@[m], m),
        cw_like(b.chunk_writers@[m], a.chunk_writers@[m]),
        cw_pts(b.chunk_writers@[m]) =~= cw_pts(a.chunk_writers@[m]).push(x),
        weight(b.chunk_writers@[m]) <= weight(a.chunk_writers@[m]) + 300,
        forall|k: Seq<char>| k != m ==> gw_last(b, k) == #[trigger] gw_last(a, k),
        gw_last(b, m) == x.0,
        forall|k: Seq<char>| #[trigger] b.last_time_map@.dom().contains(k) ==> a.last_time_map@.dom().contains(k) || k == m,
    ensures
        gw_ok(b), gw_like(b, a),
        forall|n: int| n >= 1 && #[trigger] gw_room(a, n) ==> gw_room(b, n - 1),
        gw_weight(b) <= gw_weight(a) + 300,
        gv(b) =~= adds(gv(a), m, x),
{
    hide(cw_ok); hide(cw_pts); hide(cur_pts); hide(weights); hide(weight);
    broadcast use axiom_order;
    assert(b.chunk_writers@.dom() =~= a.chunk_writers@.dom());
    let ks = gw_order(a);
    assert(gw_order(b) == ks);
    assert forall|i: int| 0 <= i < ks.len() && ks[i] != m implies weight(b.chunk_writers@[#[trigger] ks[i]]) <= weight(a.chunk_writers@[ks[i]]) by {}
    lemma_weights_one(a.chunk_writers@, b.chunk_writers@, ks, m, 300);
    assert forall|k: Seq<char>| #[trigger] b.chunk_writers@.dom().contains(k) implies writer_ok(b.chunk_writers@[k], k) && follows(cw_pts(b.chunk_writers@[k]), gw_last(b, k)) by {
        assert(a.chunk_writers@.dom().contains(k));
        if k != m { assert(gw_last(b, k) == gw_last(a, k)); }
    }
    assert forall|k: Seq<char>| #[trigger] b.last_time_map@.dom().contains(k) implies b.last_time_map@[k] >= -1 by {
        if k != m { assert(gw_last(b, k) == gw_last(a, k)); }
    }
    assert forall|k: Seq<char>| #[trigger] b.last_time_map@.dom().contains(k) && !b.chunk_writers@.dom().contains(k) implies b.last_time_map@[k] == -1 by {
        if k != m { assert(gw_last(b, k) == gw_last(a, k)); }
    }
    assert forall|n: int| n >= 1 && #[trigger] gw_room(a, n) implies gw_room(b, n - 1) by {
        assert forall|k: Seq<char>| #[trigger] b.chunk_writers@.dom().contains(k) implies writer_room(b.chunk_writers@[k], n - 1) by {
            assert(a.chunk_writers@.dom().contains(k));
            assert(writer_room(a.chunk_writers@[k], n));
            reveal(weight); reveal(cw_pts);
        }
    }
    assert(gv(b) =~= adds(gv(a), m, x)) by {
        assert forall|k: Seq<char>| #[trigger] gv(b).dom().contains(k) implies gv(b)[k] == adds(gv(a), m, x)[k] by {
            if k != m { assert(gw_last(b, k) == gw_last(a, k)); }
        }
    }
}
/// during sealing: only pages get closed
pub open spec fn sealing(w: ChunkWriter, o: ChunkWriter, m: Seq<char>, done: bool) -> bool {
    &&& writer_ok(w, m)
    &&& cw_pts(w) =~= cw_pts(o)
    &&& w.page_buffer@.len() + 300 * cur_pts(w).len() <= o.page_buffer@.len() + 300 * cur_pts(o).len()
    &&& if done { cur_pts(w).len() == 0 } else { w == o }
}
pub proof fn lemma_sealed<'a>(a: GroupWriter<'a>, b: GroupWriter<'a>)
    requires
        gw_ok(a), gw_room(a, 0), gw_like(b, a), b.last_time_map == a.last_time_map,
        forall|m: Seq<char>| #[trigger] b.chunk_writers@.dom().contains(m) ==> sealing(b.chunk_writers@[m], a.chunk_writers@[m], m, true),
    ensures
        gw_ok(b), gw_room(b, 0), gv(b) =~= gv(a), all_closed(b.chunk_writers@),
{
    hide(cw_ok); hide(weights);
    broadcast use axiom_order;
    assert(b.chunk_writers@.dom() =~= a.chunk_writers@.dom());
    let ks = gw_order(a);
    assert(gw_order(b) == ks);
    assert forall|i: int| 0 <= i < ks.len() implies weight(b.chunk_writers@[#[trigger] ks[i]]) <= weight(a.chunk_writers@[ks[i]]) by {
        assert(ks.contains(ks[i]));
        assert(sealing(b.chunk_writers@[ks[i]], a.chunk_writers@[ks[i]], ks[i], true));
    }
    lemma_weights(a.chunk_writers@, b.chunk_writers@, ks);
    assert forall|k: Seq<char>| #[trigger] b.chunk_writers@.dom().contains(k) implies writer_room(b.chunk_writers@[k], 0) && follows(cw_pts(b.chunk_writers@[k]), gw_last(b, k)) by {
        assert(a.chunk_writers@.dom().contains(k));
        assert(writer_room(a.chunk_writers@[k], 0));
        assert(follows(cw_pts(a.chunk_writers@[k]), gw_last(a, k)));
    }
    assert forall|k: Seq<char>| #[trigger] gv(b).dom().contains(k) implies gv(b)[k] == gv(a)[k] by {
        assert(cw_pts(b.chunk_writers@[k]) == cw_pts(a.chunk_writers@[k]));
    }
}
pub proof fn lemma_same<'a>(a: GroupWriter<'a>, b: GroupWriter<'a>)
    requires
        gw_ok(a), gw_like(b, a), b.last_time_map == a.last_time_map,
        forall|m: Seq<char>| #[trigger] b.chunk_writers@.dom().contains(m) ==> cw_same(b.chunk_writers@[m], a.chunk_writers@[m]),
    ensures
        gw_ok(b), gv(b) =~= gv(a), gw_weight(b) == gw_weight(a),
        forall|n: int| #[trigger] gw_room(a, n) ==> gw_room(b, n),
{
    hide(cw_ok); hide(weights);
    broadcast use axiom_order;
    assert(b.chunk_writers@.dom() =~= a.chunk_writers@.dom());
    let ks = gw_order(a);
    assert(gw_order(b) == ks);
    assert forall|i: int| 0 <= i < ks.len() implies weight(b.chunk_writers@[#[trigger] ks[i]]) == weight(a.chunk_writers@[ks[i]]) by {
        assert(ks.contains(ks[i]));
        assert(cw_same(b.chunk_writers@[ks[i]], a.chunk_writers@[ks[i]]));
    }
    lemma_weights(a.chunk_writers@, b.chunk_writers@, ks);
    lemma_weights(b.chunk_writers@, a.chunk_writers@, ks);
    assert forall|k: Seq<char>| #[trigger] b.chunk_writers@.dom().contains(k) implies writer_ok(b.chunk_writers@[k], k) && follows(cw_pts(b.chunk_writers@[k]), gw_last(b, k)) by {
        assert(a.chunk_writers@.dom().contains(k));
        assert(writer_ok(a.chunk_writers@[k], k));
        assert(follows(cw_pts(a.chunk_writers@[k]), gw_last(a, k)));
    }
    assert forall|n: int| #[trigger] gw_room(a, n) implies gw_room(b, n) by {
        assert forall|k: Seq<char>| #[trigger] b.chunk_writers@.dom().contains(k) implies writer_room(b.chunk_writers@[k], n) by {
            assert(a.chunk_writers@.dom().contains(k));
            assert(writer_room(a.chunk_writers@[k], n));
        }
    }
    assert forall|k: Seq<char>| #[trigger] gv(b).dom().contains(k) implies gv(b)[k] == gv(a)[k] by {
        assert(cw_pts(b.chunk_writers@[k]) == cw_pts(a.chunk_writers@[k]));
    }
}
/// bytes of a chunk in the file
pub open spec fn size_of_chunk(w: ChunkWriter) -> int {
    if w.pages@.len() == 0 { 0 } else { chunk_ser(chunk_of(w)).len() as int }
}
pub open spec fn sizes(s: Map<Seq<char>, ChunkWriter>, ks: Seq<Seq<char>>) -> int decreases ks.len() {
    if ks.len() == 0 { 0 } else { sizes(s, ks.drop_last()) + size_of_chunk(s[ks.last()]) }
}
pub proof fn lemma_sizes_step(a: Map<Seq<char>, ChunkWriter>, ks: Seq<Seq<char>>, i: int)
    requires 0 <= i < ks.len()
    ensures sizes(a, ks.take(i + 1)) == sizes(a, ks.take(i)) + size_of_chunk(a[ks[i]])
{ assert(ks.take(i + 1).drop_last() =~= ks.take(i)); }
pub proof fn lemma_chunk_size(w: ChunkWriter)
    requires cw_ok(w), str_ok(w.measurement_id@), w.page_buffer@.len() <= 0x7fff_ffff
    ensures 0 <= size_of_chunk(w) <= weight(w)
{
    if w.pages@.len() > 0 {
        let n = chunk_data(w.compression_type, w.pages@).len();
        crate::writer::utils::lemma_uvar_len(n);
        crate::writer::utils::lemma_uvar_len(zig(sbytes(w.measurement_id@).len() as i32));
        assert(chunk_ser(chunk_of(w)).len() == 1 + str_ser(w.measurement_id@).len() + uvar(n).len() + 3 + n);
    }
}
/// the chunks that are written, in order
pub open spec fn chunks_of(s: Map<Seq<char>, ChunkWriter>, ks: Seq<Seq<char>>) -> Seq<Chunk> decreases ks.len() {
    if ks.len() == 0 { Seq::empty() }
    else if s[ks.last()].pages@.len() == 0 { chunks_of(s, ks.drop_last()) }
    else { chunks_of(s, ks.drop_last()).push(chunk_of(s[ks.last()])) }
}
pub proof fn lemma_chunks_step(a: Map<Seq<char>, ChunkWriter>, ks: Seq<Seq<char>>, i: int)
    requires 0 <= i < ks.len()
    ensures chunks_of(a, ks.take(i + 1)) == (if a[ks[i]].pages@.len() == 0 { chunks_of(a, ks.take(i)) } else { chunks_of(a, ks.take(i)).push(chunk_of(a[ks[i]])) })
{ assert(ks.take(i + 1).drop_last() =~= ks.take(i)); }
/// the points of a series in some chunks
pub open spec fn chunks_pts(s: Seq<Chunk>, m: Seq<char>) -> Seq<Pt> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s.last().name == m { chunks_pts(s.drop_last(), m) + pages_pts(s.last().pages) }
    else { chunks_pts(s.drop_last(), m) }
}
/// the points of the series, and nothing else
pub open spec fn points_in(s: Seq<Chunk>, v: Device) -> bool {
    forall|m: Seq<char>| #[trigger] chunks_pts(s, m) == (if v.dom().contains(m) { v[m].pts } else { Seq::empty() })
}
/// as declared
pub open spec fn as_declared(c: Chunk, v: Device) -> bool {
    &&& v.dom().contains(c.name)
    &&& c.data_type == v[c.name].data_type
    &&& c.encoding == v[c.name].encoding
    &&& c.compression == v[c.name].compression
}
/// `s` is the points of a device that have been buffered
pub open spec fn holds_group(s: Seq<Chunk>, v: Device) -> bool {
    &&& points_in(s, v)
    &&& forall|i: int| 0 <= i < s.len() ==> as_declared(#[trigger] s[i], v)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> str_lt((#[trigger] s[i]).name, (#[trigger] s[j]).name)
}
/// the last group gets these chunks
pub open spec fn with_chunks(g: Seq<Group>, cs: Seq<Chunk>) -> Seq<Group> {
    g.drop_last().push(Group { device: g.last().device, chunks: cs })
}
/// the last group gets the points of a device
pub open spec fn group_added(a: Seq<Group>, b: Seq<Group>, v: Device) -> bool {
    exists|cs: Seq<Chunk>| b == #[trigger] with_chunks(a, cs) && holds_group(cs, v)
}
pub proof fn lemma_io_len<'a, T: PositionedWrite>(w: TsFileIoWriter<'a, T>)
    requires io_ok(w)
    ensures
        WriteSpec::wf(&w.out),
        WriteSpec::out(&w.out).len() == file_body(w.groups@).len(),
        w.current_chunk_group_device_id is Some ==> w.groups@.len() > 0 && w.groups@.last().device == w.current_chunk_group_device_id->Some_0@,
{}
pub proof fn lemma_flush_step(a: Seq<Group>, b: Seq<Group>, g: Seq<Group>, w: ChunkWriter, cs: Seq<Chunk>)
    requires
        g.len() > 0, a =~= with_chunks(g, cs),
        b == (if w.pages@.len() == 0 { a } else { add_chunk(a, chunk_of(w)) }),
    ensures
        b =~= with_chunks(g, if w.pages@.len() == 0 { cs } else { cs.push(chunk_of(w)) }),
        file_body(b).len() == file_body(a).len() + size_of_chunk(w),
{
    assert(a.drop_last() =~= g.drop_last());
    lemma_add_chunk(a, chunk_of(w));
}
pub proof fn lemma_alike<'a>(a: GroupWriter<'a>, b: GroupWriter<'a>)
    requires a.chunk_writers@ =~= b.chunk_writers@, a.path == b.path, a.last_time_map@ == b.last_time_map@
    ensures gw_ok(a) == gw_ok(b), gv(a) =~= gv(b), gw_weight(a) == gw_weight(b), forall|n: int| #[trigger] gw_room(a, n) == gw_room(b, n)
{}
/// all pages closed
pub open spec fn all_closed(s: Map<Seq<char>, ChunkWriter>) -> bool {
    forall|m: Seq<char>| #[trigger] s.dom().contains(m) ==> cur_pts(s[m]).len() == 0
}
pub proof fn lemma_chunks_of(s: Map<Seq<char>, ChunkWriter>, ks: Seq<Seq<char>>)
    requires
        forall|i: int| 0 <= i < ks.len() ==> s[#[trigger] ks[i]].measurement_id@ == ks[i] && cur_pts(s[ks[i]]).len() == 0,
        forall|i: int, j: int| 0 <= i < j < ks.len() ==> str_lt(#[trigger] ks[i], #[trigger] ks[j]),
    ensures
        forall|m: Seq<char>| #[trigger] chunks_pts(chunks_of(s, ks), m) =~= (if ks.contains(m) { cw_pts(s[m]) } else { Seq::empty() }),
        forall|i: int| 0 <= i < chunks_of(s, ks).len() ==> ks.contains((#[trigger] chunks_of(s, ks)[i]).name) && chunks_of(s, ks)[i] == chunk_of(s[chunks_of(s, ks)[i].name]),
        forall|i: int, j: int| 0 <= i < j < chunks_of(s, ks).len() ==> str_lt((#[trigger] chunks_of(s, ks)[i]).name, (#[trigger] chunks_of(s, ks)[j]).name),
    decreases ks.len()
{
    hide(pages_pts);
    if ks.len() > 0 {
        let r = ks.drop_last();
        let z = ks.last();
        assert forall|i: int| 0 <= i < r.len() implies s[#[trigger] r[i]].measurement_id@ == r[i] && cur_pts(s[r[i]]).len() == 0 by { assert(r[i] == ks[i]); }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies str_lt(#[trigger] r[i], #[trigger] r[j]) by { assert(r[i] == ks[i] && r[j] == ks[j]); }
        lemma_chunks_of(s, r);
        assert(ks[ks.len() - 1] == z);
        let a = chunks_of(s, r);
        let b = chunks_of(s, ks);
        lemma_pages_sum(s[z].data_type, s[z].pages@);
        assert forall|i: int| 0 <= i < r.len() implies str_lt(#[trigger] r[i], z) by { assert(r[i] == ks[i]); }
        lemma_bytes_lt(sbytes(z), sbytes(z), sbytes(z));
        assert(!r.contains(z));
        assert forall|m: Seq<char>| ks.contains(m) <==> #[trigger] r.contains(m) || m == z by {
            if r.contains(m) { let i = choose|i: int| 0 <= i < r.len() && r[i] == m; assert(ks[i] == m); }
            if ks.contains(m) && m != z { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == m; assert(r[i] == m); }
        }
        assert forall|m: Seq<char>| #[trigger] chunks_pts(b, m) =~= (if ks.contains(m) { cw_pts(s[m]) } else { Seq::empty() }) by {
            assert(chunks_pts(a, m) =~= (if r.contains(m) { cw_pts(s[m]) } else { Seq::empty() }));
            if s[z].pages@.len() > 0 { assert(b.drop_last() =~= a); assert(b.last() == chunk_of(s[z])); }
            if m == z { assert(cw_pts(s[z]) =~= pages_pts(s[z].pages@)); }
        }
        if s[z].pages@.len() > 0 {
            assert forall|i: int| 0 <= i < b.len() implies ks.contains((#[trigger] b[i]).name) && b[i] == chunk_of(s[b[i].name]) by {
                if i < a.len() { assert(b[i] == a[i]); assert(r.contains(a[i].name)); } else { assert(b[i] == chunk_of(s[z])); }
            }
            assert forall|i: int, j: int| 0 <= i < j < b.len() implies str_lt((#[trigger] b[i]).name, (#[trigger] b[j]).name) by {
                assert(b[i] == a[i]);
                assert(r.contains(a[i].name));
                if j < a.len() { assert(b[j] == a[j]); }
            }
        } else {
            assert(b == a);
        }
    } else {
        assert forall|m: Seq<char>| #[trigger] chunks_pts(chunks_of(s, ks), m) =~= (if ks.contains(m) { cw_pts(s[m]) } else { Seq::empty() }) by {}
    }
}
/// the chunks of a closed group
pub proof fn lemma_holds_group<'a>(a: GroupWriter<'a>, b: GroupWriter<'a>)
    requires
        gw_ok(b), gv(b) =~= gv(a), all_closed(b.chunk_writers@),
    ensures holds_group(chunks_of(b.chunk_writers@, gw_order(b)), gv(a))
{
    hide(cw_ok); hide(pages_pts); hide(chunks_of);
    broadcast use axiom_order;
    let ks = gw_order(b);
    let s = b.chunk_writers@;
    assert forall|i: int| 0 <= i < ks.len() implies s[#[trigger] ks[i]].measurement_id@ == ks[i] && cur_pts(s[ks[i]]).len() == 0 by {
        assert(ks.contains(ks[i]));
        assert(s.dom().contains(ks[i]));
        assert(writer_ok(s[ks[i]], ks[i]));
    }
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies str_lt(#[trigger] ks[i], #[trigger] ks[j]) by {
        assert(<&'a str as MapKey>::before(ks[i], ks[j]));
    }
    lemma_chunks_of(s, ks);
    let c = chunks_of(s, ks);
    assert(gv(a).dom() =~= s.dom()) by { assert(gv(b).dom() =~= s.dom()); }
    assert forall|m: Seq<char>| #[trigger] chunks_pts(c, m) == (if gv(a).dom().contains(m) { gv(a)[m].pts } else { Seq::empty() }) by {
        assert(ks.contains(m) <==> s.dom().contains(m));
        if s.dom().contains(m) { assert(gv(b)[m] == gv(a)[m]); }
        assert(chunks_pts(c, m) =~= (if ks.contains(m) { cw_pts(s[m]) } else { Seq::empty() }));
    }
    assert forall|i: int| 0 <= i < c.len() implies as_declared(#[trigger] c[i], gv(a)) by {
        assert(ks.contains(c[i].name));
        assert(gv(b)[c[i].name] == gv(a)[c[i].name]);
    }
}
pub proof fn lemma_take_all<A>(ks: Seq<A>)
    ensures ks.take(ks.len() as int) =~= ks, ks.take(0) =~= Seq::<A>::empty()
{}
}
@@fn writer::tsfile_writer::DataPoint<'a>::new
@@ret r
        ensures r.measurement_id == measurement_id, r.value == value,
@@fn writer::group_writer::GroupWriter<'a>::check_is_history_data
@@ret r
        requires
            gw_ok(*old(self)),
        ensures
            r is Ok == (timestamp > gw_last(*old(self), measurement_id@)),
            r is Err ==> r->Err_0 is OutOfOrderData,
            gw_ok(*final(self)),
            final(self).path == old(self).path,
            final(self).chunk_writers == old(self).chunk_writers,
            forall|m: Seq<char>| gw_last(*final(self), m) == gw_last(*old(self), m),
            forall|m: Seq<char>| #[trigger] final(self).last_time_map@.dom().contains(m) ==> old(self).last_time_map@.dom().contains(m) || m == measurement_id@,
@@fn writer::group_writer::GroupWriter<'a>::get_last_time_map
@@ret r
        ensures
            *final(self) == *old(self),
            r@ == old(self).last_time_map@,
@@fn writer::group_writer::GroupWriter<'a>::write
@@ret r
        requires
            gw_ok(*old(self)),
            gw_room(*old(self), 1),
        ensures
            gw_ok(*final(self)),
            gw_like(*final(self), *old(self)),
            r is Ok ==> forall|n: int| n >= 1 && #[trigger] gw_room(*old(self), n) ==> gw_room(*final(self), n - 1),
            r is Ok == takes(gv(*old(self)), measurement_id@, (timestamp, value)),
            r is Ok ==> r->Ok_0 == 1 && gv(*final(self)) =~= adds(gv(*old(self)), measurement_id@, (timestamp, value)),
            r is Err ==> gv(*final(self)) =~= gv(*old(self)) && refusal(gv(*old(self)), measurement_id@, (timestamp, value), r->Err_0),
            r is Err ==> final(self).chunk_writers@ =~= old(self).chunk_writers@,
            r is Err ==> forall|m: Seq<char>| gw_last(*final(self), m) == #[trigger] gw_last(*old(self), m),
            r is Err ==> forall|n: int| #[trigger] gw_room(*old(self), n) ==> gw_room(*final(self), n),
            gw_weight(*final(self)) <= gw_weight(*old(self)) + (if r is Ok { 300int } else { 0 }),
@@entry
        hide(cw_ok);
        hide(pages_ok);
        hide(gw_room);
        hide(rising);
        broadcast use lemma_insert_same;
        proof {
            assert(gw_room(*old(self), 1));
            reveal(gw_room);
            if self.chunk_writers@.dom().contains(measurement_id@) {
                assert(writer_room(self.chunk_writers@[measurement_id@], 1));
                assert(writer_ok(self.chunk_writers@[measurement_id@], measurement_id@));
                lemma_cw(self.chunk_writers@[measurement_id@]);
                if timestamp > gw_last(*self, measurement_id@) {
                    lemma_push_rising(cw_pts(self.chunk_writers@[measurement_id@]), gw_last(*self, measurement_id@), (timestamp, value));
                }
            }
        }
@@exit
        proof { lemma_row(*old(self), *self, measurement_id@, (timestamp, value)); }
@@fn writer::group_writer::GroupWriter<'a>::write_many
@@wrap 0 verif_items
@@iter 0 it
@@ret r
        requires
            gw_ok(*old(self)),
            gw_room(*old(self), items_of(values).len() as int),
            *old(record_count) + items_of(values).len() <= u32::MAX,
        ensures
            gw_ok(*final(self)),
            gw_like(*final(self), *old(self)),
            ({
                let k = *final(record_count) - *old(record_count);
                let s = items_of(values);
                &&& 0 <= k <= s.len()
                &&& gv(*final(self)) =~= after(gv(*old(self)), timestamp, s, k)
                &&& row_accepted(gv(*old(self)), timestamp, s, k)
                &&& gw_room(*final(self), s.len() - k)
                &&& gw_weight(*final(self)) <= gw_weight(*old(self)) + 300 * k
                &&& r is Err && k == 0 ==> same_group(*old(self), *final(self))
                &&& r is Ok ==> k == s.len()
                &&& r is Err ==> k < s.len() && !takes(gv(*final(self)), s[k].measurement_id@, (timestamp, s[k].value))
                        && refusal(gv(*final(self)), s[k].measurement_id@, (timestamp, s[k].value), r->Err_0)
            }),
@@entry
        hide(gw_ok);
        hide(gw_room);
        hide(gw_weight);
        hide(gv);
        hide(takes);
        hide(refusal);
@@loop 0
            invariant
                gw_ok(*self),
                gw_like(*self, *old(self)),
                it.seq() == items_of(values),
                *old(record_count) + items_of(values).len() <= u32::MAX,
                *record_count == *old(record_count) + it.index@,
                gv(*self) =~= after(gv(*old(self)), timestamp, items_of(values), it.index@),
                row_accepted(gv(*old(self)), timestamp, items_of(values), it.index@),
                gw_room(*self, items_of(values).len() - it.index@),
                gw_weight(*self) <= gw_weight(*old(self)) + 300 * it.index@,
                it.index@ == 0 ==> *self == *old(self),
@@in 0
            proof { if items_of(values).len() - it.index@ >= 1 { lemma_less_room(*self, items_of(values).len() - it.index@, 1); } }
@@fn writer::group_writer::GroupWriter<'a>::seal_all_chunks
        requires
            gw_ok(*old(self)),
            gw_room(*old(self), 0),
        ensures
            gw_ok(*final(self)),
            gw_like(*final(self), *old(self)),
            gw_room(*final(self), 0),
            gv(*final(self)) =~= gv(*old(self)),
            all_closed(final(self).chunk_writers@),
            final(self).last_time_map == old(self).last_time_map,
@@entry
        hide(cw_ok);
        hide(weights);
@@before 0
        let ghost ks = key_views(verif_keys0@);
@@loop 0
            invariant
                lists(ks, old(self).chunk_writers@.dom()),
                ks =~= key_views(verif_keys0@),
                gw_ok(*old(self)),
                gw_room(*old(self), 0),
                gw_like(*self, *old(self)),
                self.last_time_map == old(self).last_time_map,
                forall|m: Seq<char>| #[trigger] self.chunk_writers@.dom().contains(m) ==> sealing(self.chunk_writers@[m], old(self).chunk_writers@[m], m, ks.take(verif_i0 as int).contains(m)),
@@in 0
            proof {
                lemma_take(ks, verif_i0 as int);
                assert(ks[verif_i0 as int] == verif_key0@);
                assert(writer_ok(old(self).chunk_writers@[verif_key0@], verif_key0@));
                assert(sealing(self.chunk_writers@[verif_key0@], old(self).chunk_writers@[verif_key0@], verif_key0@, false));
            }
@@after 0
        proof {
            lemma_take_all(ks);
            lemma_sealed(*old(self), *self);
        }
@@fn writer::group_writer::GroupWriter<'a>::get_current_chunk_group_size
@@ret r
        requires
            gw_ok(*old(self)),
            gw_room(*old(self), 0),
        ensures
            final(self).path == old(self).path,
            final(self).last_time_map == old(self).last_time_map,
            final(self).chunk_writers@ =~= old(self).chunk_writers@,
            r == sizes(old(self).chunk_writers@, gw_order(*old(self))),
@@entry
        hide(cw_ok);
        hide(weight);
        hide(size_of_chunk);
        broadcast use axiom_order;
@@before 0
        let ghost ks = key_views(verif_keys0@);
        let ghost s = self.chunk_writers@;
@@loop 0
            invariant
                lists(ks, s.dom()),
                ks =~= key_views(verif_keys0@),
                ks == gw_order(*old(self)),
                s == old(self).chunk_writers@,
                gw_ok(*old(self)),
                gw_room(*old(self), 0),
                self.path == old(self).path,
                self.last_time_map == old(self).last_time_map,
                self.chunk_writers@ =~= s,
                size == sizes(s, ks.take(verif_i0 as int)),
                0 <= size <= weights(s, ks.take(verif_i0 as int)),
                weights(s, ks) <= u32::MAX,
@@in 0
            proof {
                lemma_take(ks, verif_i0 as int);
                assert(ks[verif_i0 as int] == verif_key0@);
                assert(writer_ok(s[verif_key0@], verif_key0@));
                assert(writer_room(s[verif_key0@], 0));
                lemma_sizes_step(s, ks, verif_i0 as int);
                lemma_weights_step(s, ks, verif_i0 as int);
                lemma_weights_nonneg(s, ks, verif_i0 as int + 1);
                lemma_chunk_size(s[verif_key0@]);
                assert(size_of_chunk(s[verif_key0@]) == (if s[verif_key0@].pages@.len() == 0 { 0int } else { chunk_ser(chunk_of(s[verif_key0@])).len() as int })) by { reveal(size_of_chunk); }
            }
@@after 0
        proof { lemma_take_all(ks); }
@@fn writer::group_writer::GroupWriter<'a>::update_max_group_mem_size
@@ret r
        requires
            gw_ok(*old(self)),
            gw_room(*old(self), 0),
        ensures
            gw_ok(*final(self)),
            gw_like(*final(self), *old(self)),
            gv(*final(self)) =~= gv(*old(self)),
            gw_weight(*final(self)) == gw_weight(*old(self)),
            forall|n: int| #[trigger] gw_room(*old(self), n) ==> gw_room(*final(self), n),
            final(self).last_time_map == old(self).last_time_map,
            r <= gw_weight(*old(self)),
@@entry
        hide(cw_ok);
        broadcast use axiom_order;
@@before 0
        let ghost ks = key_views(verif_keys0@);
        let ghost s = self.chunk_writers@;
@@loop 0
            invariant
                lists(ks, s.dom()),
                ks =~= key_views(verif_keys0@),
                ks == gw_order(*old(self)),
                s == old(self).chunk_writers@,
                gw_ok(*old(self)),
                gw_room(*old(self), 0),
                gw_like(*self, *old(self)),
                self.last_time_map == old(self).last_time_map,
                forall|m: Seq<char>| #[trigger] self.chunk_writers@.dom().contains(m) ==> cw_same(self.chunk_writers@[m], s[m]),
                0 <= buffer_size <= weights(s, ks.take(verif_i0 as int)),
                weights(s, ks) <= u32::MAX,
@@in 0
            proof {
                lemma_take(ks, verif_i0 as int);
                assert(ks[verif_i0 as int] == verif_key0@);
                assert(cw_same(self.chunk_writers@[verif_key0@], s[verif_key0@]));
                assert(writer_ok(s[verif_key0@], verif_key0@));
                assert(writer_room(s[verif_key0@], 0));
                lemma_weights_step(s, ks, verif_i0 as int);
                lemma_weights_nonneg(s, ks, verif_i0 as int + 1);
            }
@@after 0
        proof { lemma_take_all(ks); lemma_same(*old(self), *self); }
@@fn writer::group_writer::GroupWriter<'a>::flush_to_filewriter
@@ret r
        requires
            gw_ok(*old(self)),
            gw_room(*old(self), 0),
            io_ok(*old(file_writer)),
            old(file_writer).current_chunk_group_device_id is Some,
            old(file_writer).groups@.last().chunks =~= Seq::<Chunk>::empty(),
        ensures
            io_done(*old(file_writer), *final(file_writer), r is Ok),
            final(file_writer).current_chunk_group_device_id == old(file_writer).current_chunk_group_device_id,
            final(self).last_time_map == old(self).last_time_map,
            final(self).path == old(self).path,
            r is Ok ==> WriteSpec::out(&final(file_writer).out).len() == WriteSpec::out(&old(file_writer).out).len() + r->Ok_0,
            r is Ok ==> group_added(old(file_writer).groups@, final(file_writer).groups@, gv(*old(self))),
@@entry
        hide(cw_ok);
        hide(weight);
        hide(size_of_chunk);
        hide(holds_group);
        hide(io_ok);
        hide(chunk_ser);
        hide(gv);
        broadcast use axiom_order;
        let ghost g = file_writer.groups@;
        proof { lemma_io_len(*file_writer); }
@@post 0 self.seal_all_chunks()
        let ghost sealed = *self;
@@before 0
        let ghost ks = key_views(verif_keys0@);
        let ghost s = self.chunk_writers@;
        let ghost w0 = *self;
        proof { lemma_alike(sealed, w0); }
@@loop 0
            invariant
                lists(ks, s.dom()),
                ks =~= key_views(verif_keys0@),
                ks == order_of::<&'a str>(s.dom()),
                s == w0.chunk_writers@,
                gw_ok(w0),
                gw_room(w0, 0),
                all_closed(s),
                g == old(file_writer).groups@,
                g.len() > 0,
                g.last().chunks =~= Seq::<Chunk>::empty(),
                self.path == old(self).path,
                self.last_time_map == old(self).last_time_map,
                self.chunk_writers@.dom() =~= s.dom(),
                forall|m: Seq<char>| #[trigger] s.dom().contains(m) && !ks.take(verif_i0 as int).contains(m) ==> self.chunk_writers@[m] == s[m],
                io_ok(*file_writer),
                io_like(*old(file_writer), *file_writer),
                WriteSpec::failed(&file_writer.out) == WriteSpec::failed(&old(file_writer).out),
                file_writer.current_chunk_group_device_id == old(file_writer).current_chunk_group_device_id,
                file_writer.current_chunk_group_device_id is Some,
                file_writer.groups@ =~= with_chunks(g, chunks_of(s, ks.take(verif_i0 as int))),
                WriteSpec::out(&file_writer.out).len() == WriteSpec::out(&old(file_writer).out).len() + sizes(s, ks.take(verif_i0 as int)),
@@in 0
            let ghost fw0 = *file_writer;
            proof {
                lemma_take(ks, verif_i0 as int);
                assert(ks[verif_i0 as int] == verif_key0@);
                assert(self.chunk_writers@[verif_key0@] == s[verif_key0@]);
                assert(writer_ok(s[verif_key0@], verif_key0@));
                assert(writer_room(s[verif_key0@], 0));
                lemma_sizes_step(s, ks, verif_i0 as int);
                lemma_chunks_step(s, ks, verif_i0 as int);
            }
@@inend 0
            proof {
                lemma_flush_step(fw0.groups@, file_writer.groups@, g, s[verif_key0@], chunks_of(s, ks.take(verif_i0 as int)));
                lemma_io_len(fw0);
                lemma_io_len(*file_writer);
            }
@@after 0
        proof {
            lemma_take_all(ks);
            lemma_holds_group(*old(self), w0);
            assert(group_added(g, file_writer.groups@, gv(*old(self)))) by {
                assert(file_writer.groups@ == with_chunks(g, chunks_of(s, ks)));
            }
        }
