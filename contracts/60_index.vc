@@raw
/// the index of a file
pub mod index {
use vstd::prelude::*;
use crate::vspec::*;
use crate::writer::*;
use crate::writer::ts_file_config::TsFileConfig;
/// an index node: entries (name, offset), end offset, code of the node type
pub struct NodeV { pub kids: Seq<(Seq<char>, int)>, pub end: int, pub code: u8 }
pub open spec fn nv(n: MetadataIndexNode) -> NodeV {
    NodeV { kids: n.children@.map_values(|e: MetadataIndexEntry| (e.name@, e.offset as int)), end: n.end_offset as int, code: node_code(n.node_type) }
}
pub open spec fn nvs(q: Seq<MetadataIndexNode>) -> Seq<NodeV> { q.map_values(|n: MetadataIndexNode| nv(n)) }
pub open spec fn kids_ser(s: Seq<(Seq<char>, int)>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { kids_ser(s.drop_last()) + (str_ser(s.last().0) + be(s.last().1 as nat, 8)) }
}
pub open spec fn nodev_ser(v: NodeV) -> Seq<u8> { uvar(v.kids.len()) + kids_ser(v.kids) + be(v.end as nat, 8) + seq![v.code] }
pub proof fn lemma_kids(s: Seq<MetadataIndexEntry>)
    ensures entries_ser(s) =~= kids_ser(s.map_values(|e: MetadataIndexEntry| (e.name@, e.offset as int)))
    decreases s.len()
{
    if s.len() > 0 {
        lemma_kids(s.drop_last());
        assert(s.map_values(|e: MetadataIndexEntry| (e.name@, e.offset as int)).drop_last() =~= s.drop_last().map_values(|e: MetadataIndexEntry| (e.name@, e.offset as int)));
    }
}
pub proof fn lemma_node_ser(n: MetadataIndexNode)
    ensures node_ser(n) == nodev_ser(nv(n))
{ lemma_kids(n.children@); }
/// what an entry refers to: the name, and the bytes there
pub struct Block { pub name: Seq<char>, pub bytes: Seq<u8> }
pub open spec fn next_off(v: NodeV, i: int) -> int { if i + 1 < v.kids.len() { v.kids[i + 1].1 } else { v.end } }
pub open spec fn entry_at(out: Seq<u8>, v: NodeV, i: int, b: Block) -> bool {
    v.kids[i].0 == b.name && at(out, v.kids[i].1, b.bytes) && v.kids[i].1 + b.bytes.len() == next_off(v, i)
}
/// the entries of `v` refer to these blocks: each extends from its offset to the next one or the end offset
pub open spec fn covers(out: Seq<u8>, v: NodeV, bs: Seq<Block>) -> bool {
    v.kids.len() == bs.len() && forall|i: int| 0 <= i < bs.len() ==> entry_at(out, v, i, #[trigger] bs[i])
}
/// the kind of a tree: maximum number of children, codes of leaves and of inner nodes
pub struct TreeKind { pub deg: int, pub leaf: u8, pub inner: u8 }
pub open spec fn kind_of_index(t: MetadataIndexNodeType, c: TsFileConfig) -> TreeKind {
    match t {
        MetadataIndexNodeType::InternalMeasurement => TreeKind { deg: c.max_degree_of_index_node as int, leaf: 3, inner: 2 },
        _ => TreeKind { deg: c.max_degree_of_index_node as int, leaf: 1, inner: 0 },
    }
}
pub open spec fn inner_type(t: MetadataIndexNodeType) -> bool { t is InternalMeasurement || t is InternalDevice }
pub open spec fn index_config_ok(c: TsFileConfig) -> bool { 2 <= c.max_degree_of_index_node <= u32::MAX }
pub open spec fn first_name(s: NodeV) -> Seq<char> { s.kids[0].0 }
/// entries that refer to nodes
pub open spec fn level(subs: Seq<NodeV>) -> Seq<Block> { subs.map_values(|s: NodeV| Block { name: first_name(s), bytes: nodev_ser(s) }) }
pub open spec fn flat<A>(s: Seq<Seq<A>>) -> Seq<A> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() }
}
/// `v` is the root of a search tree for the blocks `bs`, with `h` inner levels
pub open spec fn tree(out: Seq<u8>, v: NodeV, bs: Seq<Block>, h: nat, k: TreeKind) -> bool decreases h {
    if h == 0 { leaf(out, v, bs, k) }
    else {
        exists|subs: Seq<NodeV>, parts: Seq<Seq<Block>>| {
            &&& #[trigger] shape(out, v, subs, parts, bs, k)
            &&& forall|i: int| 0 <= i < subs.len() ==> tree(out, #[trigger] subs[i], parts[i], (h - 1) as nat, k)
        }
    }
}
pub open spec fn leaf(out: Seq<u8>, v: NodeV, bs: Seq<Block>, k: TreeKind) -> bool {
    v.code == k.leaf && 1 <= bs.len() <= k.deg && covers(out, v, bs)
}
/// the node `v` refers to the nodes `subs`, which are for the blocks `parts`
pub open spec fn shape(out: Seq<u8>, v: NodeV, subs: Seq<NodeV>, parts: Seq<Seq<Block>>, bs: Seq<Block>, k: TreeKind) -> bool {
    &&& v.code == k.inner
    &&& 1 <= subs.len() <= k.deg
    &&& subs.len() == parts.len()
    &&& covers(out, v, level(subs))
    &&& flat(parts) == bs
}
/// trees of the same height
pub open spec fn forest(out: Seq<u8>, subs: Seq<NodeV>, parts: Seq<Seq<Block>>, h: nat, k: TreeKind) -> bool {
    subs.len() == parts.len() && forall|i: int| 0 <= i < subs.len() ==> tree(out, #[trigger] subs[i], parts[i], h, k)
}
pub proof fn lemma_branch(out: Seq<u8>, v: NodeV, subs: Seq<NodeV>, parts: Seq<Seq<Block>>, h: nat, k: TreeKind)
    requires
        v.code == k.inner,
        1 <= subs.len() <= k.deg,
        covers(out, v, level(subs)),
        forest(out, subs, parts, h, k),
    ensures tree(out, v, flat(parts), h + 1, k)
{
    assert(shape(out, v, subs, parts, flat(parts), k));
    assert((h + 1 - 1) as nat == h);
    assert(forall|i: int| 0 <= i < subs.len() ==> tree(out, #[trigger] subs[i], parts[i], (h + 1 - 1) as nat, k));
}
pub proof fn lemma_covers(a: Seq<u8>, b: Seq<u8>, v: NodeV, bs: Seq<Block>)
    requires covers(a, v, bs)
    ensures covers(a + b, v, bs)
{
    assert forall|i: int| 0 <= i < bs.len() implies entry_at(a + b, v, i, #[trigger] bs[i]) by {
        assert(entry_at(a, v, i, bs[i]));
        lemma_at(a, b, v.kids[i].1, bs[i].bytes);
    }
}
pub proof fn lemma_tree(a: Seq<u8>, b: Seq<u8>, v: NodeV, bs: Seq<Block>, h: nat, k: TreeKind)
    requires tree(a, v, bs, h, k)
    ensures tree(a + b, v, bs, h, k)
    decreases h
{
    if h == 0 { lemma_covers(a, b, v, bs); }
    else {
        let (subs, parts) = choose|subs: Seq<NodeV>, parts: Seq<Seq<Block>>| {
            &&& #[trigger] shape(a, v, subs, parts, bs, k)
            &&& forall|i: int| 0 <= i < subs.len() ==> tree(a, #[trigger] subs[i], parts[i], (h - 1) as nat, k)
        };
        lemma_covers(a, b, v, level(subs));
        assert(shape(a + b, v, subs, parts, bs, k));
        assert forall|i: int| 0 <= i < subs.len() implies tree(a + b, #[trigger] subs[i], parts[i], (h - 1) as nat, k) by {
            lemma_tree(a, b, subs[i], parts[i], (h - 1) as nat, k);
        }
    }
}
pub proof fn lemma_forest(a: Seq<u8>, b: Seq<u8>, subs: Seq<NodeV>, parts: Seq<Seq<Block>>, h: nat, k: TreeKind)
    requires forest(a, subs, parts, h, k)
    ensures forest(a + b, subs, parts, h, k)
{
    assert forall|i: int| 0 <= i < subs.len() implies tree(a + b, #[trigger] subs[i], parts[i], h, k) by { lemma_tree(a, b, subs[i], parts[i], h, k); }
}
/// a node can be serialised
pub open spec fn node_fits(n: NodeV) -> bool {
    &&& 1 <= n.kids.len() <= u32::MAX
    &&& forall|i: int| 0 <= i < n.kids.len() ==> str_ok((#[trigger] n.kids[i]).0)
}
pub open spec fn fits(q: Seq<NodeV>) -> bool { forall|i: int| 0 <= i < q.len() ==> node_fits(#[trigger] q[i]) }
/// a part of the metadata: an index node, or the metadata of a series
pub enum Piece { Node(NodeV), Series(Seq<u8>) }
pub open spec fn piece_ser(p: Piece) -> Seq<u8> { match p { Piece::Node(v) => nodev_ser(v), Piece::Series(s) => s } }
pub open spec fn pieces_ser(s: Seq<Piece>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { pieces_ser(s.drop_last()) + piece_ser(s.last()) }
}
/// `b` is `a` and parts of the metadata, if the operation has succeeded
pub open spec fn grew<W: std::io::Write>(a: W, b: W, ok: bool) -> bool {
    &&& b.wf()
    &&& b.whole() == a.whole()
    &&& b.id() == a.id()
    &&& ok ==> b.failed() == a.failed() && more(a.out(), b.out())
    &&& !ok ==> b.failed()
}
pub open spec fn more(a: Seq<u8>, b: Seq<u8>) -> bool { exists|ps: Seq<Piece>| b == a + #[trigger] pieces_ser(ps) }
pub proof fn lemma_more(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, p: Piece)
    requires more(a, b), c == b + piece_ser(p)
    ensures more(a, c)
{
    let ps = choose|ps: Seq<Piece>| b == a + #[trigger] pieces_ser(ps);
    assert(ps.push(p).drop_last() =~= ps);
    assert(c =~= a + pieces_ser(ps.push(p)));
}
pub proof fn lemma_more_none(a: Seq<u8>)
    ensures more(a, a)
{ assert(a =~= a + pieces_ser(Seq::empty())); }
pub proof fn lemma_pieces(a: Seq<Piece>, b: Seq<Piece>)
    ensures pieces_ser(a + b) =~= pieces_ser(a) + pieces_ser(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { lemma_pieces(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn lemma_more_more(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires more(a, b), more(b, c)
    ensures more(a, c), exists|w: Seq<u8>| c == #[trigger] (b + w)
{
    let ps = choose|ps: Seq<Piece>| b == a + #[trigger] pieces_ser(ps);
    let qs = choose|qs: Seq<Piece>| c == b + #[trigger] pieces_ser(qs);
    lemma_pieces(ps, qs);
    assert(c =~= a + pieces_ser(ps + qs));
    assert(c == b + pieces_ser(qs));
}
pub proof fn lemma_flat<A>(a: Seq<Seq<A>>, b: Seq<Seq<A>>)
    ensures flat(a + b) =~= flat(a) + flat(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { lemma_flat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn lemma_flat_push<A>(a: Seq<Seq<A>>, x: Seq<A>)
    ensures flat(a.push(x)) =~= flat(a) + x
{ assert(a.push(x).drop_last() =~= a); }
}
@@fn writer::MetadataIndexNode::new
@@ret r
        ensures r.children@.len() == 0, r.end_offset == 0, r.node_type == node_type,
@@fn writer::MetadataIndexNode::is_full
@@ret r
        ensures r == (self.children@.len() >= config.max_degree_of_index_node),
@@fn writer::MetadataIndexNode::add_current_index_node_to_queue
        requires
            (*old(file)).wf(),
        ensures
            (*final(file)).wf(),
            (*final(file)).whole() == (*old(file)).whole(),
            (*final(file)).id() == (*old(file)).id(),
            (*final(file)).failed() == (*old(file)).failed(),
            (*final(file)).out() == (*old(file)).out(),
            nv(*final(current_index_node)) == (NodeV { end: (*old(file)).out().len() as int, ..nv(*old(current_index_node)) }),
            final(current_index_node).node_type == old(current_index_node).node_type,
            final(measurement_metadata_index_queue)@ == old(measurement_metadata_index_queue)@.push(*final(current_index_node)),
@@fn writer::ts_file_config::TsFileConfig as Default::default
@@ret r
        ensures r.max_degree_of_index_node == 256, config_ok(r), index_config_ok(r),
@@raw
/// the index of a file: trees
pub mod trees {
use vstd::prelude::*;
use crate::vspec::*;
use crate::index::*;
use crate::writer::*;
/// what the entries of a node refer to
pub open spec fn blocks_of(out: Seq<u8>, v: NodeV) -> Seq<Block> {
    Seq::new(v.kids.len(), |i: int| Block { name: v.kids[i].0, bytes: out.subrange(v.kids[i].1, next_off(v, i)) })
}
pub open spec fn leaves(out: Seq<u8>, s: Seq<NodeV>) -> Seq<Seq<Block>> { s.map_values(|v: NodeV| blocks_of(out, v)) }
pub proof fn lemma_blocks_of(out: Seq<u8>, v: NodeV, bs: Seq<Block>)
    requires covers(out, v, bs)
    ensures bs =~= blocks_of(out, v)
{
    assert forall|i: int| 0 <= i < bs.len() implies bs[i] == blocks_of(out, v)[i] by { assert(entry_at(out, v, i, bs[i])); }
}
pub proof fn lemma_leaves(out: Seq<u8>, s: Seq<NodeV>, parts: Seq<Seq<Block>>, k: TreeKind)
    requires forest(out, s, parts, 0, k)
    ensures parts =~= leaves(out, s)
{
    assert forall|i: int| 0 <= i < s.len() implies parts[i] == leaves(out, s)[i] by {
        assert(tree(out, s[i], parts[i], 0, k));
        lemma_blocks_of(out, s[i], parts[i]);
    }
}
/// a node with the entries so far, ending here
pub open spec fn upto(out: Seq<u8>, v: NodeV) -> NodeV { NodeV { end: out.len() as int, ..v } }
pub open spec fn names_fit(v: NodeV) -> bool { forall|i: int| 0 <= i < v.kids.len() ==> str_ok((#[trigger] v.kids[i]).0) }
pub open spec fn push_kid(v: NodeV, name: Seq<char>, off: int) -> NodeV { NodeV { kids: v.kids.push((name, off)), ..v } }
pub proof fn lemma_covers_push(out: Seq<u8>, v: NodeV, bs: Seq<Block>, b: Block)
    requires covers(out, upto(out, v), bs), names_fit(v), str_ok(b.name)
    ensures
        covers(out + b.bytes, upto(out + b.bytes, push_kid(v, b.name, out.len() as int)), bs.push(b)),
        names_fit(push_kid(v, b.name, out.len() as int)),
{
    let o = out + b.bytes;
    let a = upto(out, v);
    let w = upto(o, push_kid(v, b.name, out.len() as int));
    assert forall|i: int| 0 <= i < bs.len() + 1 implies entry_at(o, w, i, #[trigger] bs.push(b)[i]) by {
        if i < bs.len() {
            assert(entry_at(out, a, i, bs[i]));
            lemma_at(out, b.bytes, a.kids[i].1, bs[i].bytes);
        } else {
            assert(o.subrange(out.len() as int, (out.len() + b.bytes.len()) as int) =~= b.bytes);
        }
    }
}
pub proof fn lemma_covers_none(out: Seq<u8>, code: u8)
    ensures covers(out, upto(out, NodeV { kids: Seq::empty(), end: 0, code }), Seq::empty()), names_fit(NodeV { kids: Seq::empty(), end: 0, code })
{}
pub proof fn lemma_forest_push(out: Seq<u8>, s: Seq<NodeV>, parts: Seq<Seq<Block>>, v: NodeV, bs: Seq<Block>, h: nat, k: TreeKind)
    requires forest(out, s, parts, h, k), tree(out, v, bs, h, k)
    ensures forest(out, s.push(v), parts.push(bs), h, k)
{}
/// building a level of the tree: the first `i` nodes of `q` are below `done` and, for the last ones, `cur`
pub ghost struct Work {
    pub q: Seq<NodeV>, pub parts: Seq<Seq<Block>>,
    pub done: Seq<NodeV>, pub dparts: Seq<Seq<Block>>,
    pub subs: Seq<NodeV>, pub cparts: Seq<Seq<Block>>,
}
pub open spec fn work_ok(w: Work, out: Seq<u8>, i: int, cur: NodeV, h: nat, k: TreeKind) -> bool {
    &&& 0 <= i <= w.q.len()
    &&& forest(out, w.q, w.parts, h, k)
    &&& fits(w.q)
    &&& forest(out, w.done, w.dparts, h + 1, k)
    &&& fits(w.done)
    &&& forest(out, w.subs, w.cparts, h, k)
    &&& w.subs.len() <= k.deg
    &&& covers(out, upto(out, cur), level(w.subs))
    &&& names_fit(cur)
    &&& cur.code == k.inner
    &&& i == w.done.len() * k.deg + w.subs.len()
    &&& flat(w.dparts) + flat(w.cparts) == flat(w.parts.take(i))
}
pub proof fn lemma_work_start(q: Seq<NodeV>, parts: Seq<Seq<Block>>, out: Seq<u8>, cur: NodeV, h: nat, k: TreeKind)
    requires forest(out, q, parts, h, k), fits(q), cur.kids.len() == 0, cur.code == k.inner, 0 <= k.deg
    ensures work_ok(Work { q, parts, done: Seq::empty(), dparts: Seq::empty(), subs: Seq::empty(), cparts: Seq::empty() }, out, 0, cur, h, k)
{
    assert(parts.take(0) =~= Seq::<Seq<Block>>::empty());
    assert(flat(Seq::<Seq<Block>>::empty()) + flat(Seq::<Seq<Block>>::empty()) =~= flat(Seq::<Seq<Block>>::empty()));
    assert(0 * k.deg == 0) by (nonlinear_arith);
    assert(covers(out, upto(out, cur), level(Seq::<NodeV>::empty())));
}
/// the node is full or was the last
pub proof fn lemma_work_close(w: Work, out: Seq<u8>, i: int, cur: NodeV, h: nat, k: TreeKind, next: NodeV) -> (r: Work)
    requires
        work_ok(w, out, i, cur, h, k), w.subs.len() >= 1, w.subs.len() == k.deg || i == w.q.len(),
        next.kids.len() == 0, next.code == k.inner, k.deg <= u32::MAX,
    ensures
        r.q == w.q, r.parts == w.parts,
        r.done == w.done.push(upto(out, cur)),
        r.dparts == w.dparts.push(flat(w.cparts)),
        r.subs.len() == 0,
        forest(out, r.done, r.dparts, h + 1, k),
        fits(r.done),
        flat(r.dparts) == flat(w.parts.take(i)),
        w.subs.len() == k.deg ==> work_ok(r, out, i, next, h, k),
{
    let r = Work { done: w.done.push(upto(out, cur)), dparts: w.dparts.push(flat(w.cparts)), subs: Seq::empty(), cparts: Seq::empty(), ..w };
    lemma_branch(out, upto(out, cur), w.subs, w.cparts, h, k);
    lemma_forest_push(out, w.done, w.dparts, upto(out, cur), flat(w.cparts), h + 1, k);
    lemma_flat_push(w.dparts, flat(w.cparts));
    assert(flat(r.dparts) =~= flat(w.parts.take(i)));
    assert(flat(r.cparts) =~= Seq::<Block>::empty());
    assert(flat(r.dparts) + flat(r.cparts) =~= flat(r.dparts));
    assert(level(w.subs).len() == w.subs.len());
    assert(node_fits(upto(out, cur)));
    if w.subs.len() == k.deg {
        assert((w.done.len() + 1) * k.deg == w.done.len() * k.deg + k.deg) by (nonlinear_arith);
        assert(covers(out, upto(out, next), level(Seq::<NodeV>::empty())));
    }
    r
}
/// the next node is written
pub proof fn lemma_work_step(w: Work, out: Seq<u8>, i: int, cur: NodeV, h: nat, k: TreeKind) -> (r: Work)
    requires work_ok(w, out, i, cur, h, k), i < w.q.len(), w.subs.len() < k.deg
    ensures
        r == (Work { subs: w.subs.push(w.q[i]), cparts: w.cparts.push(w.parts[i]), ..w }),
        work_ok(r, out + nodev_ser(w.q[i]), i + 1, push_kid(cur, first_name(w.q[i]), out.len() as int), h, k),
{
    let s = w.q[i];
    let b = Block { name: first_name(s), bytes: nodev_ser(s) };
    let r = Work { subs: w.subs.push(s), cparts: w.cparts.push(w.parts[i]), ..w };
    assert(node_fits(s));
    assert(level(r.subs) =~= level(w.subs).push(b));
    lemma_covers_push(out, cur, level(w.subs), b);
    lemma_forest(out, b.bytes, w.q, w.parts, h, k);
    lemma_forest(out, b.bytes, w.done, w.dparts, h + 1, k);
    lemma_forest(out, b.bytes, w.subs, w.cparts, h, k);
    assert(tree(out + b.bytes, w.q[i], w.parts[i], h, k));
    lemma_forest_push(out + b.bytes, w.subs, w.cparts, s, w.parts[i], h, k);
    lemma_flat_push(w.cparts, w.parts[i]);
    assert(w.parts.take(i + 1) =~= w.parts.take(i).push(w.parts[i]));
    lemma_flat_push(w.parts.take(i), w.parts[i]);
    assert(flat(r.dparts) + flat(r.cparts) =~= flat(r.parts.take(i + 1)));
    r
}
pub proof fn lemma_shrinks(n: int, d: int, s: int, deg: int)
    requires n >= 2, n == d * deg + s, 1 <= s <= deg, deg >= 2, d >= 0
    ensures d + 1 < n
{
    assert(d * deg >= d * 2) by (nonlinear_arith) requires d >= 0, deg >= 2;
}
pub proof fn lemma_node_ok(n: MetadataIndexNode)
    requires node_fits(nv(n))
    ensures node_ok(n), node_ser(n) == nodev_ser(nv(n)), n.children@.len() >= 1, n.children@[0].name@ == first_name(nv(n))
{
    lemma_node_ser(n);
    assert forall|i: int| 0 <= i < n.children@.len() implies str_ok(#[trigger] n.children@[i].name@) by { assert(str_ok(nv(n).kids[i].0)); }
}
pub broadcast proof fn lemma_nvs_push(q: Seq<MetadataIndexNode>, x: MetadataIndexNode)
    ensures #[trigger] nvs(q.push(x)) == nvs(q).push(nv(x))
{ assert(nvs(q.push(x)) =~= nvs(q).push(nv(x))); }
pub proof fn lemma_nvs_first(q: Seq<MetadataIndexNode>, n: Seq<NodeV>, i: int, d: Seq<NodeV>)
    requires nvs(q) == n.skip(i) + d, 0 <= i < n.len()
    ensures q.len() > 0, nv(q[0]) == n[i], nvs(q.remove(0)) =~= n.skip(i + 1) + d
{
    assert(nvs(q).len() == q.len());
    assert(nvs(q)[0] == nv(q[0]));
    assert((n.skip(i) + d)[0] == n[i]);
    assert(nvs(q.remove(0)) =~= nvs(q).skip(1));
    assert((n.skip(i) + d).skip(1) =~= n.skip(i + 1) + d);
}
pub open spec fn one_tree(out: Seq<u8>, v: NodeV, bs: Seq<Block>, k: TreeKind) -> bool { exists|h: nat| #[trigger] tree(out, v, bs, h, k) }
}
@@fn writer::MetadataIndexNode::generate_root_node
@@ret r
        requires
            (*old(file)).wf(),
            inner_type(node_type),
            index_config_ok(*config),
            measurement_metadata_index_queue@.len() > 0,
            fits(nvs(measurement_metadata_index_queue@)),
            nvs(measurement_metadata_index_queue@).last().end == (*old(file)).out().len(),
            forest((*old(file)).out(), nvs(measurement_metadata_index_queue@), leaves((*old(file)).out(), nvs(measurement_metadata_index_queue@)), 0, kind_of_index(node_type, *config)),
        ensures
            grew(*old(file), *final(file), r is Ok),
            r is Ok ==> node_fits(nv(r->Ok_0)) && nv(r->Ok_0).end == (*final(file)).out().len(),
            r is Ok ==> one_tree((*final(file)).out(), nv(r->Ok_0), flat(leaves((*old(file)).out(), nvs(measurement_metadata_index_queue@))), kind_of_index(node_type, *config)),
@@entry
    let ghost k = kind_of_index(node_type, *config);
    let ghost out0 = (*file).out();
    let ghost mut h: nat = 0;
    let ghost mut parts = leaves(out0, nvs(measurement_metadata_index_queue@));
    let ghost bs = flat(parts);
    let ghost mut wk: Work;
    let ghost mut n0: Seq<NodeV>;
    proof { lemma_more_none(out0); }
@@loop 0
        invariant
            k == kind_of_index(node_type, *config),
            inner_type(node_type),
            index_config_ok(*config),
            out0 == (*old(file)).out(),
            grew(*old(file), *file, true),
            current_index_metadata.children@.len() == 0,
            current_index_metadata.node_type == node_type,
            queue_size == measurement_metadata_index_queue@.len(),
            queue_size > 0,
            fits(nvs(measurement_metadata_index_queue@)),
            nvs(measurement_metadata_index_queue@).last().end == (*file).out().len(),
            forest((*file).out(), nvs(measurement_metadata_index_queue@), parts, h, k),
            flat(parts) == bs,
        ensures
            queue_size == 1,
        decreases queue_size
@@in 0
        proof {
            n0 = nvs(measurement_metadata_index_queue@);
            wk = Work { q: n0, parts, done: Seq::empty(), dparts: Seq::empty(), subs: Seq::empty(), cparts: Seq::empty() };
            lemma_work_start(n0, parts, (*file).out(), nv(current_index_metadata), h, k);
            assert(nvs(measurement_metadata_index_queue@) =~= n0.skip(0) + wk.done);
        }
@@loop 1
        invariant
            k == kind_of_index(node_type, *config),
            inner_type(node_type),
            index_config_ok(*config),
            out0 == (*old(file)).out(),
            grew(*old(file), *file, true),
            current_index_metadata.node_type == node_type,
            queue_size == n0.len(),
            wk.q == n0,
            wk.parts == parts,
            nvs(measurement_metadata_index_queue@) == n0.skip(i as int) + wk.done,
            work_ok(wk, (*file).out(), i as int, nv(current_index_metadata), h, k),
            i > 0 ==> wk.subs.len() > 0,
@@in 1
        let ghost cur = nv(current_index_metadata);
        let ghost full = cur.kids.len() >= k.deg;
        let ghost cur2 = if full { NodeV { kids: Seq::empty(), end: 0, code: k.inner } } else { cur };
        let ghost out1 = (*file).out();
        let ghost done = wk.done;
        let ghost q1 = measurement_metadata_index_queue@;
        proof {
            lemma_nvs_first(measurement_metadata_index_queue@, n0, i as int, wk.done);
            assert(node_fits(n0[i as int]));
            lemma_node_ok(measurement_metadata_index_queue@[0]);
            assert(level(wk.subs).len() == wk.subs.len());
            if full { wk = lemma_work_close(wk, out1, i as int, cur, h, k, cur2); }
            wk = lemma_work_step(wk, out1, i as int, cur2, h, k);
            lemma_more(out0, out1, out1 + nodev_ser(n0[i as int]), Piece::Node(n0[i as int]));
        }
@@inend 1
        proof {
            assert(nv(current_index_metadata) =~= push_kid(cur2, first_name(n0[i as int]), out1.len() as int)) by {
                assert(nv(current_index_metadata).kids =~= cur2.kids.push((first_name(n0[i as int]), out1.len() as int)));
            }
            let q = measurement_metadata_index_queue@;
            if full {
                assert(q == q1.remove(0).push(q.last()));
                assert(nv(q.last()) == upto(out1, cur)) by { assert(nv(q.last()).kids =~= cur.kids); }
                assert(nvs(q) =~= nvs(q1.remove(0)).push(nv(q.last())));
            } else {
                assert(q == q1.remove(0));
            }
            assert(nvs(q) =~= n0.skip(i + 1) + wk.done);
        }
@@after 1
        proof {
            let d = wk.done.len() as int;
            lemma_shrinks(n0.len() as int, d, wk.subs.len() as int, k.deg);
            wk = lemma_work_close(wk, (*file).out(), n0.len() as int, nv(current_index_metadata), h, k, NodeV { kids: Seq::empty(), end: 0, code: k.inner });
            assert(parts.take(n0.len() as int) =~= parts);
            assert(n0.skip(n0.len() as int) =~= Seq::<NodeV>::empty());
        }
@@inend 0
        proof {
            assert(nvs(measurement_metadata_index_queue@) =~= wk.done);
            h = h + 1;
            parts = wk.dparts;
        }
@@after 0
        proof {
            let q = nvs(measurement_metadata_index_queue@);
            assert(node_fits(q[0]));
            assert(tree((*file).out(), q[0], parts[0], h, k));
            assert(parts =~= Seq::<Seq<Block>>::empty().push(parts[0]));
            lemma_flat_push(Seq::<Seq<Block>>::empty(), parts[0]);
            assert(flat(parts) =~= parts[0]);
            assert(q[0] == nv(measurement_metadata_index_queue@[0]));
        }
@@raw
/// the metadata of series
pub mod series {
use vstd::prelude::*;
use crate::vspec::*;
use crate::index::*;
use crate::trees::*;
use crate::writer::*;
use crate::writer::ts_file_config::TsFileConfig;
/// type, name, type code, number of bytes of the chunks' metadata, statistics, the chunks' metadata
pub open spec fn ts_ser(t: TimeSeriesMetadata) -> Seq<u8> {
    seq![t.time_series_metadata_type] + str_ser(t.measurement_id@) + seq![type_code(t.data_type)]
        + uvar(t.chunk_meta_data_list_data_size as nat) + stat_ser(t.statistics) + t.buffer@
}
pub open spec fn list_of(v: Vec<Box<TimeSeriesMetadata>>) -> Seq<Block> { v@.map_values(|t: Box<TimeSeriesMetadata>| Block { name: t.measurement_id@, bytes: ts_ser(*t) }) }
pub open spec fn all_ts_ok(v: Vec<Box<TimeSeriesMetadata>>) -> bool { forall|i: int| 0 <= i < v@.len() ==> ts_ok(*#[trigger] v@[i]) }
/// series in groups of `deg`, each with the name of its first
pub open spec fn grouped(s: Seq<Block>, deg: int) -> Seq<Block> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let g = grouped(s.drop_last(), deg);
        if (s.len() - 1) % deg == 0 { g.push(s.last()) } else { grow_last(g, s.last().bytes) }
    }
}
pub open spec fn grow_last(g: Seq<Block>, more: Seq<u8>) -> Seq<Block> {
    g.drop_last().push(Block { name: g.last().name, bytes: g.last().bytes + more })
}
/// building the leaves
pub ghost struct Leaves { pub done: Seq<NodeV>, pub dparts: Seq<Seq<Block>>, pub cbs: Seq<Block> }
pub open spec fn leaves_ok(w: Leaves, out: Seq<u8>, cur: NodeV, k: TreeKind) -> bool {
    &&& forest(out, w.done, w.dparts, 0, k)
    &&& fits(w.done)
    &&& covers(out, upto(out, cur), w.cbs)
    &&& names_fit(cur)
    &&& cur.code == k.leaf
    &&& w.cbs.len() <= k.deg
    &&& 2 <= k.deg <= u32::MAX
}
pub open spec fn all_blocks(w: Leaves) -> Seq<Block> { flat(w.dparts) + w.cbs }
pub open spec fn no_leaves() -> Leaves { Leaves { done: Seq::empty(), dparts: Seq::empty(), cbs: Seq::empty() } }
pub proof fn lemma_no_leaves(out: Seq<u8>, cur: NodeV, k: TreeKind)
    requires cur.kids.len() == 0, cur.code == k.leaf, 2 <= k.deg <= u32::MAX
    ensures leaves_ok(no_leaves(), out, cur, k), all_blocks(no_leaves()) =~= Seq::<Block>::empty()
{}
pub proof fn lemma_leaf_close(w: Leaves, out: Seq<u8>, cur: NodeV, k: TreeKind, next: NodeV) -> (r: Leaves)
    requires leaves_ok(w, out, cur, k), w.cbs.len() >= 1, next.kids.len() == 0, next.code == k.leaf
    ensures
        r.done == w.done.push(upto(out, cur)),
        r.cbs.len() == 0,
        leaves_ok(r, out, next, k),
        all_blocks(r) == all_blocks(w),
        flat(r.dparts) == all_blocks(w),
        forest(out, r.done, leaves(out, r.done), 0, k),
        flat(leaves(out, r.done)) == all_blocks(w),
{
    let r = Leaves { done: w.done.push(upto(out, cur)), dparts: w.dparts.push(w.cbs), cbs: Seq::empty() };
    assert(tree(out, upto(out, cur), w.cbs, 0, k));
    lemma_forest_push(out, w.done, w.dparts, upto(out, cur), w.cbs, 0, k);
    lemma_flat_push(w.dparts, w.cbs);
    assert(all_blocks(r) =~= all_blocks(w));
    assert(flat(r.dparts) =~= all_blocks(w));
    assert(node_fits(upto(out, cur)));
    lemma_leaves(out, r.done, r.dparts, k);
    r
}
pub proof fn lemma_leaf_push(w: Leaves, out: Seq<u8>, cur: NodeV, k: TreeKind, b: Block) -> (r: Leaves)
    requires leaves_ok(w, out, cur, k), w.cbs.len() < k.deg, str_ok(b.name)
    ensures
        r.done == w.done,
        r.cbs.len() == w.cbs.len() + 1,
        leaves_ok(r, out + b.bytes, push_kid(cur, b.name, out.len() as int), k),
        all_blocks(r) == all_blocks(w).push(b),
{
    let r = Leaves { cbs: w.cbs.push(b), ..w };
    lemma_covers_push(out, cur, w.cbs, b);
    lemma_forest(out, b.bytes, w.done, w.dparts, 0, k);
    assert(all_blocks(r) =~= all_blocks(w).push(b));
    r
}
pub proof fn lemma_leaf_extend(w: Leaves, out: Seq<u8>, cur: NodeV, k: TreeKind, s: Seq<u8>) -> (r: Leaves)
    requires leaves_ok(w, out, cur, k), w.cbs.len() >= 1
    ensures
        r.done == w.done,
        r.cbs.len() == w.cbs.len(),
        leaves_ok(r, out + s, cur, k),
        all_blocks(r) == grow_last(all_blocks(w), s),
{
    let r = Leaves { cbs: grow_last(w.cbs, s), ..w };
    let n = w.cbs.len() - 1;
    let o = out + s;
    lemma_forest(out, s, w.done, w.dparts, 0, k);
    assert(entry_at(out, upto(out, cur), n, w.cbs[n]));
    let p = cur.kids[n].1;
    assert(o.subrange(p, (p + w.cbs[n].bytes.len() + s.len()) as int) =~= w.cbs[n].bytes + s);
    assert forall|i: int| 0 <= i < r.cbs.len() implies entry_at(o, upto(o, cur), i, #[trigger] r.cbs[i]) by {
        assert(entry_at(out, upto(out, cur), i, w.cbs[i]));
        lemma_at(out, s, cur.kids[i].1, w.cbs[i].bytes);
    }
    assert(all_blocks(r) =~= grow_last(all_blocks(w), s)) by {
        assert(all_blocks(w).last() == w.cbs.last());
    }
    r
}
/// for each device a tree with its series
pub open spec fn device_root(out: Seq<u8>, v: Vec<Box<TimeSeriesMetadata>>, root: NodeV, c: TsFileConfig) -> bool {
    node_fits(root) && one_tree(out, root, grouped(list_of(v), c.max_degree_of_index_node as int), kind_of_index(MetadataIndexNodeType::InternalMeasurement, c))
}
pub open spec fn device_roots(out: Seq<u8>, m: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>>, roots: Map<Seq<char>, NodeV>, c: TsFileConfig) -> bool {
    forall|d: Seq<char>| #[trigger] roots.dom().contains(d) ==> m.dom().contains(d) && device_root(out, m[d], roots[d], c)
}
pub proof fn lemma_device_roots(a: Seq<u8>, b: Seq<u8>, m: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>>, roots: Map<Seq<char>, NodeV>, c: TsFileConfig)
    requires device_roots(a, m, roots, c), exists|w: Seq<u8>| b == #[trigger] (a + w)
    ensures device_roots(b, m, roots, c)
{
    let w = choose|w: Seq<u8>| b == #[trigger] (a + w);
    assert forall|d: Seq<char>| #[trigger] roots.dom().contains(d) implies m.dom().contains(d) && device_root(b, m[d], roots[d], c) by {
        let k = kind_of_index(MetadataIndexNodeType::InternalMeasurement, c);
        let g = grouped(list_of(m[d]), c.max_degree_of_index_node as int);
        let h = choose|h: nat| #[trigger] tree(a, roots[d], g, h, k);
        lemma_tree(a, w, roots[d], g, h, k);
    }
}
pub open spec fn dev_blocks(ds: Seq<Seq<char>>, roots: Map<Seq<char>, NodeV>) -> Seq<Block> {
    ds.map_values(|d: Seq<char>| Block { name: d, bytes: nodev_ser(roots[d]) })
}
pub open spec fn node_views(m: Map<Seq<char>, MetadataIndexNode>) -> Map<Seq<char>, NodeV> { m.map_values(|n: MetadataIndexNode| nv(n)) }
pub open spec fn has_series(m: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>>, d: Seq<char>) -> bool { m.dom().contains(d) && m[d]@.len() > 0 }
/// `v` is the index of all devices, `roots` the indexes of the devices' series
pub open spec fn device_index(out: Seq<u8>, v: NodeV, m: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>>, roots: Map<Seq<char>, NodeV>, c: TsFileConfig) -> bool {
    &&& forall|d: Seq<char>| #[trigger] roots.dom().contains(d) <==> has_series(m, d)
    &&& device_roots(out, m, roots, c)
    &&& v.end == out.len()
    &&& names_fit(v)
    &&& v.kids.len() <= u32::MAX
    &&& if roots.dom().len() == 0 { v.kids.len() == 0 && v.code == 1 }
        else { one_tree(out, v, dev_blocks(order_of::<String>(roots.dom()), roots), kind_of_index(MetadataIndexNodeType::InternalDevice, c)) }
}
pub open spec fn indexed(out: Seq<u8>, v: NodeV, m: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>>, c: TsFileConfig) -> bool {
    exists|roots: Map<Seq<char>, NodeV>| #[trigger] device_index(out, v, m, roots, c)
}
pub open spec fn index_ok(m: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>>) -> bool {
    forall|d: Seq<char>| #[trigger] m.dom().contains(d) ==> str_ok(d) && all_ts_ok(m[d])
}
/// the first `n` devices that have series
pub open spec fn dev_done(m: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>>, ks: Seq<Seq<char>>, n: int, got: Set<Seq<char>>) -> bool {
    forall|d: Seq<char>| #[trigger] got.contains(d) <==> has_series(m, d) && ks.take(n).contains(d)
}
pub proof fn lemma_dev_done(m: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>>, ks: Seq<Seq<char>>, n: int, a: Set<Seq<char>>, b: Set<Seq<char>>)
    requires dev_done(m, ks, n, a), 0 <= n < ks.len(), if has_series(m, ks[n]) { b == a.insert(ks[n]) } else { b == a }
    ensures dev_done(m, ks, n + 1, b)
{
    assert(ks.take(n + 1) =~= ks.take(n).push(ks[n]));
    assert forall|d: Seq<char>| ks.take(n + 1).contains(d) <==> ks.take(n).contains(d) || d == ks[n] by {
        if ks.take(n).contains(d) {
            let i = choose|i: int| 0 <= i < n && ks.take(n)[i] == d;
            assert(ks.take(n + 1)[i] == d);
        }
        assert(ks.take(n + 1)[n] == ks[n]);
    }
    assert forall|d: Seq<char>| #[trigger] b.contains(d) <==> has_series(m, d) && ks.take(n + 1).contains(d) by {
        assert(a.contains(d) <==> has_series(m, d) && ks.take(n).contains(d));
        assert(ks.take(n + 1).contains(d) <==> ks.take(n).contains(d) || d == ks[n]);
    }
}
pub open spec fn all_done(m: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>>, got: Set<Seq<char>>) -> bool {
    &&& forall|d: Seq<char>| #[trigger] got.contains(d) <==> has_series(m, d)
    &&& order_of::<String>(got).len() == got.len()
    &&& lists(order_of::<String>(got), got)
}
/// one more device
pub proof fn lemma_root_added(a: Seq<u8>, b: Seq<u8>, m: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>>, x: Map<Seq<char>, MetadataIndexNode>, d: Seq<char>, n: MetadataIndexNode, c: TsFileConfig)
    requires
        device_roots(a, m, node_views(x), c), exists|w: Seq<u8>| b == #[trigger] (a + w),
        m.dom().contains(d), device_root(b, m[d], nv(n), c),
    ensures device_roots(b, m, node_views(x.insert(d, n)), c)
{
    lemma_device_roots(a, b, m, node_views(x), c);
    assert(node_views(x.insert(d, n)) =~= node_views(x).insert(d, nv(n)));
}
pub proof fn lemma_all_done(m: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>>, ks: Seq<Seq<char>>, got: Set<Seq<char>>)
    requires dev_done(m, ks, ks.len() as int, got), lists(ks, m.dom())
    ensures all_done(m, got)
{
    broadcast use axiom_order;
    assert(ks.take(ks.len() as int) =~= ks);
    let o = order_of::<String>(got);
    o.unique_seq_to_set();
    assert(o.to_set() =~= got);
}
pub proof fn lemma_dev_blocks(ds: Seq<Seq<char>>, n: int, roots: Map<Seq<char>, NodeV>)
    requires 0 <= n < ds.len()
    ensures dev_blocks(ds.take(n + 1), roots) =~= dev_blocks(ds.take(n), roots).push(Block { name: ds[n], bytes: nodev_ser(roots[ds[n]]) })
{}
pub open spec fn ts_ok(t: TimeSeriesMetadata) -> bool { str_ok(t.measurement_id@) && t.chunk_meta_data_list_data_size <= u32::MAX }
}
@@impl writer::TimeSeriesMetadatable
    spec fn series(&self) -> Block;
    spec fn series_ok(&self) -> bool;
@@fn writer::TimeSeriesMetadatable::get_measurement_id
@@ret r
        ensures r@ == self.series().name,
@@fn writer::TimeSeriesMetadatable::serialize
@@ret r
        requires
            (*old(file)).wf(),
            self.series_ok(),
        ensures
            wrote(*old(file), *final(file), r is Ok, self.series().bytes),
@@impl writer::TimeSeriesMetadata as TimeSeriesMetadatable
    open spec fn series(&self) -> Block { Block { name: self.measurement_id@, bytes: ts_ser(*self) } }
    open spec fn series_ok(&self) -> bool { ts_ok(*self) }
@@fn writer::TimeSeriesMetadata as TimeSeriesMetadatable::get_measurement_id
@@ret r
@@fn writer::TimeSeriesMetadata as TimeSeriesMetadatable::serialize
@@ret r
@@fn writer::MetadataIndexNode::construct_metadata_index
@@wrap 0 verif_vec
@@wrap 2 verif_vec
@@wrap 3 verif_vec
@@ret r
        requires
            (*old(file)).wf(),
            index_config_ok(*config),
            index_ok(device_timeseries_metadata_map@),
        ensures
            grew(*old(file), *final(file), r is Ok),
            r is Ok ==> indexed((*final(file)).out(), nv(r->Ok_0), device_timeseries_metadata_map@, *config),
@@entry
    let ghost m = device_timeseries_metadata_map@;
    let ghost km = kind_of_index(MetadataIndexNodeType::InternalMeasurement, *config);
    let ghost kd = kind_of_index(MetadataIndexNodeType::InternalDevice, *config);
    let ghost deg = config.max_degree_of_index_node as int;
    let ghost out0 = (*file).out();
    let ghost mut w: Leaves = no_leaves();
    proof { lemma_more_none(out0); }
@@iter 0 it
@@loop 0
        invariant
            m == device_timeseries_metadata_map@,
            km == kind_of_index(MetadataIndexNodeType::InternalMeasurement, *config),
            deg == config.max_degree_of_index_node,
            out0 == (*old(file)).out(),
            index_config_ok(*config),
            index_ok(m),
            ref_items(m, it.seq()),
            grew(*old(file), *file, true),
            device_roots((*file).out(), m, node_views(device_metadata_index_map@), *config),
            dev_done(m, kviews2(it.seq()), it.index@, device_metadata_index_map@.dom()),
@@in 0
        broadcast use lemma_nvs_push;
        let ghost out1 = (*file).out();
        let ghost map1 = device_metadata_index_map@;
        let ghost mut out3 = out1;
        proof { lemma_more_none(out1); }
@@loop 1
        invariant
            m == device_timeseries_metadata_map@,
            km == kind_of_index(MetadataIndexNodeType::InternalMeasurement, *config),
            deg == config.max_degree_of_index_node,
            index_config_ok(*config),
            all_ts_ok(*list_metadata),
            grew(*old(file), *file, true),
            more(out1, (*file).out()),
            out0 == (*old(file)).out(),
            current_index_node.node_type is LeafMeasurement,
            leaves_ok(w, (*file).out(), nv(current_index_node), km),
            all_blocks(w) == grouped(list_of(*list_metadata).take(i as int), deg),
            i > 0 ==> w.cbs.len() > 0,
            nvs(measurement_metadata_index_queue@) == w.done,
@@before 1
        let ghost list = list_of(*list_metadata);
        proof {
            w = no_leaves();
            lemma_no_leaves(out1, nv(current_index_node), km);
            assert(list.take(0) =~= Seq::<Block>::empty());
            assert(nvs(measurement_metadata_index_queue@) =~= Seq::<NodeV>::empty());
        }
@@in 1
        broadcast use lemma_nvs_push;
        let ghost cur = nv(current_index_node);
        let ghost out2 = (*file).out();
        let ghost full = cur.kids.len() >= deg;
        let ghost cur2 = if full { NodeV { kids: Seq::empty(), end: 0, code: 3 } } else { cur };
        let ghost b = list_of(*list_metadata)[i as int];
        proof {
            let l = list_of(*list_metadata);
            assert(l.take(i + 1).drop_last() =~= l.take(i as int));
            assert(ts_ok(*list_metadata@[i as int]));
            if i as int % deg == 0 {
                if full { w = lemma_leaf_close(w, out2, cur, km, cur2); }
                w = lemma_leaf_push(w, out2, cur2, km, b);
            } else {
                w = lemma_leaf_extend(w, out2, cur, km, b.bytes);
            }
            lemma_more(out0, out2, out2 + b.bytes, Piece::Series(b.bytes));
            lemma_more(out1, out2, out2 + b.bytes, Piece::Series(b.bytes));
        }
@@inend 1
        proof {
            if i as int % deg == 0 {
                assert(nv(current_index_node).kids =~= cur2.kids.push((b.name, out2.len() as int)));
            }
        }
@@after 1
        proof {
            assert(list.take(list.len() as int) =~= list);
            w = lemma_leaf_close(w, (*file).out(), nv(current_index_node), km, NodeV { kids: Seq::empty(), end: 0, code: 3 });
            out3 = (*file).out();
        }
@@inend 0
        proof {
            let d = device@;
            let ks = kviews2(it.seq());
            assert(ks[it.index@] == d);
            let out4 = (*file).out();
            if list_metadata@.len() > 0 {
                lemma_more_more(out0, out3, out4);
                lemma_more_more(out1, out3, out4);
                lemma_root_added(out1, out4, m, map1, d, device_metadata_index_map@[d], *config);
            }
            lemma_dev_done(m, ks, it.index@, map1.dom(), device_metadata_index_map@.dom());
        }
@@after 0
    let ghost dm = device_metadata_index_map@;
    let ghost roots = node_views(dm);
    let ghost ds = order_of::<String>(dm.dom());
    proof {
        assert(roots.dom() =~= dm.dom());
        assert forall|ks: Seq<Seq<char>>, n: int| #[trigger] dev_done(m, ks, n, dm.dom()) && n == ks.len() && lists(ks, m.dom()) implies all_done(m, dm.dom()) by {
            lemma_all_done(m, ks, dm.dom());
        }
    }
@@before 2
        proof {
            w = no_leaves();
            lemma_no_leaves((*file).out(), nv(metadata_index_node), kd);
            assert(dev_blocks(ds.take(0), roots) =~= Seq::<Block>::empty());
        }
@@iter 2 it
@@loop 2
        invariant
            m == device_timeseries_metadata_map@,
            kd == kind_of_index(MetadataIndexNodeType::InternalDevice, *config),
            deg == config.max_degree_of_index_node,
            index_config_ok(*config),
            index_ok(m),
            out0 == (*old(file)).out(),
            grew(*old(file), *file, true),
            roots == node_views(dm),
            ds.len() <= deg,
            own_items(dm, it.seq()),
            kviews(it.seq()) == ds,
            device_roots((*file).out(), m, roots, *config),
            metadata_index_node.node_type is LeafDevice,
            leaves_ok(w, (*file).out(), nv(metadata_index_node), kd),
            all_blocks(w) == dev_blocks(ds.take(it.index@), roots),
            w.done.len() == 0,
            w.cbs.len() == it.index@,
@@in 2
        let ghost cur = nv(metadata_index_node);
        let ghost out2 = (*file).out();
        let ghost b = Block { name: s@, bytes: nodev_ser(nv(value)) };
        proof {
            assert(kviews(it.seq())[it.index@] == s@);
            assert(roots.dom().contains(s@));
            assert(device_root(out2, m[s@], roots[s@], *config));
            lemma_node_ok(value);
            w = lemma_leaf_push(w, out2, cur, kd, b);
            lemma_more(out0, out2, out2 + b.bytes, Piece::Node(nv(value)));
            lemma_device_roots(out2, out2 + b.bytes, m, roots, *config);
            lemma_dev_blocks(ds, it.index@, roots);
        }
@@inend 2
        proof {
            assert(nv(metadata_index_node).kids =~= cur.kids.push((b.name, out2.len() as int)));
        }
@@after 2
        proof {
            let out = (*file).out();
            let v = upto(out, nv(metadata_index_node));
            assert(ds.take(ds.len() as int) =~= ds);
            assert(w.dparts.len() == 0);
            assert(all_blocks(w) =~= w.cbs);
            if ds.len() > 0 { assert(tree(out, v, w.cbs, 0, kd)); }
            assert(device_index(out, v, m, roots, *config));
        }
@@before 3
        broadcast use lemma_nvs_push;
        proof {
            w = no_leaves();
            lemma_no_leaves((*file).out(), nv(current_index_node), kd);
            assert(dev_blocks(ds.take(0), roots) =~= Seq::<Block>::empty());
            assert(nvs(device_metadata_index_queue@) =~= Seq::<NodeV>::empty());
        }
@@iter 3 it
@@loop 3
        invariant
            m == device_timeseries_metadata_map@,
            kd == kind_of_index(MetadataIndexNodeType::InternalDevice, *config),
            deg == config.max_degree_of_index_node,
            index_config_ok(*config),
            index_ok(m),
            out0 == (*old(file)).out(),
            grew(*old(file), *file, true),
            roots == node_views(dm),
            own_items(dm, it.seq()),
            kviews(it.seq()) == ds,
            device_roots((*file).out(), m, roots, *config),
            current_index_node.node_type is LeafDevice,
            leaves_ok(w, (*file).out(), nv(current_index_node), kd),
            all_blocks(w) == dev_blocks(ds.take(it.index@), roots),
            it.index@ > 0 ==> w.cbs.len() > 0,
            nvs(device_metadata_index_queue@) == w.done,
@@in 3
        broadcast use lemma_nvs_push;
        let ghost cur = nv(current_index_node);
        let ghost out2 = (*file).out();
        let ghost b = Block { name: device@, bytes: nodev_ser(nv(node)) };
        let ghost full = cur.kids.len() >= deg;
        let ghost cur2 = if full { NodeV { kids: Seq::empty(), end: 0, code: 1 } } else { cur };
        proof {
            assert(kviews(it.seq())[it.index@] == device@);
            assert(roots.dom().contains(device@));
            assert(device_root(out2, m[device@], roots[device@], *config));
            lemma_node_ok(node);
            if full { w = lemma_leaf_close(w, out2, cur, kd, cur2); }
            w = lemma_leaf_push(w, out2, cur2, kd, b);
            lemma_more(out0, out2, out2 + b.bytes, Piece::Node(nv(node)));
            lemma_device_roots(out2, out2 + b.bytes, m, roots, *config);
            lemma_dev_blocks(ds, it.index@, roots);
        }
@@inend 3
        proof {
            assert(nv(current_index_node).kids =~= cur2.kids.push((b.name, out2.len() as int)));
        }
@@after 3
        let ghost out3 = (*file).out();
        proof {
            assert(ds.take(ds.len() as int) =~= ds);
            w = lemma_leaf_close(w, out3, nv(current_index_node), kd, NodeV { kids: Seq::empty(), end: 0, code: 1 });
        }
@@exit
        proof {
            let out = (*file).out();
            lemma_more_more(out0, out3, out);
            lemma_more_none(out3);
            lemma_more_more(out3, out3, out);
            lemma_device_roots(out3, out, m, roots, *config);
            assert(device_index(out, nv(root_node), m, roots, *config));
        }
