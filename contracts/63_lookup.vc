@@raw
/// finding series through the index, the way readers do
pub mod lookup {
use vstd::prelude::*;
use crate::vspec::*;
use crate::index::*;
use crate::trees::*;
// ---------------------------------------------------------------- what readers do
pub open spec fn name_le(a: Seq<char>, b: Seq<char>) -> bool { a == b || str_lt(a, b) }
/// names strictly sorted: what binary search needs
pub open spec fn kids_sorted(v: NodeV) -> bool { forall|i: int, j: int| 0 <= i < j < v.kids.len() ==> str_lt((#[trigger] v.kids[i]).0, (#[trigger] v.kids[j]).0) }
/// binary search: the last entry that is not greater than `x`
pub open spec fn chosen(v: NodeV, x: Seq<char>, i: int) -> bool {
    &&& kids_sorted(v)
    &&& 0 <= i < v.kids.len()
    &&& name_le(v.kids[i].0, x)
    &&& i + 1 < v.kids.len() ==> str_lt(x, v.kids[i + 1].0)
}
/// the bytes that an entry stands for: up to the next entry's offset or the end offset
pub open spec fn slice(out: Seq<u8>, v: NodeV, i: int) -> Seq<u8> { out.subrange(v.kids[i].1, next_off(v, i)) }
/// a node as it can be in a file
pub open spec fn readable(v: NodeV) -> bool {
    &&& v.kids.len() <= u32::MAX
    &&& 0 <= v.end < 0x1_0000_0000_0000_0000
    &&& forall|i: int| 0 <= i < v.kids.len() ==> kid_readable(#[trigger] v.kids[i])
}
pub open spec fn kid_readable(e: (Seq<char>, int)) -> bool { str_ok(e.0) && 0 <= e.1 < 0x1_0000_0000_0000_0000 }
/// from node `v`, a search for `x` arrives at entry `b` of a leaf, `h` nodes below
pub open spec fn reaches(out: Seq<u8>, v: NodeV, x: Seq<char>, h: nat, leaf: u8, b: Block) -> bool decreases h {
    if h == 0 { v.code == leaf && exists|i: int| #[trigger] chosen(v, x, i) && b == (Block { name: v.kids[i].0, bytes: slice(out, v, i) }) }
    else { v.code != leaf && exists|i: int, w: NodeV| #[trigger] step(out, v, x, i, w) && reaches(out, w, x, (h - 1) as nat, leaf, b) }
}
/// the node that the search goes on with
pub open spec fn step(out: Seq<u8>, v: NodeV, x: Seq<char>, i: int, w: NodeV) -> bool { chosen(v, x, i) && readable(w) && slice(out, v, i) == nodev_ser(w) }
// ---------------------------------------------------------------- blocks
pub open spec fn named(bs: Seq<Block>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < bs.len() ==> str_lt((#[trigger] bs[i]).name, (#[trigger] bs[j]).name)
    &&& forall|i: int| 0 <= i < bs.len() ==> str_ok((#[trigger] bs[i]).name)
}
/// the last block whose name is not greater than `x`
pub open spec fn is_last(bs: Seq<Block>, x: Seq<char>, p: int) -> bool {
    0 <= p < bs.len() && name_le(bs[p].name, x) && (p + 1 < bs.len() ==> str_lt(x, bs[p + 1].name))
}
pub proof fn lemma_str_lt(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures
        !str_lt(a, a),
        str_lt(a, b) ==> a != b && !str_lt(b, a),
        str_lt(a, b) && str_lt(b, c) ==> str_lt(a, c),
{ lemma_bytes_lt(sbytes(a), sbytes(b), sbytes(c)); }
pub proof fn lemma_one_last(bs: Seq<Block>, x: Seq<char>, p: int, q: int)
    requires named(bs), is_last(bs, x, p), is_last(bs, x, q)
    ensures p == q
{
    if p < q { lemma_between(bs, x, p, q); }
    if q < p { lemma_between(bs, x, q, p); }
}
pub proof fn lemma_between(bs: Seq<Block>, x: Seq<char>, p: int, q: int)
    requires named(bs), is_last(bs, x, p), is_last(bs, x, q), p < q
    ensures false
{
    // bs[p + 1] <= bs[q] <= x < bs[p + 1]
    let n = bs[p + 1].name;
    if p + 1 < q { assert(str_lt(bs[p + 1].name, bs[q].name)); }
    lemma_str_lt(n, bs[q].name, x);
    lemma_str_lt(x, n, x);
}
pub proof fn lemma_one_chosen(v: NodeV, x: Seq<char>, i: int, j: int)
    requires chosen(v, x, i), chosen(v, x, j)
    ensures i == j
{
    if i < j { lemma_chosen_between(v, x, i, j); }
    if j < i { lemma_chosen_between(v, x, j, i); }
}
pub proof fn lemma_chosen_between(v: NodeV, x: Seq<char>, p: int, q: int)
    requires chosen(v, x, p), chosen(v, x, q), p < q
    ensures false
{
    let n = v.kids[p + 1].0;
    if p + 1 < q { assert(str_lt(v.kids[p + 1].0, v.kids[q].0)); }
    lemma_str_lt(n, v.kids[q].0, x);
    lemma_str_lt(x, n, x);
}
/// where the parts begin
pub open spec fn start<A>(parts: Seq<Seq<A>>, i: int) -> int { flat(parts.take(i)).len() as int }
pub proof fn lemma_start<A>(parts: Seq<Seq<A>>, i: int)
    requires 0 <= i < parts.len()
    ensures start(parts, i + 1) == start(parts, i) + parts[i].len(), start(parts, 0) == 0
{
    assert(parts.take(i + 1) =~= parts.take(i).push(parts[i]));
    lemma_flat_push(parts.take(i), parts[i]);
    assert(parts.take(0) =~= Seq::<Seq<A>>::empty());
}
pub proof fn lemma_flat_at<A>(parts: Seq<Seq<A>>, i: int, q: int)
    requires 0 <= i < parts.len(), 0 <= q < parts[i].len()
    ensures start(parts, i) + q < flat(parts).len(), flat(parts)[start(parts, i) + q] == parts[i][q]
    decreases parts.len()
{
    let t = parts.drop_last();
    if i == parts.len() - 1 { assert(parts.take(i) =~= t); }
    else {
        lemma_flat_at(t, i, q);
        assert(t.take(i) =~= parts.take(i));
    }
}
/// each position is in a part
pub proof fn lemma_flat_part<A>(parts: Seq<Seq<A>>, p: int) -> (r: (int, int))
    requires 0 <= p < flat(parts).len()
    ensures 0 <= r.0 < parts.len(), 0 <= r.1 < parts[r.0].len(), p == start(parts, r.0) + r.1, flat(parts)[p] == parts[r.0][r.1]
    decreases parts.len()
{
    let t = parts.drop_last();
    if p >= flat(t).len() {
        assert(parts.take(parts.len() - 1) =~= t);
        (parts.len() - 1, p - flat(t).len())
    } else {
        let r = lemma_flat_part(t, p);
        assert(t.take(r.0) =~= parts.take(r.0));
        r
    }
}
pub proof fn lemma_start_mono<A>(parts: Seq<Seq<A>>, i: int, j: int)
    requires 0 <= i <= j <= parts.len()
    ensures start(parts, i) <= start(parts, j), start(parts, parts.len() as int) == flat(parts).len()
    decreases j - i
{
    assert(parts.take(parts.len() as int) =~= parts);
    if i < j { lemma_start_mono(parts, i, j - 1); lemma_start(parts, j - 1); }
}
/// parts of sorted blocks are sorted
pub proof fn lemma_part_named(parts: Seq<Seq<Block>>, bs: Seq<Block>, i: int)
    requires flat(parts) == bs, named(bs), 0 <= i < parts.len()
    ensures named(parts[i])
{
    let s = start(parts, i);
    let p = parts[i];
    lemma_start(parts, i);
    lemma_start_mono(parts, i, i);
    assert forall|a: int, b: int| 0 <= a < b < p.len() implies str_lt((#[trigger] p[a]).name, (#[trigger] p[b]).name) by {
        lemma_flat_at(parts, i, a);
        lemma_flat_at(parts, i, b);
        assert(str_lt(bs[s + a].name, bs[s + b].name));
    }
    assert forall|a: int| 0 <= a < p.len() implies str_ok((#[trigger] p[a]).name) by {
        lemma_flat_at(parts, i, a);
        assert(str_ok(bs[s + a].name));
    }
}
/// a node has the name of its first block, its entries are sorted, and it can be read
pub open spec fn node_good(v: NodeV, bs: Seq<Block>) -> bool {
    bs.len() > 0 && v.kids.len() > 0 && first_name(v) == bs[0].name && kids_sorted(v) && readable(v)
}
pub proof fn lemma_tree_node(out: Seq<u8>, v: NodeV, bs: Seq<Block>, h: nat, k: TreeKind)
    requires tree(out, v, bs, h, k), named(bs), 2 <= k.deg <= u32::MAX, out.len() <= i64::MAX
    ensures node_good(v, bs)
    decreases h
{
    hide(shape);
    hide(leaf);
    hide(node_good);
    if h == 0 { lemma_leaf_node(out, v, bs, k); }
    else {
        let (subs, parts) = choose|subs: Seq<NodeV>, parts: Seq<Seq<Block>>| {
            &&& #[trigger] shape(out, v, subs, parts, bs, k)
            &&& forall|i: int| 0 <= i < subs.len() ==> tree(out, #[trigger] subs[i], parts[i], (h - 1) as nat, k)
        };
        lemma_shape_parts(out, v, subs, parts, bs, k);
        assert forall|i: int| 0 <= i < subs.len() implies node_good(#[trigger] subs[i], parts[i]) by {
            assert(tree(out, subs[i], parts[i], (h - 1) as nat, k));
            lemma_part_named(parts, bs, i);
            lemma_tree_node(out, subs[i], parts[i], (h - 1) as nat, k);
        }
        lemma_inner_node(out, v, subs, parts, bs, k);
    }
}
pub proof fn lemma_shape_parts(out: Seq<u8>, v: NodeV, subs: Seq<NodeV>, parts: Seq<Seq<Block>>, bs: Seq<Block>, k: TreeKind)
    requires shape(out, v, subs, parts, bs, k)
    ensures subs.len() == parts.len(), flat(parts) == bs, v.kids.len() == subs.len(), 1 <= subs.len() <= k.deg, v.code == k.inner
{}
pub proof fn lemma_leaf_node(out: Seq<u8>, v: NodeV, bs: Seq<Block>, k: TreeKind)
    requires leaf(out, v, bs, k), named(bs), 2 <= k.deg <= u32::MAX, out.len() <= i64::MAX
    ensures node_good(v, bs)
{
    lemma_end(out, v, bs);
    assert forall|i: int| 0 <= i < v.kids.len() implies kid_good(out, v, bs, #[trigger] v.kids[i], i) by {
        assert(entry_at(out, v, i, bs[i]));
        assert(str_ok(bs[i].name));
    }
    assert(kid_good(out, v, bs, v.kids[v.kids.len() - 1], v.kids.len() - 1));
    assert(kid_good(out, v, bs, v.kids[0], 0));
    assert forall|i: int| 0 <= i < v.kids.len() implies kid_readable(#[trigger] v.kids[i]) by { assert(kid_good(out, v, bs, v.kids[i], i)); }
    assert forall|i: int, j: int| 0 <= i < j < v.kids.len() implies str_lt((#[trigger] v.kids[i]).0, (#[trigger] v.kids[j]).0) by {
        assert(kid_good(out, v, bs, v.kids[i], i));
        assert(kid_good(out, v, bs, v.kids[j], j));
        assert(str_lt(bs[i].name, bs[j].name));
    }
}
pub open spec fn kid_good(out: Seq<u8>, v: NodeV, bs: Seq<Block>, e: (Seq<char>, int), p: int) -> bool {
    kid_readable(e) && 0 <= p < bs.len() && e.0 == bs[p].name && 0 <= v.end <= out.len()
}
pub proof fn lemma_end(out: Seq<u8>, v: NodeV, bs: Seq<Block>)
    requires covers(out, v, bs), bs.len() > 0
    ensures 0 <= v.end <= out.len()
{
    assert(entry_at(out, v, bs.len() - 1, bs[bs.len() - 1]));
}
pub proof fn lemma_inner_node(out: Seq<u8>, v: NodeV, subs: Seq<NodeV>, parts: Seq<Seq<Block>>, bs: Seq<Block>, k: TreeKind)
    requires
        shape(out, v, subs, parts, bs, k), named(bs), k.deg <= u32::MAX, out.len() <= i64::MAX,
        forall|i: int| 0 <= i < subs.len() ==> node_good(#[trigger] subs[i], parts[i]),
    ensures node_good(v, bs)
{
    lemma_end(out, v, level(subs));
    assert forall|i: int| 0 <= i < v.kids.len() implies kid_good(out, v, bs, #[trigger] v.kids[i], start(parts, i)) by {
        assert(node_good(subs[i], parts[i]));
        assert(entry_at(out, v, i, level(subs)[i]));
        lemma_flat_at(parts, i, 0);
        lemma_part_named(parts, bs, i);
        assert(str_ok(parts[i][0].name));
        lemma_start_mono(parts, 0, i);
        lemma_start(parts, 0);
    }
    assert(kid_good(out, v, bs, v.kids[0], start(parts, 0)));
    lemma_start(parts, 0);
    assert forall|i: int| 0 <= i < v.kids.len() implies kid_readable(#[trigger] v.kids[i]) by { assert(kid_good(out, v, bs, v.kids[i], start(parts, i))); }
    assert forall|i: int, j: int| 0 <= i < j < v.kids.len() implies str_lt((#[trigger] v.kids[i]).0, (#[trigger] v.kids[j]).0) by {
        assert(kid_good(out, v, bs, v.kids[i], start(parts, i)));
        assert(kid_good(out, v, bs, v.kids[j], start(parts, j)));
        assert(node_good(subs[i], parts[i]));
        lemma_start(parts, i);
        lemma_start_mono(parts, i + 1, j);
        assert(str_lt(bs[start(parts, i)].name, bs[start(parts, j)].name));
    }
}
/// where the search goes at an inner node
pub proof fn lemma_branch_chosen(out: Seq<u8>, v: NodeV, subs: Seq<NodeV>, parts: Seq<Seq<Block>>, bs: Seq<Block>, h: nat, k: TreeKind, x: Seq<char>, p: int) -> (r: (int, int))
    requires
        shape(out, v, subs, parts, bs, k), forest(out, subs, parts, h, k), tree(out, v, bs, h + 1, k),
        named(bs), is_last(bs, x, p), 2 <= k.deg <= u32::MAX, out.len() <= i64::MAX,
    ensures
        0 <= r.0 < subs.len(), chosen(v, x, r.0), slice(out, v, r.0) == nodev_ser(subs[r.0]), readable(subs[r.0]),
        named(parts[r.0]), is_last(parts[r.0], x, r.1), parts[r.0][r.1] == bs[p],
{
    lemma_tree_node(out, v, bs, h + 1, k);
    let (i, q) = lemma_flat_part(parts, p);
    lemma_part_named(parts, bs, i);
    assert(tree(out, subs[i], parts[i], h, k));
    lemma_tree_node(out, subs[i], parts[i], h, k);
    lemma_flat_at(parts, i, 0);
    assert(entry_at(out, v, i, level(subs)[i]));
    // the first name of the part is not greater than that of block p
    if q > 0 { assert(str_lt(parts[i][0].name, parts[i][q].name)); lemma_str_lt(parts[i][0].name, bs[p].name, x); }
    assert(name_le(v.kids[i].0, x));
    lemma_start(parts, i);
    if i + 1 < v.kids.len() {
        lemma_part_named(parts, bs, i + 1);
        assert(tree(out, subs[i + 1], parts[i + 1], h, k));
        lemma_tree_node(out, subs[i + 1], parts[i + 1], h, k);
        lemma_flat_at(parts, i + 1, 0);
        assert(entry_at(out, v, i + 1, level(subs)[i + 1]));
        let n = start(parts, i + 1);
        assert(v.kids[i + 1].0 == bs[n].name);
        if p + 1 < n { assert(str_lt(bs[p + 1].name, bs[n].name)); lemma_str_lt(x, bs[p + 1].name, bs[n].name); }
    }
    if q + 1 < parts[i].len() { lemma_flat_at(parts, i, q + 1); }
    (i, q)
}
/// the search arrives at the block it has to
pub proof fn lemma_reaches(out: Seq<u8>, v: NodeV, bs: Seq<Block>, h: nat, k: TreeKind, x: Seq<char>, p: int)
    requires tree(out, v, bs, h, k), named(bs), is_last(bs, x, p), 2 <= k.deg <= u32::MAX, out.len() <= i64::MAX, k.leaf != k.inner
    ensures reaches(out, v, x, h, k.leaf, bs[p])
    decreases h
{
    lemma_tree_node(out, v, bs, h, k);
    if h == 0 {
        assert(entry_at(out, v, p, bs[p]));
        if p + 1 < bs.len() { assert(entry_at(out, v, p + 1, bs[p + 1])); }
        assert(chosen(v, x, p));
        assert(bs[p] == (Block { name: v.kids[p].0, bytes: slice(out, v, p) }));
    } else {
        let (subs, parts) = choose|subs: Seq<NodeV>, parts: Seq<Seq<Block>>| {
            &&& #[trigger] shape(out, v, subs, parts, bs, k)
            &&& forall|i: int| 0 <= i < subs.len() ==> tree(out, #[trigger] subs[i], parts[i], (h - 1) as nat, k)
        };
        let (i, q) = lemma_branch_chosen(out, v, subs, parts, bs, (h - 1) as nat, k, x, p);
        assert(tree(out, subs[i], parts[i], (h - 1) as nat, k));
        lemma_reaches(out, subs[i], parts[i], (h - 1) as nat, k, x, q);
        assert(step(out, v, x, i, subs[i]));
    }
}
/// .. and at no other
pub proof fn lemma_reaches_only(out: Seq<u8>, v: NodeV, bs: Seq<Block>, h: nat, k: TreeKind, x: Seq<char>, g: nat, b: Block) -> (p: int)
    requires tree(out, v, bs, h, k), named(bs), 2 <= k.deg <= u32::MAX, out.len() <= i64::MAX, k.leaf != k.inner, reaches(out, v, x, g, k.leaf, b)
    ensures is_last(bs, x, p), b == bs[p]
    decreases h
{
    hide(shape);
    hide(leaf);
    hide(node_good);
    hide(step);
    hide(chosen);
    hide(is_last);
    if h == 0 { lemma_reaches_leaf(out, v, bs, k, x, g, b) }
    else {
        let (subs, parts) = choose|subs: Seq<NodeV>, parts: Seq<Seq<Block>>| {
            &&& #[trigger] shape(out, v, subs, parts, bs, k)
            &&& forall|i: int| 0 <= i < subs.len() ==> tree(out, #[trigger] subs[i], parts[i], (h - 1) as nat, k)
        };
        lemma_shape_parts(out, v, subs, parts, bs, k);
        assert(forest(out, subs, parts, (h - 1) as nat, k));
        assert(g > 0);
        let (i, w) = choose|i: int, w: NodeV| #[trigger] step(out, v, x, i, w) && reaches(out, w, x, (g - 1) as nat, k.leaf, b);
        lemma_step_sub(out, v, subs, parts, bs, (h - 1) as nat, k, x, i, w);
        let q = lemma_reaches_only(out, subs[i], parts[i], (h - 1) as nat, k, x, (g - 1) as nat, b);
        lemma_last_of_part(out, v, subs, parts, bs, (h - 1) as nat, k, x, i, q);
        start(parts, i) + q
    }
}
pub proof fn lemma_reaches_leaf(out: Seq<u8>, v: NodeV, bs: Seq<Block>, k: TreeKind, x: Seq<char>, g: nat, b: Block) -> (p: int)
    requires leaf(out, v, bs, k), named(bs), 2 <= k.deg <= u32::MAX, out.len() <= i64::MAX, k.leaf != k.inner, reaches(out, v, x, g, k.leaf, b)
    ensures is_last(bs, x, p), b == bs[p]
{
    let i = choose|i: int| #[trigger] chosen(v, x, i) && b == (Block { name: v.kids[i].0, bytes: slice(out, v, i) });
    assert(chosen(v, x, i));
    assert(entry_at(out, v, i, bs[i]));
    if i + 1 < bs.len() { assert(entry_at(out, v, i + 1, bs[i + 1])); }
    i
}
pub proof fn lemma_step_sub(out: Seq<u8>, v: NodeV, subs: Seq<NodeV>, parts: Seq<Seq<Block>>, bs: Seq<Block>, h: nat, k: TreeKind, x: Seq<char>, i: int, w: NodeV)
    requires
        shape(out, v, subs, parts, bs, k), forest(out, subs, parts, h, k), named(bs), 2 <= k.deg <= u32::MAX, out.len() <= i64::MAX,
        step(out, v, x, i, w),
    ensures 0 <= i < subs.len(), w == subs[i], tree(out, subs[i], parts[i], h, k), named(parts[i]), chosen(v, x, i)
{
    hide(tree);
    assert(entry_at(out, v, i, level(subs)[i]));
    assert(tree(out, subs[i], parts[i], h, k));
    lemma_part_named(parts, bs, i);
    lemma_tree_node(out, subs[i], parts[i], h, k);
    lemma_node_inj(w, subs[i]);
}
pub proof fn lemma_last_of_part(out: Seq<u8>, v: NodeV, subs: Seq<NodeV>, parts: Seq<Seq<Block>>, bs: Seq<Block>, h: nat, k: TreeKind, x: Seq<char>, i: int, q: int)
    requires
        shape(out, v, subs, parts, bs, k), forest(out, subs, parts, h, k), named(bs), 2 <= k.deg <= u32::MAX, out.len() <= i64::MAX,
        chosen(v, x, i), is_last(parts[i], x, q),
    ensures is_last(bs, x, start(parts, i) + q), bs[start(parts, i) + q] == parts[i][q]
{
    hide(tree);
    hide(kids_sorted);
    lemma_flat_at(parts, i, q);
    lemma_start(parts, i);
    let p = start(parts, i) + q;
    lemma_start_mono(parts, 0, i);
    lemma_start(parts, 0);
    if q + 1 < parts[i].len() { lemma_flat_at(parts, i, q + 1); }
    else if p + 1 < bs.len() {
        if i + 1 == parts.len() { assert(parts.take(i + 1) =~= parts); }
        lemma_start_mono(parts, i + 1, parts.len() as int);
        assert(tree(out, subs[i + 1], parts[i + 1], h, k));
        lemma_part_named(parts, bs, i + 1);
        lemma_tree_node(out, subs[i + 1], parts[i + 1], h, k);
        assert(entry_at(out, v, i + 1, level(subs)[i + 1]));
        lemma_flat_at(parts, i + 1, 0);
        assert(bs[p + 1].name == v.kids[i + 1].0);
    }
}
// ---------------------------------------------------------------- what is read is what was written
pub proof fn lemma_cat_inj(a: Seq<u8>, x: Seq<u8>, b: Seq<u8>, y: Seq<u8>)
    requires a + x == b + y, a.len() == b.len()
    ensures a == b, x == y
{
    assert((a + x).subrange(0, a.len() as int) =~= a);
    assert((b + y).subrange(0, b.len() as int) =~= b);
    assert((a + x).skip(a.len() as int) =~= x);
    assert((b + y).skip(b.len() as int) =~= y);
}
pub proof fn lemma_uvar_inj(a: nat, x: Seq<u8>, b: nat, y: Seq<u8>)
    requires uvar(a) + x == uvar(b) + y
    ensures a == b, x == y
    decreases a
{
    let s = uvar(a) + x;
    let t = uvar(b) + y;
    assert(s[0] == t[0]);
    if a < 128 {
        assert(s[0] == a as u8);
        if b >= 128 { assert(t[0] == (b % 128 + 128) as u8); }
        lemma_cat_inj(uvar(a), x, uvar(b), y);
    } else {
        assert(s[0] == (a % 128 + 128) as u8);
        if b < 128 { assert(t[0] == b as u8); }
        assert(t[0] == (b % 128 + 128) as u8);
        let u = uvar(a / 128) + x;
        let w = uvar(b / 128) + y;
        assert(s =~= seq![(a % 128 + 128) as u8] + u);
        assert(t =~= seq![(b % 128 + 128) as u8] + w);
        lemma_cat_inj(seq![(a % 128 + 128) as u8], u, seq![(b % 128 + 128) as u8], w);
        lemma_uvar_inj(a / 128, x, b / 128, y);
        assert(a == (a / 128) * 128 + a % 128);
        assert(b == (b / 128) * 128 + b % 128);
    }
}
pub proof fn lemma_str_inj(a: Seq<char>, x: Seq<u8>, b: Seq<char>, y: Seq<u8>)
    requires str_ser(a) + x == str_ser(b) + y, str_ok(a), str_ok(b)
    ensures a == b, x == y
{
    let m = sbytes(a).len() as i32;
    let n = sbytes(b).len() as i32;
    assert(str_ser(a) + x =~= uvar(zig(m)) + (sbytes(a) + x));
    assert(str_ser(b) + y =~= uvar(zig(n)) + (sbytes(b) + y));
    lemma_uvar_inj(zig(m), sbytes(a) + x, zig(n), sbytes(b) + y);
    lemma_cat_inj(sbytes(a), x, sbytes(b), y);
    lemma_sbytes_inj(a, b);
}
pub proof fn lemma_sbytes_inj(a: Seq<char>, b: Seq<char>)
    requires sbytes(a) == sbytes(b)
    ensures a == b
{
    vstd::utf8::encode_utf8_decode_utf8(a);
    vstd::utf8::encode_utf8_decode_utf8(b);
}
pub proof fn lemma_be_inj(a: nat, x: Seq<u8>, b: nat, y: Seq<u8>)
    requires be(a, 8) + x == be(b, 8) + y, a < 0x1_0000_0000_0000_0000, b < 0x1_0000_0000_0000_0000
    ensures a == b, x == y
{
    broadcast use be_len;
    lemma_p256();
    lemma_cat_inj(be(a, 8), x, be(b, 8), y);
    lemma_from_be(a, 8);
    lemma_from_be(b, 8);
}
pub open spec fn kid_ser(e: (Seq<char>, int)) -> Seq<u8> { str_ser(e.0) + be(e.1 as nat, 8) }
pub proof fn lemma_kids_first(s: Seq<(Seq<char>, int)>)
    requires s.len() > 0
    ensures kids_ser(s) =~= kid_ser(s[0]) + kids_ser(s.skip(1))
    decreases s.len()
{
    if s.len() > 1 {
        lemma_kids_first(s.drop_last());
        assert(s.skip(1).drop_last() =~= s.drop_last().skip(1));
    } else {
        assert(s.drop_last() =~= Seq::<(Seq<char>, int)>::empty());
        assert(s.skip(1) =~= Seq::<(Seq<char>, int)>::empty());
        assert(kids_ser(s.drop_last()) =~= Seq::<u8>::empty());
        assert(kids_ser(s.skip(1)) =~= Seq::<u8>::empty());
    }
}
pub proof fn lemma_kids_inj(a: Seq<(Seq<char>, int)>, x: Seq<u8>, b: Seq<(Seq<char>, int)>, y: Seq<u8>)
    requires
        kids_ser(a) + x == kids_ser(b) + y, a.len() == b.len(),
        forall|i: int| 0 <= i < a.len() ==> kid_readable(#[trigger] a[i]),
        forall|i: int| 0 <= i < b.len() ==> kid_readable(#[trigger] b[i]),
    ensures a == b, x == y
    decreases a.len()
{
    if a.len() == 0 {
        assert(a =~= b);
        assert(kids_ser(a) + x =~= x);
        assert(kids_ser(b) + y =~= y);
    } else {
        lemma_kids_first(a);
        lemma_kids_first(b);
        let u = kids_ser(a.skip(1)) + x;
        let w = kids_ser(b.skip(1)) + y;
        assert(kid_readable(a[0]) && kid_readable(b[0]));
        assert(kids_ser(a) + x =~= str_ser(a[0].0) + (be(a[0].1 as nat, 8) + u));
        assert(kids_ser(b) + y =~= str_ser(b[0].0) + (be(b[0].1 as nat, 8) + w));
        lemma_str_inj(a[0].0, be(a[0].1 as nat, 8) + u, b[0].0, be(b[0].1 as nat, 8) + w);
        lemma_be_inj(a[0].1 as nat, u, b[0].1 as nat, w);
        assert forall|i: int| 0 <= i < a.len() - 1 implies kid_readable(#[trigger] a.skip(1)[i]) && kid_readable(b.skip(1)[i]) by { assert(kid_readable(a[i + 1]) && kid_readable(b[i + 1])); }
        assert forall|i: int| 0 <= i < b.len() - 1 implies kid_readable(#[trigger] b.skip(1)[i]) by { assert(kid_readable(b[i + 1])); }
        lemma_kids_inj(a.skip(1), x, b.skip(1), y);
        assert(a =~= seq![a[0]] + a.skip(1));
        assert(b =~= seq![b[0]] + b.skip(1));
    }
}
/// a node's bytes determine the node
pub proof fn lemma_node_prefix(a: NodeV, x: Seq<u8>, b: NodeV, y: Seq<u8>)
    requires nodev_ser(a) + x == nodev_ser(b) + y, readable(a), readable(b)
    ensures a == b, x == y
{
    let u = be(a.end as nat, 8) + (seq![a.code] + x);
    let w = be(b.end as nat, 8) + (seq![b.code] + y);
    assert(nodev_ser(a) + x =~= uvar(a.kids.len()) + (kids_ser(a.kids) + u));
    assert(nodev_ser(b) + y =~= uvar(b.kids.len()) + (kids_ser(b.kids) + w));
    lemma_uvar_inj(a.kids.len(), kids_ser(a.kids) + u, b.kids.len(), kids_ser(b.kids) + w);
    lemma_kids_inj(a.kids, u, b.kids, w);
    lemma_be_inj(a.end as nat, seq![a.code] + x, b.end as nat, seq![b.code] + y);
    lemma_cat_inj(seq![a.code], x, seq![b.code], y);
    assert(seq![a.code][0] == seq![b.code][0]);
}
pub proof fn lemma_node_inj(a: NodeV, b: NodeV)
    requires nodev_ser(a) == nodev_ser(b), readable(a), readable(b)
    ensures a == b
{
    let e = Seq::<u8>::empty();
    assert(nodev_ser(a) + e =~= nodev_ser(b) + e);
    lemma_node_prefix(a, e, b, e);
}
}
