@@raw
/// what a reader finds in a file
pub mod reading {
use vstd::prelude::*;
use crate::vspec::*;
use crate::index::*;
use crate::trees::*;
use crate::lookup::*;
use crate::writer::*;
use crate::writer::statistics::Statistics;
use crate::writer::ts_file_config::TsFileConfig;
use crate::writer::chunk_writer::ChunkMetadata;
use crate::footer::*;
use crate::whole::*;
use crate::series::*;
use crate::maps::split_at;
// ---------------------------------------------------------------- groups of series
/// the bytes of series, one after the other
pub open spec fn cat(s: Seq<Block>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last().bytes } }
pub open spec fn group_of(b: Block, p: Seq<Block>) -> bool { p.len() > 0 && b.name == p[0].name && b.bytes == cat(p) }
pub open spec fn groups_of(bs: Seq<Block>, parts: Seq<Seq<Block>>) -> bool {
    bs.len() == parts.len() && forall|i: int| 0 <= i < bs.len() ==> group_of(#[trigger] bs[i], parts[i])
}
pub proof fn lemma_grouped(s: Seq<Block>, deg: int) -> (parts: Seq<Seq<Block>>)
    requires deg >= 1
    ensures flat(parts) == s, groups_of(grouped(s, deg), parts), s.len() > 0 ==> parts.len() > 0
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        let t = s.drop_last();
        let b = s.last();
        let ps = lemma_grouped(t, deg);
        let g = grouped(t, deg);
        if (s.len() - 1) % deg == 0 {
            let r = ps.push(seq![b]);
            lemma_flat_push(ps, seq![b]);
            assert(t.push(b) =~= s);
            assert(flat(ps) + seq![b] =~= t.push(b));
            assert(seq![b].drop_last() =~= Seq::<Block>::empty());
            assert(cat(Seq::<Block>::empty()) =~= Seq::<u8>::empty());
            assert(cat(seq![b]) =~= b.bytes);
            assert(group_of(b, seq![b]));
            assert forall|i: int| 0 <= i < g.len() + 1 implies group_of(#[trigger] g.push(b)[i], r[i]) by { if i < g.len() { assert(group_of(g[i], ps[i])); } }
            r
        } else {
            assert(t.len() > 0) by { if t.len() == 0 { assert(0int % deg == 0) by (nonlinear_arith) requires deg >= 1; } }
            let last = ps.last().push(b);
            let r = ps.drop_last().push(last);
            lemma_flat_push(ps.drop_last(), last);
            assert(t.push(b) =~= s);
            assert(flat(ps.drop_last()) + ps.last() == t);
            assert(flat(ps.drop_last()) + last =~= t.push(b));
            let n = g.len() - 1;
            assert(group_of(g[n], ps[n]));
            assert(last.drop_last() =~= ps.last());
            assert(cat(last) == cat(ps.last()) + b.bytes);
            let q = grow_last(g, b.bytes);
            assert forall|i: int| 0 <= i < q.len() implies group_of(#[trigger] q[i], r[i]) by { if i < n { assert(group_of(g[i], ps[i])); } }
            r
        }
    }
}
/// groups of sorted series are sorted
pub proof fn lemma_groups_named(bs: Seq<Block>, parts: Seq<Seq<Block>>, s: Seq<Block>)
    requires flat(parts) == s, groups_of(bs, parts), named(s)
    ensures named(bs)
{
    assert forall|i: int| 0 <= i < bs.len() implies str_ok((#[trigger] bs[i]).name) by {
        assert(group_of(bs[i], parts[i]));
        lemma_flat_at(parts, i, 0);
        assert(str_ok(s[start(parts, i)].name)) by { lemma_start_mono(parts, 0, i); lemma_start(parts, 0); }
    }
    assert forall|i: int, j: int| 0 <= i < j < bs.len() implies str_lt((#[trigger] bs[i]).name, (#[trigger] bs[j]).name) by {
        assert(group_of(bs[i], parts[i]));
        assert(group_of(bs[j], parts[j]));
        lemma_flat_at(parts, i, 0);
        lemma_flat_at(parts, j, 0);
        lemma_start(parts, 0);
        lemma_start(parts, i);
        lemma_start_mono(parts, 0, i);
        lemma_start_mono(parts, i + 1, j);
        assert(str_lt(s[start(parts, i)].name, s[start(parts, j)].name));
    }
}
/// the group to look in
pub proof fn lemma_group_has(bs: Seq<Block>, parts: Seq<Seq<Block>>, s: Seq<Block>, p: int) -> (i: int)
    requires flat(parts) == s, groups_of(bs, parts), named(s), 0 <= p < s.len()
    ensures is_last(bs, s[p].name, i), parts[i].contains(s[p])
{
    let (i, q) = lemma_flat_part(parts, p);
    lemma_start(parts, 0);
    lemma_start(parts, i);
    lemma_start_mono(parts, 0, i);
    assert(group_of(bs[i], parts[i]));
    lemma_flat_at(parts, i, 0);
    if q > 0 { assert(str_lt(s[start(parts, i)].name, s[p].name)); }
    if i + 1 < bs.len() {
        assert(group_of(bs[i + 1], parts[i + 1]));
        lemma_flat_at(parts, i + 1, 0);
        assert(str_lt(s[p].name, s[start(parts, i + 1)].name));
    }
    assert(parts[i][q] == s[p]);
    i
}
// ---------------------------------------------------------------- the metadata of a series
/// type of the metadata, data type, statistics, the metadata of the chunks
pub ghost struct Form { pub k: u8, pub t: TSDataType, pub st: Statistics, pub list: Seq<u8> }
pub open spec fn form_ser(name: Seq<char>, f: Form) -> Seq<u8> {
    seq![f.k] + str_ser(name) + seq![type_code(f.t)] + uvar(f.list.len()) + stat_ser(f.st) + f.list
}
pub open spec fn has_form(b: Block, f: Form) -> bool { b.bytes == form_ser(b.name, f) && stat_type(f.st) == f.t && str_ok(b.name) }
pub open spec fn is_series(b: Block) -> bool { exists|f: Form| #[trigger] has_form(b, f) }
/// `bytes` is a list of series
pub open spec fn reads_series(bytes: Seq<u8>, ss: Seq<Block>) -> bool {
    bytes == cat(ss) && forall|i: int| 0 <= i < ss.len() ==> is_series(#[trigger] ss[i])
}
pub proof fn lemma_stat_prefix(a: Statistics, x: Seq<u8>, b: Statistics, y: Seq<u8>)
    requires stat_ser(a) + x == stat_ser(b) + y, stat_type(a) == stat_type(b)
    ensures stat_ser(a) == stat_ser(b), x == y
{
    lemma_stat_size(a);
    lemma_stat_size(b);
    let m = stat_count(a) as nat;
    let n = stat_count(b) as nat;
    let u = stat_ser(a).skip(uvar(m).len() as int);
    let w = stat_ser(b).skip(uvar(n).len() as int);
    assert(stat_ser(a) =~= uvar(m) + u) by { reveal(stat_ser); }
    assert(stat_ser(b) =~= uvar(n) + w) by { reveal(stat_ser); }
    assert(stat_ser(a) + x =~= uvar(m) + (u + x));
    assert(stat_ser(b) + y =~= uvar(n) + (w + y));
    lemma_uvar_inj(m, u + x, n, w + y);
    lemma_cat_inj(stat_ser(a), x, stat_ser(b), y);
}
pub proof fn lemma_cat_cat(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures a + b + c == a + (b + c)
{ assert(a + b + c =~= a + (b + c)); }
/// what comes after the name
pub open spec fn form_tail(f: Form, x: Seq<u8>) -> Seq<u8> { seq![type_code(f.t)] + (uvar(f.list.len()) + (stat_ser(f.st) + (f.list + x))) }
pub proof fn lemma_form_parts(name: Seq<char>, f: Form, x: Seq<u8>)
    ensures form_ser(name, f) + x == seq![f.k] + (str_ser(name) + form_tail(f, x))
{
    let a = seq![f.k];
    let b = str_ser(name);
    let c = seq![type_code(f.t)];
    let d = uvar(f.list.len());
    let e = stat_ser(f.st);
    let l = f.list;
    lemma_cat_cat(a + b + c + d + e, l, x);
    lemma_cat_cat(a + b + c + d, e, l + x);
    lemma_cat_cat(a + b + c, d, e + (l + x));
    lemma_cat_cat(a + b, c, d + (e + (l + x)));
    lemma_cat_cat(a, b, form_tail(f, x));
}
pub proof fn lemma_tail_prefix(f: Form, x: Seq<u8>, g: Form, y: Seq<u8>)
    requires form_tail(f, x) == form_tail(g, y), stat_type(f.st) == f.t, stat_type(g.st) == g.t
    ensures f.list == g.list, f.t == g.t, x == y
{
    let fs = stat_ser(f.st) + (f.list + x);
    let gs = stat_ser(g.st) + (g.list + y);
    let fu = uvar(f.list.len()) + fs;
    let gu = uvar(g.list.len()) + gs;
    lemma_cat_inj(seq![type_code(f.t)], fu, seq![type_code(g.t)], gu);
    assert(seq![type_code(f.t)][0] == seq![type_code(g.t)][0]);
    codes_are_injective();
    lemma_uvar_inj(f.list.len(), fs, g.list.len(), gs);
    lemma_stat_prefix(f.st, f.list + x, g.st, g.list + y);
    lemma_cat_inj(f.list, x, g.list, y);
}
pub proof fn lemma_series_prefix(a: Block, x: Seq<u8>, b: Block, y: Seq<u8>)
    requires is_series(a), is_series(b), a.bytes + x == b.bytes + y
    ensures a == b, x == y
{
    let f = choose|f: Form| #[trigger] has_form(a, f);
    let g = choose|f: Form| #[trigger] has_form(b, f);
    lemma_form_parts(a.name, f, x);
    lemma_form_parts(b.name, g, y);
    lemma_cat_inj(seq![f.k], str_ser(a.name) + form_tail(f, x), seq![g.k], str_ser(b.name) + form_tail(g, y));
    lemma_str_inj(a.name, form_tail(f, x), b.name, form_tail(g, y));
    lemma_tail_prefix(f, x, g, y);
    assert((a.bytes + x).len() == a.bytes.len() + x.len());
    assert((b.bytes + y).len() == b.bytes.len() + y.len());
    lemma_cat_inj(a.bytes, x, b.bytes, y);
}
/// the form is determined
pub proof fn lemma_one_form(a: Block, f: Form, g: Form)
    requires has_form(a, f), has_form(a, g)
    ensures f.k == g.k, f.t == g.t, f.list == g.list
{
    let e = Seq::<u8>::empty();
    lemma_form_parts(a.name, f, e);
    lemma_form_parts(a.name, g, e);
    lemma_cat_inj(seq![f.k], str_ser(a.name) + form_tail(f, e), seq![g.k], str_ser(a.name) + form_tail(g, e));
    assert(seq![f.k][0] == seq![g.k][0]);
    lemma_str_inj(a.name, form_tail(f, e), a.name, form_tail(g, e));
    lemma_tail_prefix(f, e, g, e);
}
pub proof fn lemma_cat_first(s: Seq<Block>)
    requires s.len() > 0
    ensures cat(s) =~= s[0].bytes + cat(s.skip(1))
    decreases s.len()
{
    if s.len() > 1 {
        lemma_cat_first(s.drop_last());
        assert(s.skip(1).drop_last() =~= s.drop_last().skip(1));
    } else {
        assert(s.drop_last() =~= Seq::<Block>::empty());
        assert(s.skip(1) =~= Seq::<Block>::empty());
        assert(cat(s.drop_last()) =~= Seq::<u8>::empty());
        assert(cat(s.skip(1)) =~= Seq::<u8>::empty());
    }
}
/// what is read is determined
pub proof fn lemma_reads_series(bytes: Seq<u8>, a: Seq<Block>, b: Seq<Block>)
    requires reads_series(bytes, a), reads_series(bytes, b)
    ensures a == b
    decreases a.len()
{
    hide(is_series);
    if a.len() == 0 {
        if b.len() > 0 { assert(is_series(b[0])); lemma_cat_first(b); lemma_nonempty(b[0]); }
        assert(a =~= b);
    } else {
        lemma_cat_first(a);
        assert(is_series(a[0]));
        lemma_nonempty(a[0]);
        if b.len() == 0 { assert(false); }
        assert(is_series(b[0]));
        lemma_cat_first(b);
        let x = a.skip(1);
        let y = b.skip(1);
        lemma_series_prefix(a[0], cat(x), b[0], cat(y));
        assert forall|i: int| 0 <= i < x.len() implies is_series(#[trigger] x[i]) by { assert(is_series(a[i + 1])); }
        assert forall|i: int| 0 <= i < y.len() implies is_series(#[trigger] y[i]) by { assert(is_series(b[i + 1])); }
        lemma_reads_series(cat(x), x, y);
        assert(a =~= seq![a[0]] + x);
        assert(b =~= seq![b[0]] + y);
    }
}
pub proof fn lemma_nonempty(b: Block)
    requires is_series(b)
    ensures b.bytes.len() > 0
{
    let f = choose|f: Form| #[trigger] has_form(b, f);
    assert(form_ser(b.name, f)[0] == f.k);
}
pub proof fn lemma_cms_type(t: TSDataType, s: Metas)
    requires forall|i: int| 0 <= i < s.len() ==> meta_ok(#[trigger] s[i], t), cms_count(s) <= u32::MAX
    ensures stat_type(cms_stat(t, s)) == t, stat_count(cms_stat(t, s)) == cms_count(s)
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies meta_ok(#[trigger] p[i], t) by { assert(meta_ok(s[i], t)); }
        assert(meta_ok(s[s.len() - 1], t));
        lemma_cms_type(t, p);
        lemma_stat_mrg(cms_stat(t, p), s.last().statistics);
    }
}
/// the metadata of a series has the form that is read
pub proof fn lemma_series_form(s: Metas)
    requires metas_ok(s)
    ensures is_series(series_block(s))
{
    let t = s[0].data_type;
    lemma_cms_type(t, s);
    let list = cms_ser(s, s.len() > 1);
    let f = Form { k: if s.len() > 1 { 1u8 } else { 0u8 }, t, st: cms_stat(t, s), list };
    assert(has_form(series_block(s), f));
}
// ---------------------------------------------------------------- the series of a device
pub proof fn lemma_utf8_cat(a: Seq<char>, b: Seq<char>)
    ensures sbytes(a + b) =~= sbytes(a) + sbytes(b)
    decreases a.len()
{
    reveal(vstd::utf8::encode_utf8);
    if a.len() == 0 { assert(a + b =~= b); }
    else { lemma_utf8_cat(a.drop_first(), b); assert((a + b).drop_first() =~= a.drop_first() + b); }
}
/// with the same beginning, the rest decides
pub proof fn lemma_rest_lt(p: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires bytes_lt(p + a, p + b)
    ensures bytes_lt(a, b)
{
    let n = choose|n: int| #[trigger] split_at(p + a, p + b, n);
    let l = p.len() as int;
    if n < l { assert((p + a)[n] == p[n] && (p + b)[n] == p[n]); assert(false); }
    assert(split_at(a, b, n - l)) by {
        assert forall|i: int| 0 <= i < n - l implies #[trigger] a[i] == b[i] by { assert((p + a)[i + l] == (p + b)[i + l]); }
        if n - l < a.len() { assert((p + a)[n] == a[n - l]); assert((p + b)[n] == b[n - l]); }
    }
}
pub proof fn lemma_dotted_lt(d: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires str_lt(dotted(d, a), dotted(d, b))
    ensures str_lt(a, b)
{
    let p = d + "."@;
    lemma_utf8_cat(p, a);
    lemma_utf8_cat(p, b);
    lemma_rest_lt(sbytes(p), sbytes(a), sbytes(b));
}
pub proof fn lemma_metas_in_name(s: Metas, m: Seq<char>)
    ensures forall|i: int| 0 <= i < metas_in(s, m).len() ==> (#[trigger] metas_in(s, m)[i]).measurement_id@ == m
    decreases s.len()
{ if s.len() > 0 { lemma_metas_in_name(s.drop_last(), m); } }
pub proof fn lemma_metas_name(gs: Seq<ChunkGroupMetadata>, d: Seq<char>, m: Seq<char>)
    ensures forall|i: int| 0 <= i < metas_of(gs, d, m).len() ==> (#[trigger] metas_of(gs, d, m)[i]).measurement_id@ == m
    decreases gs.len()
{ if gs.len() > 0 { lemma_metas_name(gs.drop_last(), d, m); lemma_metas_in_name(gs.last().chunk_metadata@, m); } }
/// the entry for a path
pub open spec fn path_good(cm: PathMap, ms: Seq<ChunkGroupMetadata>, k: PathV) -> bool {
    &&& k == pathv(k.0, m_of(k))
    &&& cm[k]@ == metas_of(ms, k.0, m_of(k))
    &&& cm[k]@.len() > 0
    &&& metas_ok(cm[k]@)
    &&& cm[k]@[0].measurement_id@ == m_of(k)
    &&& str_ok(k.0)
}
/// a block is that of a series of the device
pub open spec fn of_series(b: Block, ms: Seq<ChunkGroupMetadata>, d: Seq<char>, m: Seq<char>) -> bool {
    metas_of(ms, d, m).len() > 0 && b == series_block(metas_of(ms, d, m)) && b.name == m && is_series(b) && str_ok(m)
}
pub proof fn lemma_path_good(cm: PathMap, ms: Seq<ChunkGroupMetadata>, k: PathV)
    requires collected(cm, ms, Seq::empty(), Seq::empty()), series_fit(ms), cm.dom().contains(k)
    ensures path_good(cm, ms, k), of_series(series_block(cm[k]@), ms, k.0, m_of(k))
{
    let p = part(ms, Seq::empty(), Seq::empty(), k.0, m_of(k));
    assert(collected_at(cm, k, p));
    assert(p =~= metas_of(ms, k.0, m_of(k)));
    lemma_metas_name(ms, k.0, m_of(k));
    assert(cm[k]@[0].measurement_id@ == m_of(k));
    lemma_series_form(cm[k]@);
}
pub proof fn lemma_path_there(cm: PathMap, ms: Seq<ChunkGroupMetadata>, d: Seq<char>, m: Seq<char>)
    requires collected(cm, ms, Seq::empty(), Seq::empty()), metas_of(ms, d, m).len() > 0
    ensures cm.dom().contains(pathv(d, m)), cm[pathv(d, m)]@ == metas_of(ms, d, m)
{
    lemma_m_of(d, m);
    let k = pathv(d, m);
    let p = part(ms, Seq::empty(), Seq::empty(), k.0, m_of(k));
    assert(collected_at(cm, k, p));
    assert(p =~= metas_of(ms, d, m));
}
/// the last key of the device so far
pub open spec fn from_key(ks: Seq<PathV>, cm: PathMap, d: Seq<char>, b: Block) -> bool {
    exists|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).0 == d && b == series_block(cm[ks[j]]@)
}
pub open spec fn paths_sorted(ks: Seq<PathV>) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> path_lt(#[trigger] ks[i], #[trigger] ks[j]) }
pub open spec fn dev_good(bs: Seq<Block>, ks: Seq<PathV>, cm: PathMap, d: Seq<char>) -> bool {
    &&& named(bs)
    &&& forall|i: int| 0 <= i < bs.len() ==> from_key(ks, cm, d, #[trigger] bs[i])
    &&& forall|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).0 == d ==> bs.contains(series_block(cm[ks[j]]@))
}
pub open spec fn paths_good(cm: PathMap, ms: Seq<ChunkGroupMetadata>, ks: Seq<PathV>) -> bool { forall|i: int| 0 <= i < ks.len() ==> path_good(cm, ms, #[trigger] ks[i]) }
pub proof fn lemma_dev_series(ks: Seq<PathV>, cm: PathMap, ms: Seq<ChunkGroupMetadata>, d: Seq<char>)
    requires paths_sorted(ks), paths_good(cm, ms, ks)
    ensures dev_good(dev_series(ks, cm, d), ks, cm, d)
    decreases ks.len()
{
    hide(series_block); hide(path_good);
    if ks.len() > 0 {
        let t = ks.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies path_lt(#[trigger] t[i], #[trigger] t[j]) by { assert(path_lt(ks[i], ks[j])); }
        assert forall|i: int| 0 <= i < t.len() implies path_good(cm, ms, #[trigger] t[i]) by { assert(path_good(cm, ms, ks[i])); }
        lemma_dev_series(t, cm, ms, d);
        if ks.last().0 == d { lemma_dev_push(dev_series(t, cm, d), ks, cm, ms, d); }
        else { lemma_dev_skip(dev_series(t, cm, d), ks, cm, d); }
    }
}
pub proof fn lemma_dev_skip(bs: Seq<Block>, ks: Seq<PathV>, cm: PathMap, d: Seq<char>)
    requires ks.len() > 0, dev_good(bs, ks.drop_last(), cm, d), ks.last().0 != d
    ensures dev_good(bs, ks, cm, d)
{
    hide(series_block); hide(named);
    let t = ks.drop_last();
    assert forall|i: int| 0 <= i < bs.len() implies from_key(ks, cm, d, #[trigger] bs[i]) by { lemma_from_key(ks, cm, d, bs[i]); }
    assert forall|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).0 == d implies bs.contains(series_block(cm[ks[j]]@)) by { assert(t[j].0 == d); }
}
pub proof fn lemma_from_key(ks: Seq<PathV>, cm: PathMap, d: Seq<char>, b: Block) -> (j: int)
    requires ks.len() > 0, from_key(ks.drop_last(), cm, d, b)
    ensures from_key(ks, cm, d, b), 0 <= j < ks.len() - 1, ks[j].0 == d, b == series_block(cm[ks[j]]@)
{
    let t = ks.drop_last();
    let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == d && b == series_block(cm[t[j]]@);
    assert(ks[j] == t[j]);
    j
}
pub proof fn lemma_dev_lt(a: PathV, b: PathV, cm: PathMap, ms: Seq<ChunkGroupMetadata>, d: Seq<char>)
    requires path_lt(a, b), a.0 == d, b.0 == d, path_good(cm, ms, a), path_good(cm, ms, b)
    ensures str_lt(series_block(cm[a]@).name, series_block(cm[b]@).name), str_ok(series_block(cm[b]@).name)
{
    lemma_str_lt(d, d, d);
    lemma_dotted_lt(d, m_of(a), m_of(b));
}
pub proof fn lemma_dev_push(bs: Seq<Block>, ks: Seq<PathV>, cm: PathMap, ms: Seq<ChunkGroupMetadata>, d: Seq<char>)
    requires ks.len() > 0, dev_good(bs, ks.drop_last(), cm, d), ks.last().0 == d, paths_sorted(ks), paths_good(cm, ms, ks)
    ensures dev_good(bs.push(series_block(cm[ks.last()]@)), ks, cm, d)
{
    hide(series_block); hide(path_good); hide(str_lt); hide(str_ok); hide(from_key);
    let t = ks.drop_last();
    let n = ks.len() - 1;
    let b = series_block(cm[ks[n]]@);
    let r = bs.push(b);
    assert(path_good(cm, ms, ks[n]));
    assert(str_ok(b.name)) by { reveal(series_block); reveal(path_good); }
    assert(from_key(ks, cm, d, b)) by { reveal(from_key); assert(ks[n].0 == d); }
    assert forall|i: int| 0 <= i < bs.len() implies from_key(ks, cm, d, #[trigger] bs[i]) && str_lt(bs[i].name, b.name) by {
        let j = lemma_from_key(ks, cm, d, bs[i]);
        assert(path_lt(ks[j], ks[n]));
        assert(path_good(cm, ms, ks[j]));
        lemma_dev_lt(ks[j], ks[n], cm, ms, d);
    }
    assert forall|i: int| 0 <= i < r.len() implies from_key(ks, cm, d, #[trigger] r[i]) && str_ok(r[i].name) by {
        if i < n && i < bs.len() { assert(r[i] == bs[i]); assert(from_key(ks, cm, d, bs[i])); assert(str_ok(bs[i].name)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies str_lt((#[trigger] r[i]).name, (#[trigger] r[j]).name) by {
        assert(r[i] == bs[i]);
        if j < bs.len() { assert(r[j] == bs[j]); }
    }
    assert(r[bs.len() as int] == b);
    assert forall|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).0 == d implies r.contains(series_block(cm[ks[j]]@)) by {
        if j < n {
            assert(t[j].0 == d);
            let q = choose|q: int| 0 <= q < bs.len() && bs[q] == series_block(cm[ks[j]]@);
            assert(r[q] == bs[q]);
        }
    }
}
// ---------------------------------------------------------------- the file
/// the file's index node: the metadata before the length of the metadata and the magic begins with it
pub open spec fn opens(out: Seq<u8>, v: NodeV) -> bool {
    readable(v) && exists|pre: Seq<u8>, rest: Seq<u8>| #[trigger] ends_with(out, pre, nodev_ser(v) + rest)
}
pub open spec fn ends_with(out: Seq<u8>, pre: Seq<u8>, foot: Seq<u8>) -> bool { out == pre + foot + be(foot.len(), 4) + magic() && foot.len() <= u32::MAX }
pub proof fn lemma_one_end(out: Seq<u8>, p: Seq<u8>, f: Seq<u8>, q: Seq<u8>, g: Seq<u8>)
    requires ends_with(out, p, f), ends_with(out, q, g)
    ensures p == q, f == g
{
    broadcast use be_len;
    lemma_p256();
    let a = be(f.len(), 4) + magic();
    let b = be(g.len(), 4) + magic();
    assert(out =~= (p + f) + a);
    assert(out =~= (q + g) + b);
    assert((p + f).len() == (q + g).len());
    lemma_cat_inj(p + f, a, q + g, b);
    lemma_cat_inj(be(f.len(), 4), magic(), be(g.len(), 4), magic());
    lemma_from_be(f.len(), 4);
    lemma_from_be(g.len(), 4);
    lemma_cat_inj(p, f, q, g);
}
pub proof fn lemma_one_root(out: Seq<u8>, v: NodeV, w: NodeV)
    requires opens(out, v), opens(out, w)
    ensures v == w
{
    let (p, x) = choose|pre: Seq<u8>, rest: Seq<u8>| #[trigger] ends_with(out, pre, nodev_ser(v) + rest);
    let (q, y) = choose|pre: Seq<u8>, rest: Seq<u8>| #[trigger] ends_with(out, pre, nodev_ser(w) + rest);
    lemma_one_end(out, p, nodev_ser(v) + x, q, nodev_ser(w) + y);
    lemma_node_prefix(v, x, w, y);
}
/// the search for a device arrives at an entry with its name, which stands for the index of its series
pub open spec fn finds_device(out: Seq<u8>, root: NodeV, d: Seq<char>, w: NodeV) -> bool {
    exists|h: nat, b: Block| #[trigger] reaches(out, root, d, h, 1, b) && b.name == d && b.bytes == nodev_ser(w) && readable(w)
}
/// the search for a measurement arrives at an entry that stands for series, among them this one
pub open spec fn finds_series(out: Seq<u8>, w: NodeV, m: Seq<char>, s: Block) -> bool {
    s.name == m && exists|h: nat, b: Block, ss: Seq<Block>| #[trigger] reaches(out, w, m, h, 3, b) && #[trigger] reads_series(b.bytes, ss) && ss.contains(s)
}
/// a reader of the file finds the metadata `s` of the series `m` of the device `d`
pub open spec fn reader_finds(out: Seq<u8>, d: Seq<char>, m: Seq<char>, s: Block) -> bool {
    exists|root: NodeV, w: NodeV| opens(out, root) && #[trigger] finds_device(out, root, d, w) && finds_series(out, w, m, s)
}
/// the series in `bs`, in groups, with their tree
pub proof fn lemma_finds_series(out: Seq<u8>, w: NodeV, bs: Seq<Block>, deg: int, h: nat, k: TreeKind, m: Seq<char>, s: Block)
    requires
        tree(out, w, grouped(bs, deg), h, k), named(bs), deg == k.deg, 2 <= k.deg <= u32::MAX, out.len() <= i64::MAX, k.leaf == 3, k.inner == 2,
        forall|i: int| 0 <= i < bs.len() ==> is_series(#[trigger] bs[i]),
    ensures
        readable(w),
        finds_series(out, w, m, s) <==> bs.contains(s) && s.name == m,
{
    hide(tree); hide(grouped); hide(reaches); hide(is_series); hide(is_last); hide(named); hide(readable);
    let g = grouped(bs, deg);
    let parts = lemma_grouped(bs, deg);
    lemma_groups_named(g, parts, bs);
    lemma_tree_node(out, w, g, h, k);
    assert forall|i: int, q: int| 0 <= i < parts.len() && 0 <= q < parts[i].len() implies is_series(#[trigger] parts[i][q]) && bs.contains(parts[i][q]) by {
        lemma_flat_at(parts, i, q);
        lemma_start(parts, 0);
        lemma_start_mono(parts, 0, i);
        assert(is_series(bs[start(parts, i) + q]));
    }
    if bs.contains(s) && s.name == m {
        let p = choose|p: int| 0 <= p < bs.len() && bs[p] == s;
        let i = lemma_group_has(g, parts, bs, p);
        lemma_reaches(out, w, g, h, k, m, i);
        assert(0 <= i < g.len()) by { reveal(is_last); }
        assert(group_of(g[i], parts[i]));
        assert(reads_series(g[i].bytes, parts[i]));
        assert(reaches(out, w, m, h, 3, g[i]));
    }
    if finds_series(out, w, m, s) {
        let (f, b, ss) = choose|f: nat, b: Block, ss: Seq<Block>| #[trigger] reaches(out, w, m, f, 3, b) && #[trigger] reads_series(b.bytes, ss) && ss.contains(s);
        let i = lemma_reaches_only(out, w, g, h, k, m, f, b);
        assert(0 <= i < g.len()) by { reveal(is_last); }
        assert(group_of(g[i], parts[i]));
        assert(reads_series(g[i].bytes, parts[i]));
        lemma_reads_series(b.bytes, ss, parts[i]);
        let q = choose|q: int| 0 <= q < ss.len() && ss[q] == s;
        assert(bs.contains(parts[i][q]));
    }
}
/// the entry of a device's index: its series
pub proof fn lemma_device_series(ks: Seq<PathV>, cm: PathMap, ms: Seq<ChunkGroupMetadata>, d: Seq<char>, m: Seq<char>, s: Block)
    requires
        dev_good(dev_series(ks, cm, d), ks, cm, d), paths_good(cm, ms, ks), lists(ks, cm.dom()),
        collected(cm, ms, Seq::empty(), Seq::empty()), series_fit(ms),
    ensures
        dev_series(ks, cm, d).contains(s) && s.name == m <==> metas_of(ms, d, m).len() > 0 && s == series_block(metas_of(ms, d, m)),
        dev_series(ks, cm, d).contains(s) ==> is_series(s) && str_ok(d),
{
    hide(named); hide(collected); hide(is_series);
    let bs = dev_series(ks, cm, d);
    if bs.contains(s) {
        let i = choose|i: int| 0 <= i < bs.len() && bs[i] == s;
        assert(from_key(ks, cm, d, bs[i]));
        let j = choose|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).0 == d && s == series_block(cm[ks[j]]@);
        assert(path_good(cm, ms, ks[j]));
        lemma_series_form(cm[ks[j]]@);
        assert(s.name == m_of(ks[j]));
    }
    if metas_of(ms, d, m).len() > 0 && s == series_block(metas_of(ms, d, m)) {
        lemma_path_there(cm, ms, d, m);
        assert(ks.contains(pathv(d, m)));
        let j = choose|j: int| 0 <= j < ks.len() && ks[j] == pathv(d, m);
        assert(ks[j].0 == d);
        lemma_metas_name(ms, d, m);
        assert(metas_of(ms, d, m)[0].measurement_id@ == m);
    }
}
/// all devices: what a search for `d` finds
pub open spec fn root_good(out: Seq<u8>, root: NodeV, roots: Map<Seq<char>, NodeV>) -> bool {
    &&& readable(root)
    &&& forall|d: Seq<char>, w: NodeV| #[trigger] finds_device(out, root, d, w) <==> roots.dom().contains(d) && w == roots[d]
}
pub proof fn lemma_devices(out: Seq<u8>, root: NodeV, roots: Map<Seq<char>, NodeV>, h: nat, k: TreeKind)
    requires
        tree(out, root, dev_blocks(order_of::<String>(roots.dom()), roots), h, k), 2 <= k.deg <= u32::MAX, k.leaf == 1, k.inner == 0, out.len() <= i64::MAX,
        forall|d: Seq<char>| #[trigger] roots.dom().contains(d) ==> str_ok(d) && readable(roots[d]),
    ensures root_good(out, root, roots)
{
    hide(tree); hide(readable); hide(reaches); hide(str_lt); hide(str_ok);
    broadcast use axiom_order;
    let ds = order_of::<String>(roots.dom());
    let bs = dev_blocks(ds, roots);
    assert(sorted::<String>(ds));
    assert forall|i: int| 0 <= i < ds.len() implies roots.dom().contains(#[trigger] ds[i]) by { assert(ds.contains(ds[i])); }
    assert(named(bs)) by {
        assert forall|i: int, j: int| 0 <= i < j < bs.len() implies str_lt((#[trigger] bs[i]).name, (#[trigger] bs[j]).name) by { assert(<String as MapKey>::before(ds[i], ds[j])); }
        assert forall|i: int| 0 <= i < bs.len() implies str_ok((#[trigger] bs[i]).name) by { assert(roots.dom().contains(ds[i])); }
    }
    lemma_tree_node(out, root, bs, h, k);
    assert forall|d: Seq<char>, w: NodeV| #[trigger] finds_device(out, root, d, w) <==> roots.dom().contains(d) && w == roots[d] by {
        if roots.dom().contains(d) && w == roots[d] {
            assert(ds.contains(d));
            let p = choose|p: int| 0 <= p < ds.len() && ds[p] == d;
            assert(bs[p] == (Block { name: d, bytes: nodev_ser(roots[d]) }));
            if p + 1 < bs.len() { assert(str_lt(bs[p].name, bs[p + 1].name)); }
            assert(is_last(bs, d, p));
            lemma_reaches(out, root, bs, h, k, d, p);
            assert(reaches(out, root, d, h, 1, bs[p]));
        }
        if finds_device(out, root, d, w) {
            let (g, b) = choose|g: nat, b: Block| #[trigger] reaches(out, root, d, g, 1, b) && b.name == d && b.bytes == nodev_ser(w) && readable(w);
            let p = lemma_reaches_only(out, root, bs, h, k, d, g, b);
            assert(bs[p] == (Block { name: ds[p], bytes: nodev_ser(roots[ds[p]]) }));
            assert(roots.dom().contains(ds[p]));
            lemma_node_inj(w, roots[ds[p]]);
        }
    }
}
/// no devices: nothing is found
pub proof fn lemma_no_devices(out: Seq<u8>, root: NodeV, roots: Map<Seq<char>, NodeV>)
    requires root.kids.len() == 0, roots.dom().len() == 0, 0 <= root.end <= i64::MAX
    ensures root_good(out, root, roots)
{
    assert forall|d: Seq<char>, w: NodeV| !#[trigger] finds_device(out, root, d, w) by {
        if finds_device(out, root, d, w) {
            let (g, b) = choose|g: nat, b: Block| #[trigger] reaches(out, root, d, g, 1, b) && b.name == d && b.bytes == nodev_ser(w) && readable(w);
            if g == 0 { let i = choose|i: int| #[trigger] chosen(root, d, i) && b == (Block { name: root.kids[i].0, bytes: slice(out, root, i) }); }
            else { let (i, v) = choose|i: int, v: NodeV| #[trigger] step(out, root, d, i, v) && reaches(out, v, d, (g - 1) as nat, 1, b); }
        }
    }
    assert(roots.dom() =~= Set::empty());
}
pub open spec fn metas_found(out: Seq<u8>, ms: Seq<ChunkGroupMetadata>) -> bool {
    forall|d: Seq<char>, m: Seq<char>, s: Block| #[trigger] reader_finds(out, d, m, s) <==> metas_of(ms, d, m).len() > 0 && s == series_block(metas_of(ms, d, m))
}
/// the index of a device
pub open spec fn device_good(out: Seq<u8>, v: NodeV, ms: Seq<ChunkGroupMetadata>, d: Seq<char>) -> bool {
    &&& readable(v)
    &&& str_ok(d)
    &&& forall|m: Seq<char>, s: Block| #[trigger] finds_series(out, v, m, s) <==> metas_of(ms, d, m).len() > 0 && s == series_block(metas_of(ms, d, m))
}
pub open spec fn listing_ok(ks: Seq<PathV>, cm: PathMap, ms: Seq<ChunkGroupMetadata>) -> bool {
    &&& lists(ks, cm.dom())
    &&& paths_good(cm, ms, ks)
    &&& collected(cm, ms, Seq::empty(), Seq::empty())
    &&& series_fit(ms)
    &&& forall|d: Seq<char>| dev_good(#[trigger] dev_series(ks, cm, d), ks, cm, d)
}
pub proof fn lemma_listing(cm: PathMap, ms: Seq<ChunkGroupMetadata>)
    requires collected(cm, ms, Seq::empty(), Seq::empty()), series_fit(ms)
    ensures listing_ok(order_of::<Path>(cm.dom()), cm, ms)
{
    hide(collected); hide(series_fit); hide(path_good); hide(path_lt); hide(dev_good);
    broadcast use axiom_order;
    let ks = order_of::<Path>(cm.dom());
    assert(sorted::<Path>(ks));
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies path_lt(#[trigger] ks[i], #[trigger] ks[j]) by { assert(<Path as MapKey>::before(ks[i], ks[j])); }
    assert forall|i: int| 0 <= i < ks.len() implies path_good(cm, ms, #[trigger] ks[i]) by { assert(ks.contains(ks[i])); lemma_path_good(cm, ms, ks[i]); }
    assert forall|d: Seq<char>| dev_good(#[trigger] dev_series(ks, cm, d), ks, cm, d) by { lemma_dev_series(ks, cm, ms, d); }
}
pub proof fn lemma_device(data: Seq<u8>, tail: Seq<u8>, v: NodeV, list: Vec<Box<TimeSeriesMetadata>>, ks: Seq<PathV>, cm: PathMap, ms: Seq<ChunkGroupMetadata>, d: Seq<char>, c: TsFileConfig)
    requires
        listing_ok(ks, cm, ms), device_root(data, list, v, c), list_of(list) == dev_series(ks, cm, d), list@.len() > 0,
        index_config_ok(c), (data + tail).len() <= i64::MAX,
    ensures device_good(data + tail, v, ms, d)
{
    hide(tree); hide(grouped); hide(collected); hide(series_fit); hide(paths_good); hide(finds_series); hide(readable); hide(lists); hide(is_series); hide(series_block);
    let k = kind_of_index(MetadataIndexNodeType::InternalMeasurement, c);
    let deg = c.max_degree_of_index_node as int;
    let bs = dev_series(ks, cm, d);
    let h = choose|h: nat| #[trigger] tree(data, v, grouped(bs, deg), h, k);
    lemma_tree(data, tail, v, grouped(bs, deg), h, k);
    assert(dev_good(bs, ks, cm, d));
    assert(bs.len() > 0);
    assert forall|i: int| 0 <= i < bs.len() implies is_series(#[trigger] bs[i]) && str_ok(d) by { lemma_device_series(ks, cm, ms, d, bs[i].name, bs[i]); }
    assert(is_series(bs[0]));
    assert forall|m: Seq<char>, s: Block| readable(v) && (#[trigger] finds_series(data + tail, v, m, s) <==> metas_of(ms, d, m).len() > 0 && s == series_block(metas_of(ms, d, m))) by {
        lemma_finds_series(data + tail, v, bs, deg, h, k, m, s);
        lemma_device_series(ks, cm, ms, d, m, s);
    }
    lemma_finds_series(data + tail, v, bs, deg, h, k, bs[0].name, bs[0]);
}
/// what the index of the file leads to
pub proof fn lemma_index(data: Seq<u8>, tail: Seq<u8>, root: NodeV, tm: Map<Seq<char>, Vec<Box<TimeSeriesMetadata>>>, roots: Map<Seq<char>, NodeV>, cm: PathMap, ms: Seq<ChunkGroupMetadata>, c: TsFileConfig)
    requires
        collected(cm, ms, Seq::empty(), Seq::empty()), series_fit(ms), series_listed(tm, order_of::<Path>(cm.dom()), cm), device_index(data, root, tm, roots, c),
        index_config_ok(c), (data + tail).len() <= i64::MAX,
    ensures
        root_good(data + tail, root, roots),
        forall|d: Seq<char>| #[trigger] roots.dom().contains(d) ==> device_good(data + tail, roots[d], ms, d),
        forall|d: Seq<char>, m: Seq<char>| #[trigger] metas_of(ms, d, m).len() > 0 ==> roots.dom().contains(d),
{
    hide(tree); hide(device_good); hide(root_good); hide(listing_ok); hide(device_root); hide(collected); hide(series_fit);
    let out = data + tail;
    let ks = order_of::<Path>(cm.dom());
    lemma_listing(cm, ms);
    assert forall|d: Seq<char>| #[trigger] roots.dom().contains(d) implies device_good(out, roots[d], ms, d) by {
        assert(has_series(tm, d));
        assert(dev_listed(tm, d, dev_series(ks, cm, d)));
        assert(device_root(data, tm[d], roots[d], c));
        lemma_device(data, tail, roots[d], tm[d], ks, cm, ms, d, c);
    }
    assert forall|d: Seq<char>, m: Seq<char>| #[trigger] metas_of(ms, d, m).len() > 0 implies roots.dom().contains(d) by {
        assert(dev_listed(tm, d, dev_series(ks, cm, d)));
        lemma_listed_series(ks, cm, ms, d, m);
        assert(list_of(tm[d]).len() == tm[d]@.len());
        assert(has_series(tm, d));
    }
    if roots.dom().len() == 0 { lemma_no_devices(out, root, roots); }
    else {
        let k = kind_of_index(MetadataIndexNodeType::InternalDevice, c);
        let bs = dev_blocks(order_of::<String>(roots.dom()), roots);
        let h = choose|h: nat| #[trigger] tree(data, root, bs, h, k);
        lemma_tree(data, tail, root, bs, h, k);
        assert forall|d: Seq<char>| #[trigger] roots.dom().contains(d) implies str_ok(d) && readable(roots[d]) by { assert(device_good(out, roots[d], ms, d)); reveal(device_good); }
        lemma_devices(out, root, roots, h, k);
    }
}
pub proof fn lemma_listed_series(ks: Seq<PathV>, cm: PathMap, ms: Seq<ChunkGroupMetadata>, d: Seq<char>, m: Seq<char>)
    requires listing_ok(ks, cm, ms), metas_of(ms, d, m).len() > 0
    ensures dev_series(ks, cm, d).len() > 0
{
    assert(dev_good(dev_series(ks, cm, d), ks, cm, d));
    lemma_device_series(ks, cm, ms, d, m, series_block(metas_of(ms, d, m)));
}
/// a reader finds exactly the series of the file, each with its metadata
pub proof fn lemma_reader(f: Footer, out: Seq<u8>, gs: Seq<Group>, ms: Seq<ChunkGroupMetadata>, c: TsFileConfig)
    requires
        footer_ok(f, out, gs, ms, c), series_fit(ms), index_config_ok(c), out.len() <= i64::MAX,
        foot_of(f, gs).len() <= u32::MAX,
    ensures metas_found(out, ms)
{
    hide(device_good); hide(root_good); hide(collected); hide(series_fit); hide(series_listed); hide(device_index); hide(finds_device); hide(finds_series); hide(series_block); hide(opens);
    let body = file_body(gs);
    let data = body + seq![2u8] + pieces_ser(f.ps);
    let foot = foot_of(f, gs);
    let tail = foot + be(foot.len(), 4) + magic();
    assert(out =~= data + tail);
    let roots = choose|roots: Map<Seq<char>, NodeV>| #[trigger] device_index(data, f.root, f.tm, roots, c);
    lemma_index(data, tail, f.root, f.tm, roots, f.cm, ms, c);
    assert(opens(out, f.root)) by {
        reveal(opens);
        reveal(root_good);
        let rest = be(body.len(), 8) + bloom_ser(f.bloom);
        assert(nodev_ser(f.root) + rest =~= foot);
        assert(ends_with(out, data, nodev_ser(f.root) + rest));
    }
    assert forall|d: Seq<char>, m: Seq<char>, s: Block| #[trigger] reader_finds(out, d, m, s) <==> metas_of(ms, d, m).len() > 0 && s == series_block(metas_of(ms, d, m)) by {
        reveal(root_good);
        reveal(device_good);
        if reader_finds(out, d, m, s) {
            let (root, w) = choose|root: NodeV, w: NodeV| opens(out, root) && #[trigger] finds_device(out, root, d, w) && finds_series(out, w, m, s);
            lemma_one_root(out, root, f.root);
            assert(roots.dom().contains(d) && w == roots[d]);
            assert(device_good(out, roots[d], ms, d));
        }
        if metas_of(ms, d, m).len() > 0 && s == series_block(metas_of(ms, d, m)) {
            assert(roots.dom().contains(d));
            assert(finds_device(out, f.root, d, roots[d]));
            assert(device_good(out, roots[d], ms, d));
            assert(finds_series(out, roots[d], m, s));
        }
    }
}
pub open spec fn foot_of(f: Footer, gs: Seq<Group>) -> Seq<u8> { nodev_ser(f.root) + be(file_body(gs).len(), 8) + bloom_ser(f.bloom) }
/// files that readers can handle: offsets are i64, the length of the metadata at the end is 4 bytes
pub open spec fn small(out: Seq<u8>, gs: Seq<Group>) -> bool { out.len() <= i64::MAX && out.len() - file_body(gs).len() <= u32::MAX }
pub proof fn lemma_found(out: Seq<u8>, gs: Seq<Group>, ms: Seq<ChunkGroupMetadata>, c: TsFileConfig)
    requires closed(out, gs, ms, c), series_fit(ms), index_config_ok(c)
    ensures small(out, gs) ==> metas_found(out, ms)
{
    hide(metas_found); hide(series_fit); hide(indexed); hide(series_listed); hide(collected);
    let f = choose|f: Footer| #[trigger] footer_ok(f, out, gs, ms, c);
    if small(out, gs) { lemma_reader(f, out, gs, ms, c); }
}
}
