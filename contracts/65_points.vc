@@raw
/// the points that a reader gets from a file
pub mod points {
use vstd::prelude::*;
use crate::vspec::*;
use crate::index::Block;
use crate::lookup::*;
use crate::reading::*;
use crate::writer::*;
use crate::writer::compression::CompressionType;
use crate::writer::statistics::Statistics;
use crate::writer::ts_file_config::TsFileConfig;
use crate::writer::chunk_writer::ChunkMetadata;
use crate::footer::*;
use crate::whole::*;
use crate::closing::*;
/// values, bit by bit
pub enum Bits { Int(i32), Long(i64), Float(u32), Double(u64) }
pub open spec fn val_bits(v: IoTDBValue) -> Bits {
    match v {
        IoTDBValue::INT(x) => Bits::Int(x),
        IoTDBValue::LONG(x) => Bits::Long(x),
        IoTDBValue::FLOAT(x) => Bits::Float(f32_bits(x)),
        IoTDBValue::DOUBLE(x) => Bits::Double(f64_bits(x)),
    }
}
pub open spec fn pt_bits(p: Pt) -> (i64, Bits) { (p.0, val_bits(p.1)) }
pub open spec fn bits(p: Seq<Pt>) -> Seq<(i64, Bits)> { p.map_values(|x: Pt| pt_bits(x)) }
pub proof fn lemma_bits_cat(a: Seq<Pt>, b: Seq<Pt>)
    ensures bits(a + b) =~= bits(a) + bits(b)
{}
// ---------------------------------------------------------------- values
pub proof fn lemma_be_inj4(a: nat, x: Seq<u8>, b: nat, y: Seq<u8>)
    requires be(a, 4) + x == be(b, 4) + y, a < 0x1_0000_0000, b < 0x1_0000_0000
    ensures a == b, x == y
{
    broadcast use be_len;
    lemma_p256();
    lemma_cat_inj(be(a, 4), x, be(b, 4), y);
    lemma_from_be(a, 4);
    lemma_from_be(b, 4);
}
pub proof fn lemma_val_prefix(a: IoTDBValue, x: Seq<u8>, b: IoTDBValue, y: Seq<u8>)
    requires plain_val(a) + x == plain_val(b) + y, val_type(a) is Some, val_type(a) == val_type(b)
    ensures val_bits(a) == val_bits(b), x == y
{
    match a {
        IoTDBValue::INT(v) => { lemma_uvar_inj(zig(v), x, zig(b->INT_0), y); }
        IoTDBValue::LONG(v) => { lemma_be_inj(uns64(v), x, uns64(b->LONG_0), y); }
        IoTDBValue::FLOAT(v) => { lemma_be_inj4(f32_bits(v) as nat, x, f32_bits(b->FLOAT_0) as nat, y); }
        _ => {}
    }
}
pub proof fn lemma_vals_first(s: Seq<IoTDBValue>)
    requires s.len() > 0
    ensures plain_vals(s) =~= plain_val(s[0]) + plain_vals(s.skip(1))
    decreases s.len()
{
    if s.len() > 1 {
        lemma_vals_first(s.drop_last());
        assert(s.skip(1).drop_last() =~= s.drop_last().skip(1));
    } else {
        assert(s.drop_last() =~= Seq::<IoTDBValue>::empty());
        assert(s.skip(1) =~= Seq::<IoTDBValue>::empty());
        assert(plain_vals(s.drop_last()) =~= Seq::<u8>::empty());
        assert(plain_vals(s.skip(1)) =~= Seq::<u8>::empty());
    }
}
pub open spec fn all_typed(s: Seq<IoTDBValue>, t: TSDataType) -> bool { forall|i: int| 0 <= i < s.len() ==> val_type(#[trigger] s[i]) == Some(t) }
/// PLAIN loses nothing
pub proof fn lemma_plain_inj(a: Seq<IoTDBValue>, b: Seq<IoTDBValue>, t: TSDataType)
    requires plain_vals(a) == plain_vals(b), a.len() == b.len(), all_typed(a, t), all_typed(b, t)
    ensures forall|i: int| 0 <= i < a.len() ==> val_bits(#[trigger] a[i]) == val_bits(b[i])
    decreases a.len()
{
    if a.len() > 0 {
        lemma_vals_first(a);
        lemma_vals_first(b);
        let x = a.skip(1);
        let y = b.skip(1);
        lemma_val_prefix(a[0], plain_vals(x), b[0], plain_vals(y));
        assert forall|i: int| 0 <= i < x.len() implies val_type(#[trigger] x[i]) == Some(t) by { assert(val_type(a[i + 1]) == Some(t)); }
        assert forall|i: int| 0 <= i < y.len() implies val_type(#[trigger] y[i]) == Some(t) by { assert(val_type(b[i + 1]) == Some(t)); }
        lemma_plain_inj(x, y, t);
        assert forall|i: int| 0 <= i < a.len() implies val_bits(#[trigger] a[i]) == val_bits(b[i]) by { if i > 0 { assert(x[i - 1] == a[i]); assert(y[i - 1] == b[i]); } }
    }
}
// ---------------------------------------------------------------- pages
/// the body of a page determines its points
pub proof fn lemma_body_inj(a: Page, b: Page, t: TSDataType, k: Kind)
    requires page_body(a) == page_body(b), page_ok(a, t, k), page_ok(b, t, k)
    ensures bits(a.pts) == bits(b.pts)
{
    assert(page_body(a) =~= uvar(a.time.len()) + (a.time + a.value));
    assert(page_body(b) =~= uvar(b.time.len()) + (b.time + b.value));
    lemma_uvar_inj(a.time.len(), a.time + a.value, b.time.len(), b.time + b.value);
    lemma_cat_inj(a.time, a.value, b.time, b.value);
    assert(times(a.pts) == times(b.pts));
    assert(a.pts.len() == times(a.pts).len() && b.pts.len() == times(b.pts).len());
    let x = values(a.pts);
    let y = values(b.pts);
    assert forall|i: int| 0 <= i < x.len() implies val_type(#[trigger] x[i]) == Some(t) by { assert(val_type(a.pts[i].1) == Some(t)); }
    assert forall|i: int| 0 <= i < y.len() implies val_type(#[trigger] y[i]) == Some(t) by { assert(val_type(b.pts[i].1) == Some(t)); }
    if k is Plain { lemma_plain_inj(x, y, t); } else { assert(x == y); }
    assert forall|i: int| 0 <= i < a.pts.len() implies bits(a.pts)[i] == bits(b.pts)[i] by {
        assert(times(a.pts)[i] == times(b.pts)[i]);
        assert(val_bits(x[i]) == val_bits(y[i]));
    }
    assert(bits(a.pts) =~= bits(b.pts));
}
pub open spec fn page_rest(c: CompressionType, p: Page, ws: bool, x: Seq<u8>) -> Seq<u8> {
    uvar(stored(c, p).len()) + ((if ws { stat_ser(p.stat) } else { Seq::empty() }) + (stored(c, p) + x))
}
pub proof fn lemma_page_parts(c: CompressionType, p: Page, ws: bool, x: Seq<u8>)
    ensures page_bytes(c, p, ws) + x == uvar(page_body(p).len()) + page_rest(c, p, ws, x)
{
    let a = uvar(page_body(p).len());
    let b = uvar(stored(c, p).len());
    let s = if ws { stat_ser(p.stat) } else { Seq::empty() };
    let d = stored(c, p);
    lemma_cat_cat(a + b + s, d, x);
    lemma_cat_cat(a + b, s, d + x);
    lemma_cat_cat(a, b, s + (d + x));
}
pub proof fn lemma_page_prefix(c: CompressionType, a: Page, x: Seq<u8>, b: Page, y: Seq<u8>, ws: bool, t: TSDataType, k: Kind)
    requires page_bytes(c, a, ws) + x == page_bytes(c, b, ws) + y, page_ok(a, t, k), page_ok(b, t, k)
    ensures bits(a.pts) == bits(b.pts), x == y
{
    hide(page_body);
    lemma_page_parts(c, a, ws, x);
    lemma_page_parts(c, b, ws, y);
    lemma_uvar_inj(page_body(a).len(), page_rest(c, a, ws, x), page_body(b).len(), page_rest(c, b, ws, y));
    let sa = if ws { stat_ser(a.stat) } else { Seq::empty() };
    let sb = if ws { stat_ser(b.stat) } else { Seq::empty() };
    let da = stored(c, a) + x;
    let db = stored(c, b) + y;
    lemma_uvar_inj(stored(c, a).len(), sa + da, stored(c, b).len(), sb + db);
    if ws { lemma_stat_prefix(a.stat, da, b.stat, db); } else { lemma_cat_inj(sa, da, sb, db); }
    lemma_cat_inj(stored(c, a), x, stored(c, b), y);
    if c is SNAPPY { snappy::axiom_snappy(page_body(a)); snappy::axiom_snappy(page_body(b)); }
    assert(page_body(a) == page_body(b));
    lemma_body_inj(a, b, t, k);
}
pub proof fn lemma_pages_first(c: CompressionType, s: Seq<Page>)
    requires s.len() > 0
    ensures
        pages_bytes(c, s) =~= page_bytes(c, s[0], true) + pages_bytes(c, s.skip(1)),
        pages_pts(s) =~= s[0].pts + pages_pts(s.skip(1)),
    decreases s.len()
{
    hide(page_bytes);
    if s.len() > 1 {
        lemma_pages_first(c, s.drop_last());
        assert(s.skip(1).drop_last() =~= s.drop_last().skip(1));
    } else {
        assert(s.drop_last() =~= Seq::<Page>::empty());
        assert(s.skip(1) =~= Seq::<Page>::empty());
        assert(pages_bytes(c, s.drop_last()) =~= Seq::<u8>::empty());
        assert(pages_bytes(c, s.skip(1)) =~= Seq::<u8>::empty());
        assert(pages_pts(s.drop_last()) =~= Seq::<Pt>::empty());
        assert(pages_pts(s.skip(1)) =~= Seq::<Pt>::empty());
    }
}
pub proof fn lemma_page_nonempty(c: CompressionType, p: Page, ws: bool)
    ensures page_bytes(c, p, ws).len() > 0
{ crate::writer::utils::lemma_uvar_pos(page_body(p).len()); }
pub proof fn lemma_pages_inj(c: CompressionType, a: Seq<Page>, b: Seq<Page>, t: TSDataType, k: Kind)
    requires pages_bytes(c, a) == pages_bytes(c, b), pages_ok(a, t, k), pages_ok(b, t, k)
    ensures bits(pages_pts(a)) == bits(pages_pts(b))
    decreases a.len()
{
    hide(page_bytes); hide(page_ok);
    if a.len() == 0 {
        if b.len() > 0 { lemma_pages_first(c, b); lemma_page_nonempty(c, b[0], true); }
    } else {
        lemma_pages_first(c, a);
        lemma_page_nonempty(c, a[0], true);
        if b.len() == 0 { assert(false); }
        lemma_pages_first(c, b);
        let x = a.skip(1);
        let y = b.skip(1);
        assert(page_ok(a[0], t, k) && page_ok(b[0], t, k));
        lemma_page_prefix(c, a[0], pages_bytes(c, x), b[0], pages_bytes(c, y), true, t, k);
        assert forall|i: int| 0 <= i < x.len() implies page_ok(#[trigger] x[i], t, k) by { assert(page_ok(a[i + 1], t, k)); }
        assert forall|i: int| 0 <= i < y.len() implies page_ok(#[trigger] y[i], t, k) by { assert(page_ok(b[i + 1], t, k)); }
        lemma_pages_inj(c, x, y, t, k);
        lemma_bits_cat(a[0].pts, pages_pts(x));
        lemma_bits_cat(b[0].pts, pages_pts(y));
    }
}
// ---------------------------------------------------------------- chunks
pub open spec fn codes(c: Chunk) -> Seq<u8> { seq![type_code(c.data_type), compression_code(c.compression), encoding_code(c.encoding)] }
pub open spec fn marker(c: Chunk) -> Seq<u8> { seq![if c.pages.len() <= 1 { 5u8 } else { 1u8 }] }
pub open spec fn chunk_rest(c: Chunk, x: Seq<u8>) -> Seq<u8> {
    uvar(chunk_data(c.compression, c.pages).len()) + (codes(c) + (chunk_data(c.compression, c.pages) + x))
}
pub proof fn lemma_chunk_parts(c: Chunk, x: Seq<u8>)
    ensures chunk_ser(c) + x == marker(c) + (str_ser(c.name) + chunk_rest(c, x))
{
    let m = marker(c);
    let n = str_ser(c.name);
    let d = chunk_data(c.compression, c.pages);
    let u = uvar(d.len());
    lemma_cat_cat(m + n + u + codes(c), d, x);
    lemma_cat_cat(m + n + u, codes(c), d + x);
    lemma_cat_cat(m + n, u, codes(c) + (d + x));
    lemma_cat_cat(m, n, chunk_rest(c, x));
}
pub open spec fn same_chunk(a: Chunk, b: Chunk) -> bool {
    a.name == b.name && a.data_type == b.data_type && a.compression == b.compression && a.encoding == b.encoding && bits(pages_pts(a.pages)) == bits(pages_pts(b.pages))
}
pub proof fn lemma_one_page(s: Seq<Page>)
    requires s.len() == 1
    ensures pages_pts(s) =~= s[0].pts
{ assert(s.drop_last() =~= Seq::<Page>::empty()); assert(pages_pts(s.drop_last()) =~= Seq::<Pt>::empty()); }
/// the data of a chunk determine its points
pub proof fn lemma_data_inj(c: CompressionType, a: Seq<Page>, b: Seq<Page>, t: TSDataType, k: Kind)
    requires chunk_data(c, a) == chunk_data(c, b), pages_ok(a, t, k), pages_ok(b, t, k), a.len() == 1 <==> b.len() == 1
    ensures bits(pages_pts(a)) == bits(pages_pts(b))
{
    hide(page_bytes); hide(page_ok);
    if a.len() == 1 {
        let e = Seq::<u8>::empty();
        lemma_one_page(a);
        lemma_one_page(b);
        assert(page_ok(a[0], t, k) && page_ok(b[0], t, k));
        assert(page_bytes(c, a[0], false) + e =~= page_bytes(c, b[0], false) + e);
        lemma_page_prefix(c, a[0], e, b[0], e, false, t, k);
    } else { lemma_pages_inj(c, a, b, t, k); }
}
/// .. and so do the bytes of a chunk
pub proof fn lemma_chunk_prefix(a: Chunk, x: Seq<u8>, b: Chunk, y: Seq<u8>)
    requires chunk_ser(a) + x == chunk_ser(b) + y, chunk_ok(a), chunk_ok(b)
    ensures same_chunk(a, b), x == y
{
    hide(chunk_data); hide(pages_ok); hide(pages_pts);
    lemma_chunk_parts(a, x);
    lemma_chunk_parts(b, y);
    lemma_cat_inj(marker(a), str_ser(a.name) + chunk_rest(a, x), marker(b), str_ser(b.name) + chunk_rest(b, y));
    assert(marker(a)[0] == marker(b)[0]);
    lemma_str_inj(a.name, chunk_rest(a, x), b.name, chunk_rest(b, y));
    let p = chunk_data(a.compression, a.pages);
    let q = chunk_data(b.compression, b.pages);
    lemma_uvar_inj(p.len(), codes(a) + (p + x), q.len(), codes(b) + (q + y));
    lemma_cat_inj(codes(a), p + x, codes(b), q + y);
    assert(codes(a)[0] == codes(b)[0]);
    assert(codes(a)[1] == codes(b)[1]);
    assert(codes(a)[2] == codes(b)[2]);
    codes_are_injective();
    lemma_cat_inj(p, x, q, y);
    lemma_data_inj(a.compression, a.pages, b.pages, a.data_type, kind_of(a.data_type, a.encoding)->Some_0);
}
/// a reader reads the chunk `c` there
pub open spec fn chunk_there(out: Seq<u8>, p: int, c: Chunk) -> bool { at(out, p, chunk_ser(c)) && chunk_ok(c) }
pub proof fn lemma_at_skip(out: Seq<u8>, p: int, s: Seq<u8>)
    requires at(out, p, s)
    ensures s + out.skip(p + s.len()) == out.skip(p)
{
    assert(out.subrange(p, p + s.len()) + out.skip(p + s.len()) =~= out.skip(p));
}
pub proof fn lemma_one_chunk(out: Seq<u8>, p: int, a: Chunk, b: Chunk)
    requires chunk_there(out, p, a), chunk_there(out, p, b)
    ensures same_chunk(a, b)
{
    hide(chunk_ser); hide(chunk_ok); hide(at); hide(same_chunk);
    let x = out.skip(p + chunk_ser(a).len());
    let y = out.skip(p + chunk_ser(b).len());
    lemma_at_skip(out, p, chunk_ser(a));
    lemma_at_skip(out, p, chunk_ser(b));
    lemma_chunk_prefix(a, x, b, y);
}
// ---------------------------------------------------------------- the chunks of a series
pub type Entry = (i64, Statistics);
pub open spec fn entry_ser(e: Entry, multi: bool) -> Seq<u8> { be_i64(e.0) + (if multi { stat_ser(e.1) } else { Seq::empty() }) }
pub open spec fn list_ser(s: Seq<Entry>, multi: bool) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { list_ser(s.drop_last(), multi) + entry_ser(s.last(), multi) }
}
pub open spec fn list_typed(s: Seq<Entry>, t: TSDataType) -> bool { forall|i: int| 0 <= i < s.len() ==> stat_type((#[trigger] s[i]).1) == t }
/// the entries for the chunks; with several chunks, each has its statistics
pub open spec fn lists_chunks(s: Block, es: Seq<Entry>) -> bool {
    exists|f: Form| #[trigger] has_form(s, f) && f.list == list_ser(es, f.k != 0) && list_typed(es, f.t)
}
pub proof fn lemma_list_first(s: Seq<Entry>, multi: bool)
    requires s.len() > 0
    ensures list_ser(s, multi) =~= entry_ser(s[0], multi) + list_ser(s.skip(1), multi)
    decreases s.len()
{
    hide(entry_ser);
    if s.len() > 1 {
        lemma_list_first(s.drop_last(), multi);
        assert(s.skip(1).drop_last() =~= s.drop_last().skip(1));
    } else {
        assert(s.drop_last() =~= Seq::<Entry>::empty());
        assert(s.skip(1) =~= Seq::<Entry>::empty());
        assert(list_ser(s.drop_last(), multi) =~= Seq::<u8>::empty());
        assert(list_ser(s.skip(1), multi) =~= Seq::<u8>::empty());
    }
}
pub proof fn lemma_entry_prefix(a: Entry, x: Seq<u8>, b: Entry, y: Seq<u8>, multi: bool)
    requires entry_ser(a, multi) + x == entry_ser(b, multi) + y, stat_type(a.1) == stat_type(b.1)
    ensures a.0 == b.0, x == y
{
    let sa = if multi { stat_ser(a.1) } else { Seq::empty() };
    let sb = if multi { stat_ser(b.1) } else { Seq::empty() };
    lemma_cat_cat(be_i64(a.0), sa, x);
    lemma_cat_cat(be_i64(b.0), sb, y);
    lemma_be_inj(uns64(a.0), sa + x, uns64(b.0), sb + y);
    if multi { lemma_stat_prefix(a.1, x, b.1, y); } else { lemma_cat_inj(sa, x, sb, y); }
}
pub proof fn lemma_list_inj(a: Seq<Entry>, b: Seq<Entry>, multi: bool, t: TSDataType)
    requires list_ser(a, multi) == list_ser(b, multi), list_typed(a, t), list_typed(b, t)
    ensures a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == b[i].0
    decreases a.len()
{
    broadcast use be_len;
    if a.len() == 0 {
        if b.len() > 0 { lemma_list_first(b, multi); }
    } else {
        lemma_list_first(a, multi);
        if b.len() == 0 { assert(false); }
        lemma_list_first(b, multi);
        let x = a.skip(1);
        let y = b.skip(1);
        assert(stat_type(a[0].1) == t && stat_type(b[0].1) == t);
        lemma_entry_prefix(a[0], list_ser(x, multi), b[0], list_ser(y, multi), multi);
        assert forall|i: int| 0 <= i < x.len() implies stat_type((#[trigger] x[i]).1) == t by { assert(stat_type(a[i + 1].1) == t); }
        assert forall|i: int| 0 <= i < y.len() implies stat_type((#[trigger] y[i]).1) == t by { assert(stat_type(b[i + 1].1) == t); }
        lemma_list_inj(x, y, multi, t);
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).0 == b[i].0 by { if i > 0 { assert(x[i - 1] == a[i]); assert(y[i - 1] == b[i]); } }
    }
}
pub open spec fn entries(s: Metas) -> Seq<Entry> { s.map_values(|m: ChunkMetadata| (m.offset_of_chunk_header, m.statistics)) }
pub proof fn lemma_entries(s: Metas, multi: bool)
    ensures cms_ser(s, multi) =~= list_ser(entries(s), multi)
    decreases s.len()
{ if s.len() > 0 { lemma_entries(s.drop_last(), multi); assert(entries(s).drop_last() =~= entries(s.drop_last())); } }
/// the metadata of a series lists its chunks
pub proof fn lemma_lists(s: Metas)
    requires metas_ok(s)
    ensures lists_chunks(series_block(s), entries(s))
{
    let t = s[0].data_type;
    let multi = s.len() > 1;
    lemma_cms_type(t, s);
    lemma_entries(s, multi);
    let f = Form { k: if multi { 1u8 } else { 0u8 }, t, st: cms_stat(t, s), list: cms_ser(s, multi) };
    assert(has_form(series_block(s), f));
    assert forall|i: int| 0 <= i < s.len() implies stat_type((#[trigger] entries(s)[i]).1) == t by { assert(meta_ok(s[i], t)); }
}
pub proof fn lemma_one_list(s: Block, a: Seq<Entry>, b: Seq<Entry>)
    requires lists_chunks(s, a), lists_chunks(s, b)
    ensures a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == b[i].0
{
    let f = choose|f: Form| #[trigger] has_form(s, f) && f.list == list_ser(a, f.k != 0) && list_typed(a, f.t);
    let g = choose|f: Form| #[trigger] has_form(s, f) && f.list == list_ser(b, f.k != 0) && list_typed(b, f.t);
    lemma_one_form(s, f, g);
    lemma_list_inj(a, b, f.k != 0, f.t);
}
pub open spec fn all_there(out: Seq<u8>, es: Seq<Entry>, cs: Seq<Chunk>) -> bool {
    es.len() == cs.len() && forall|i: int| 0 <= i < cs.len() ==> chunk_there(out, es[i].0 as int, #[trigger] cs[i])
}
pub proof fn lemma_same_pts(out: Seq<u8>, es: Seq<Entry>, cs: Seq<Chunk>, fs: Seq<Entry>, ds: Seq<Chunk>)
    requires
        all_there(out, es, cs), all_there(out, fs, ds), es.len() == fs.len(),
        forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).0 == fs[i].0,
    ensures bits(pts_of(cs)) == bits(pts_of(ds))
    decreases cs.len()
{
    hide(chunk_there); hide(pages_pts);
    if cs.len() > 0 {
        let n = cs.len() - 1;
        assert forall|i: int| 0 <= i < n implies chunk_there(out, es.drop_last()[i].0 as int, #[trigger] cs.drop_last()[i]) by { assert(chunk_there(out, es[i].0 as int, cs[i])); }
        assert forall|i: int| 0 <= i < n implies chunk_there(out, fs.drop_last()[i].0 as int, #[trigger] ds.drop_last()[i]) by { assert(chunk_there(out, fs[i].0 as int, ds[i])); }
        assert forall|i: int| 0 <= i < n implies (#[trigger] es.drop_last()[i]).0 == fs.drop_last()[i].0 by { assert(es[i].0 == fs[i].0); }
        lemma_same_pts(out, es.drop_last(), cs.drop_last(), fs.drop_last(), ds.drop_last());
        assert(es[n].0 == fs[n].0);
        assert(chunk_there(out, es[n].0 as int, cs[n]));
        assert(chunk_there(out, fs[n].0 as int, ds[n]));
        lemma_one_chunk(out, es[n].0 as int, cs[n], ds[n]);
        lemma_bits_cat(pts_of(cs.drop_last()), pages_pts(cs[n].pages));
        lemma_bits_cat(pts_of(ds.drop_last()), pages_pts(ds[n].pages));
    }
}
// ---------------------------------------------------------------- the points of a series
/// from the metadata `s` of a series, a reader gets to its chunks
pub open spec fn reads_chunks(out: Seq<u8>, s: Block, es: Seq<Entry>, cs: Seq<Chunk>) -> bool { lists_chunks(s, es) && all_there(out, es, cs) }
/// a reader of the file gets these points for the series `m` of the device `d`
pub open spec fn reader_gets(out: Seq<u8>, d: Seq<char>, m: Seq<char>, p: Seq<(i64, Bits)>) -> bool {
    exists|s: Block, es: Seq<Entry>, cs: Seq<Chunk>| reader_finds(out, d, m, s) && #[trigger] reads_chunks(out, s, es, cs) && p == bits(pts_of(cs))
}
/// exactly the series of `gs` that have points, and exactly their points
pub open spec fn reads_back(out: Seq<u8>, gs: Seq<Group>) -> bool {
    forall|d: Seq<char>, m: Seq<char>, p: Seq<(i64, Bits)>| #[trigger] reader_gets(out, d, m, p) <==> file_pts(gs, d, m).len() > 0 && p == bits(file_pts(gs, d, m))
}
pub proof fn lemma_some_pts(cs: Seq<Chunk>)
    requires cs.len() > 0, chunk_ok(cs.last())
    ensures pts_of(cs).len() > 0
{
    let c = cs.last();
    assert(page_ok(c.pages[c.pages.len() - 1], c.data_type, kind_of(c.data_type, c.encoding)->Some_0));
}
pub proof fn lemma_reads_back(out: Seq<u8>, gs: Seq<Group>, ms: Seq<ChunkGroupMetadata>)
    requires metas_found(out, ms), groups_placed(ms, out, full(gs)), series_fit(ms)
    ensures reads_back(out, gs)
{
    hide(reader_finds); hide(placed); hide(chunk_ok); hide(lists_chunks); hide(groups_placed); hide(metas_ok); hide(series_block); hide(pages_pts);
    assert forall|d: Seq<char>, m: Seq<char>, p: Seq<(i64, Bits)>| #[trigger] reader_gets(out, d, m, p) <==> file_pts(gs, d, m).len() > 0 && p == bits(file_pts(gs, d, m)) by {
        let v = metas_of(ms, d, m);
        let cs0 = series_chunks(gs, d, m);
        lemma_full(gs, d, m);
        lemma_metas_of(ms, out, full(gs), d, m);
        lemma_pts_of(gs, d, m);
        let es0 = entries(v);
        assert forall|i: int| 0 <= i < cs0.len() implies chunk_there(out, es0[i].0 as int, #[trigger] cs0[i]) by {
            assert(placed(v[i], out, cs0[i]));
            reveal(placed);
        }
        assert(all_there(out, es0, cs0));
        if v.len() > 0 {
            lemma_lists(v);
            assert(chunk_there(out, es0[cs0.len() - 1].0 as int, cs0[cs0.len() - 1]));
            lemma_some_pts(cs0);
            assert(reader_finds(out, d, m, series_block(v)));
            assert(reads_chunks(out, series_block(v), es0, cs0));
        } else { assert(cs0 =~= Seq::<Chunk>::empty()); }
        if reader_gets(out, d, m, p) {
            let (s, es, cs) = choose|s: Block, es: Seq<Entry>, cs: Seq<Chunk>| reader_finds(out, d, m, s) && #[trigger] reads_chunks(out, s, es, cs) && p == bits(pts_of(cs));
            assert(v.len() > 0 && s == series_block(v));
            lemma_one_list(s, es, es0);
            lemma_same_pts(out, es, cs, es0, cs0);
        }
    }
}
}
