
@@raw
/// bit strings
pub mod bits {
use vstd::prelude::*;
use crate::vspec::*;
pub open spec fn bitb(b: u8, q: int) -> bool { (b >> ((7 - q) as u8)) & 1 == 1 }
pub open spec fn bit(p: Seq<u8>, i: int) -> bool { bitb(p[i / 8], i % 8) }
pub open spec fn nbit(u: u64, k: int) -> bool { (u >> (k as u64)) & 1 == 1 }
/// the number that w bits stand for, from bit `pos`, most significant bit first
pub open spec fn num(p: Seq<u8>, pos: int, w: nat) -> nat decreases w {
    if w == 0 { 0 } else { 2 * num(p, pos, (w - 1) as nat) + if bit(p, pos + w - 1) { 1nat } else { 0nat } }
}
pub proof fn lemma_num_ext(p: Seq<u8>, q: Seq<u8>, pos: int, w: nat)
    requires
        forall|i: int| pos <= i < pos + w ==> #[trigger] bit(p, i) == bit(q, i),
    ensures num(p, pos, w) == num(q, pos, w)
    decreases w
{
    if w > 0 {
        lemma_num_ext(p, q, pos, (w - 1) as nat);
        assert(bit(p, pos + w - 1) == bit(q, pos + w - 1));
    }
}
/// the bits of u from k upwards, as written at pos
pub proof fn lemma_num_bits(p: Seq<u8>, pos: int, w: nat, u: u64, j: nat)
    requires
        j <= w <= 64,
        w == 64 || u >> (w as u64) == 0,
        forall|k: int| 0 <= k < w ==> #[trigger] bit(p, pos + k) == nbit(u, w - 1 - k),
    ensures
        j > 0 ==> num(p, pos, j) == u >> ((w - j) as u64),
        j == 0 ==> num(p, pos, j) == 0,
        j == w && w > 0 ==> num(p, pos, w) == u,
        j == w && w == 0 ==> num(p, pos, w) == u,
    decreases j
{
    if j > 0 {
        lemma_num_bits(p, pos, w, u, (j - 1) as nat);
        let k = (w - j) as u64;
        assert(bit(p, pos + (j - 1)) == nbit(u, w - 1 - (j - 1)));
        if j == 1 {
            if w < 64 {
                let ww = w as u64;
                assert(k < 64 && ww == k + 1 && ww < 64 && u >> ww == 0 ==> u >> k == (u >> k) & 1 && (u >> k) & 1 <= 1) by (bit_vector);
            } else {
                assert(k == 63 ==> u >> k == (u >> k) & 1 && (u >> k) & 1 <= 1) by (bit_vector);
            }
            assert(num(p, pos, 0) == 0);
        } else {
            let k1 = (w - (j - 1)) as u64;
            assert(k < 63 && k1 == k + 1 ==> u >> k == 2 * (u >> k1) + ((u >> k) & 1) && (u >> k) & 1 <= 1) by (bit_vector);
        }
        if j == w { assert(u >> 0 == u) by (bit_vector); }
    } else if w == 0 {
        assert(u >> 0 == u) by (bit_vector);
    }
}
pub proof fn lemma_mono64(x: u64, a: u64, b: u64)
    requires a <= b < 64, x >> a == 0
    ensures x >> b == 0
{ assert(a <= b && b < 64 && x >> a == 0 ==> x >> b == 0) by (bit_vector); }
pub proof fn lemma_mono32(x: u32, a: u32, b: u32)
    requires a <= b < 32, x >> a == 0
    ensures x >> b == 0
{ assert(a <= b && b < 32 && x >> a == 0 ==> x >> b == 0) by (bit_vector); }
pub proof fn lemma_uns64(v: i64)
    ensures (#[verifier::truncate] (v as u64)) == uns64(v)
{
    assert(v >= 0 ==> #[verifier::truncate] (v as u64) == v) by (bit_vector);
    assert(v < 0 ==> #[verifier::truncate] (v as u64) == v + 0x1_0000_0000_0000_0000) by (bit_vector);
}
pub proof fn lemma_uns32(v: i32)
    ensures (#[verifier::truncate] (v as u32)) == uns32(v)
{
    assert(v >= 0 ==> #[verifier::truncate] (v as u32) == v) by (bit_vector);
    assert(v < 0 ==> #[verifier::truncate] (v as u32) == v + 0x1_0000_0000) by (bit_vector);
}
pub proof fn lemma_top32(x: u32) ensures (x as u64) >> 32 == 0
{ let y = x as u64; assert(y == x ==> y >> 32 == 0) by (bit_vector); }
pub proof fn lemma_top64(x: u64) {}
pub proof fn lemma_widen32(x: u32, w: u32)
    requires w < 32, x >> w == 0
    ensures (x as u64) >> (w as u64) == 0
{
    let w64 = w as u64; let x64 = x as u64;
    assert(x64 == x && w64 == w && w < 32 && x >> w == 0 ==> x64 >> w64 == 0) by (bit_vector);
}
pub proof fn lemma_widen64(x: u64, w: u64)
    requires w < 64, x >> w == 0
    ensures (x as u64) >> (w as u64) == 0
{}
pub proof fn lemma_neg64(v: i64, w: u64)
    requires w < 64, (#[verifier::truncate] (v as u64)) >> w == 0
    ensures v >= 0
{ assert(w < 64 && (#[verifier::truncate] (v as u64)) >> w == 0 ==> v >= 0) by (bit_vector); }
pub proof fn lemma_neg32(v: i32, w: u32)
    requires w < 32, (#[verifier::truncate] (v as u32)) >> w == 0
    ensures v >= 0
{ assert(w < 32 && (#[verifier::truncate] (v as u32)) >> w == 0 ==> v >= 0) by (bit_vector); }
pub proof fn lemma_zero_ext(u: u64)
    ensures u >> 0 == u
{ assert(u >> 0 == u) by (bit_vector); }

pub proof fn lemma_byte32(my_number: i32, mu: u64, u: u64, b: u8, b2: u8, mask: i32, y: u8, old: u8, cnt: u8, w: u8, q: u8)
    requires
        old < cnt <= 8, w < 32, w + (cnt - old) <= 32,
        mask == !(((1i32 << ((8 - old) as u8)) - (1i32 << ((8 - cnt) as u8))) as i32),
        y == (#[verifier::truncate] ((my_number >> w) as u8)) << ((8 - cnt) as u8),
        b2 == (b & #[verifier::truncate] (mask as u8)) | y,
        mu == #[verifier::truncate] (my_number as u32) as u64,
        old == 0 || (my_number >= 0 && mu >> ((w + (cnt - old)) as u64) == 0),
        (mu ^ u) & ((1u64 << ((w + (cnt - old)) as u64)) - 1) as u64 == 0,
        q < cnt,
    ensures
        q < old ==> bitb(b2, q as int) == bitb(b, q as int),
        old <= q < cnt ==> bitb(b2, q as int) == nbit(u, w + (cnt - 1 - q)),
{
    let wm = (w + (cnt - old)) as u64;
    let k = (w + (cnt - 1 - q)) as u64;
    let q7 = (7 - q) as u8;
    let c0 = (8 - old) as u8;
    let c8 = (8 - cnt) as u8;
    assert(q < old ==> (b2 >> q7) & 1 == (b >> q7) & 1) by (bit_vector)
        requires old < cnt, cnt <= 8, w < 32, c0 == 8 - old, c8 == 8 - cnt, wm == w + (cnt - old), wm <= 32,
            mask == !(((1i32 << c0) - (1i32 << c8)) as i32), y == (#[verifier::truncate] ((my_number >> w) as u8)) << c8,
            b2 == (b & #[verifier::truncate] (mask as u8)) | y, mu == #[verifier::truncate] (my_number as u32) as u64,
            old == 0 || (my_number >= 0 && mu >> wm == 0), q < cnt, q7 == 7 - q;
    assert(old <= q ==> ((b2 >> q7) & 1) as u64 == (u >> k) & 1) by (bit_vector)
        requires old < cnt, cnt <= 8, w < 32, c0 == 8 - old, c8 == 8 - cnt, wm == w + (cnt - old), wm <= 32, k == w + (cnt - 1 - q),
            mask == !(((1i32 << c0) - (1i32 << c8)) as i32), y == (#[verifier::truncate] ((my_number >> w) as u8)) << c8,
            b2 == (b & #[verifier::truncate] (mask as u8)) | y, mu == #[verifier::truncate] (my_number as u32) as u64,
            (mu ^ u) & ((1u64 << wm) - 1) as u64 == 0,
            q < cnt, q7 == 7 - q;
}
pub proof fn lemma_low32(a: i32, b: i32, ua: u64, ub: u64, u: u64, w: u8, wm: u64)
    requires
        w < 32, w <= wm <= 32,
        b == a & !(-1i32 << w),
        ua == #[verifier::truncate] (a as u32) as u64,
        ub == #[verifier::truncate] (b as u32) as u64,
        (ua ^ u) & ((1u64 << wm) - 1) as u64 == 0,
    ensures
        (ub ^ u) & ((1u64 << (w as u64)) - 1) as u64 == 0,
        ub >> (w as u64) == 0,
        b >= 0,
{
    let ww = w as u64;
    assert((ub ^ u) & ((1u64 << ww) - 1) as u64 == 0 && ub >> ww == 0 && b >= 0) by (bit_vector)
        requires w < 32, ww == w, ww <= wm, wm <= 32, b == a & !(-1i32 << w),
            ua == #[verifier::truncate] (a as u32) as u64, ub == #[verifier::truncate] (b as u32) as u64,
            (ua ^ u) & ((1u64 << wm) - 1) as u64 == 0;
}

pub proof fn lemma_byte64(number: i64, u: u64, b: u8, b2: u8, mask: u8, y: u8, old: u8, cnt: u8, w: u8, q: u8)
    requires
        old < cnt <= 8, w < 64, w + (cnt - old) <= 64,
        mask == !#[verifier::truncate] (((1u16 << ((8 - old) as u16)) - 1) as u8),
        y == (#[verifier::truncate] ((number >> w) as u8)) << ((8 - cnt) as u8),
        b2 == (b & mask) | y,
        u == #[verifier::truncate] (number as u64),
        old == 0 || (number >= 0 && (w + (cnt - old) == 64 || u >> ((w + (cnt - old)) as u64) == 0)),
        q < cnt,
    ensures
        q < old ==> bitb(b2, q as int) == bitb(b, q as int),
        old <= q < cnt ==> bitb(b2, q as int) == nbit(u, w + (cnt - 1 - q)),
{
    let wm = (w + (cnt - old)) as u64;
    let k = (w + (cnt - 1 - q)) as u64;
    let q7 = (7 - q) as u8;
    let sh = (8 - old) as u16;
    let c8 = (8 - cnt) as u8;
    assert(q < old ==> (b2 >> q7) & 1 == (b >> q7) & 1) by (bit_vector)
        requires old < cnt, cnt <= 8, w < 64, sh == 8 - old, c8 == 8 - cnt, wm == w + (cnt - old), wm <= 64,
            mask == !#[verifier::truncate] (((1u16 << sh) - 1) as u8), y == (#[verifier::truncate] ((number >> w) as u8)) << c8,
            b2 == (b & mask) | y, u == #[verifier::truncate] (number as u64),
            old == 0 || (number >= 0 && (wm == 64 || u >> wm == 0)), q < cnt, q7 == 7 - q;
    assert(old <= q ==> ((b2 >> q7) & 1) as u64 == (u >> k) & 1) by (bit_vector)
        requires old < cnt, cnt <= 8, w < 64, sh == 8 - old, c8 == 8 - cnt, wm == w + (cnt - old), wm <= 64, k == w + (cnt - 1 - q),
            mask == !#[verifier::truncate] (((1u16 << sh) - 1) as u8), y == (#[verifier::truncate] ((number >> w) as u8)) << c8,
            b2 == (b & mask) | y, u == #[verifier::truncate] (number as u64),
            q < cnt, q7 == 7 - q;
}
}
@@each T=i64|i32 U=u64|u32 N=64|32 B=8|4 H=24|16 F=16|12 V=LONG|INT E=LongTs2DiffEncoder|IntTs2DiffEncoder M=0x1_0000_0000_0000_0000|0x1_0000_0000 D=0x8000_0000_0000_0000|0x8000_0000
@@raw
pub mod diff$N {
use vstd::prelude::*;
use crate::vspec::*;
use crate::bits::*;
use crate::writer::IoTDBValue;
/// the number modulo 2^$N
pub open spec fn wrap(x: int) -> $T { sig$N((x % $M) as nat) }
/// first value and differences
pub open spec fn pend(f: $T, ds: Seq<$T>) -> Seq<$T> decreases ds.len() {
    if ds.len() == 0 { seq![f] } else { pend(f, ds.drop_last()).push(wrap(pend(f, ds.drop_last()).last() + ds.last())) }
}
/// what a reader makes of n packed differences
pub open spec fn unpack(f: $T, min: $T, p: Seq<u8>, w: nat, n: nat) -> Seq<$T> decreases n {
    if n == 0 { seq![f] } else {
        let s = unpack(f, min, p, w, (n - 1) as nat);
        s.push(wrap(s.last() + min + num(p, (n - 1) * w, w)))
    }
}
pub open spec fn head(b: Seq<u8>, at: int, k: int) -> nat { from_be(b.subrange(at, at + k)) }
/// one block: number of differences, width, minimum, first value, packed differences
pub open spec fn payload_len(n: nat, w: nat) -> nat { (n * w + 7) / 8 }
pub open spec fn block_ok(b: Seq<u8>) -> bool {
    &&& b.len() >= $H
    &&& b.len() >= $H + payload_len(head(b, 0, 4), head(b, 4, 4))
}
pub open spec fn block_len(b: Seq<u8>) -> int { ($H + payload_len(head(b, 0, 4), head(b, 4, 4))) as int }
pub open spec fn block_vals(b: Seq<u8>) -> Seq<$T> {
    unpack(sig$N(head(b, $F, $B)), sig$N(head(b, 8, $B)), b.subrange($H, block_len(b)), head(b, 4, 4), head(b, 0, 4))
}
/// what a reader makes of the bytes
pub open spec fn dect(b: Seq<u8>) -> Option<Seq<$T>> decreases b.len() {
    if b.len() == 0 { Some(Seq::empty()) }
    else if !block_ok(b) { None }
    else {
        match dect(b.subrange(block_len(b), b.len() as int)) {
            None => None,
            Some(r) => Some(block_vals(b) + r),
        }
    }
}
pub open spec fn wrapped(s: Seq<$T>) -> Seq<IoTDBValue> { s.map_values(|x: $T| IoTDBValue::$V(x)) }
pub open spec fn dec(b: Seq<u8>) -> Option<Seq<IoTDBValue>> {
    match dect(b) { Some(s) => Some(wrapped(s)), None => None }
}
pub proof fn lemma_sig(v: $T) ensures sig$N(uns$N(v)) == v, uns$N(v) < $M {}
pub proof fn lemma_wrap(a: int, v: $T, k: int)
    requires a == v + k * $M
    ensures wrap(a) == v
{
    lemma_sig(v);
    if v >= 0 { assert(a % $M == v) by (nonlinear_arith) requires a == v + k * $M, 0 <= v < $M; }
    else { assert(a % $M == v + $M) by (nonlinear_arith) requires a == v + k * $M, -$M <= v < 0; }
}
/// a block appended at the end is decoded last
pub proof fn lemma_append(a: Seq<u8>, c: Seq<u8>)
    requires
        dect(a) is Some,
        block_ok(c),
        block_len(c) == c.len(),
    ensures
        dect(a + c) == Some(dect(a)->0 + block_vals(c)),
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + c =~= c);
        assert(c.subrange(block_len(c), c.len() as int) =~= Seq::empty());
        assert(dect(Seq::empty()) == Some(Seq::<$T>::empty()));
        assert(dect(a)->0 + block_vals(c) =~= block_vals(c));
        assert(block_vals(c) + Seq::<$T>::empty() =~= block_vals(c));
        assert(dect(c.subrange(block_len(c), c.len() as int)) == Some(Seq::<$T>::empty()));
        assert(c.len() > 0);
        assert(dect(c) == Some(block_vals(c) + Seq::<$T>::empty()));
    } else {
        let rest = a.subrange(block_len(a), a.len() as int);
        lemma_append(rest, c);
        let ac = a + c;
        assert(ac.subrange(0, 4) =~= a.subrange(0, 4));
        assert(ac.subrange(4, 8) =~= a.subrange(4, 8));
        assert(ac.subrange(8, $F) =~= a.subrange(8, $F));
        assert(ac.subrange($F, $H) =~= a.subrange($F, $H));
        assert(block_len(ac) == block_len(a));
        assert(ac.subrange($H, block_len(a)) =~= a.subrange($H, block_len(a)));
        assert(ac.subrange(block_len(a), ac.len() as int) =~= rest + c);
        assert(block_vals(a) + (dect(rest)->0 + block_vals(c)) =~= (block_vals(a) + dect(rest)->0) + block_vals(c));
    }
}
/// the packed differences stand for the differences
pub proof fn lemma_unpack(f: $T, min: $T, p: Seq<u8>, w: nat, ds: Seq<$T>, n: nat)
    requires
        n <= ds.len(),
        forall|i: int| 0 <= i < ds.len() ==> #[trigger] num(p, i * w, w) == ds[i] - min,
    ensures
        unpack(f, min, p, w, n) == pend(f, ds.take(n as int)),
        pend(f, ds.take(n as int)).len() == n + 1,
    decreases n
{
    if n > 0 {
        lemma_unpack(f, min, p, w, ds, (n - 1) as nat);
        assert(ds.take(n as int).drop_last() =~= ds.take(n - 1));
        assert(num(p, (n - 1) * w, w) == ds[n - 1] - min);
    } else {
        assert(ds.take(0) =~= Seq::empty());
    }
}
pub proof fn lemma_pend_len(f: $T, ds: Seq<$T>)
    ensures pend(f, ds).len() == ds.len() + 1
    decreases ds.len()
{ if ds.len() > 0 { lemma_pend_len(f, ds.drop_last()); } }
pub open spec fn block(n: nat, w: nat, min: $T, f: $T, p: Seq<u8>) -> Seq<u8> {
    be(n, 4) + be(w, 4) + be_$T(min) + be_$T(f) + p
}
pub proof fn lemma_block(w: nat, min: $T, f: $T, p: Seq<u8>, ds: Seq<$T>)
    requires
        ds.len() < 0x1_0000_0000, w <= $N,
        p.len() == payload_len(ds.len(), w),
        forall|i: int| 0 <= i < ds.len() ==> #[trigger] num(p, i * w, w) == ds[i] - min,
    ensures
        block_ok(block(ds.len(), w, min, f, p)),
        block_len(block(ds.len(), w, min, f, p)) == block(ds.len(), w, min, f, p).len(),
        block_vals(block(ds.len(), w, min, f, p)) == pend(f, ds),
{
    let b = block(ds.len(), w, min, f, p);
    lemma_be_len(ds.len(), 4); lemma_be_len(w, 4); lemma_be_len(uns$N(min), $B); lemma_be_len(uns$N(f), $B);
    lemma_p256();
    lemma_sig(min); lemma_sig(f);
    lemma_from_be(ds.len(), 4); lemma_from_be(w, 4); lemma_from_be(uns$N(min), $B); lemma_from_be(uns$N(f), $B);
    assert(b.subrange(0, 4) =~= be(ds.len(), 4));
    assert(b.subrange(4, 8) =~= be(w, 4));
    assert(b.subrange(8, $F) =~= be_$T(min));
    assert(b.subrange($F, $H) =~= be_$T(f));
    assert(b.subrange($H, b.len() as int) =~= p);
    lemma_unpack(f, min, p, w, ds, ds.len());
    assert(ds.take(ds.len() as int) =~= ds);
}
pub proof fn lemma_pos(i: nat, w: nat, k: nat)
    requires k < i
    ensures 0 <= k * w, k * w + w <= i * w, (k + 1) * w == k * w + w
{
    assert(k * w + w <= i * w) by (nonlinear_arith) requires k < i;
    assert((k + 1) * w == k * w + w) by (nonlinear_arith);
    assert(0 <= k * w) by (nonlinear_arith);
}
}
@@end
@@each T=i64|i32 U=u64|u32 N=64|32 B=8|4 V=LONG|INT E=LongTs2DiffEncoder|IntTs2DiffEncoder
@@module writer::encoding::time_encoder
impl<'a> vstd::std_specs::convert::TryFromSpecImpl<&'a IoTDBValue> for $T {
    // the contract of try_from itself says what it returns
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: &'a IoTDBValue) -> Result<$T, TsFileError> { arbitrary() }
}
impl $E {
    /// values of the open block
    pub open spec fn open_vals(&self) -> Seq<$T> {
        match self.first_value { Some(f) => crate::diff$N::pend(f, self.values@), None => Seq::empty() }
    }
    pub open spec fn inv(&self) -> bool {
        &&& self.first_value is None ==> self.values@.len() == 0
        &&& self.first_value is Some ==> self.previous_value == self.open_vals().last()
        &&& forall|i: int| 0 <= i < self.values@.len() ==> self.min_delta <= #[trigger] self.values@[i]
        &&& self.values@.len() == 0 ==> self.min_delta == $T::MAX
        &&& self.values@.len() <= 128
        &&& crate::diff$N::dect(self.buffer@) is Some
        &&& self.buffer@.len() <= 32 * crate::diff$N::dect(self.buffer@)->0.len()
    }
}
@@fn writer::encoding::time_encoder::$T as TryFrom<&IoTDBValue>::try_from
@@ret r
    ensures r == (match *value { IoTDBValue::$V(x) => Ok::<$T, TsFileError>(x), _ => Err::<$T, TsFileError>(TsFileError::WrongTypeForSeries) })
@@fn writer::encoding::time_encoder::$E::new
@@ret r
    ensures
        r.ok(),
        r.vals() =~= Seq::empty(),
@@impl writer::encoding::time_encoder::$E as Encoder
    open spec fn vals(&self) -> Seq<IoTDBValue> { crate::diff$N::wrapped(crate::diff$N::dect(self.buffer@)->0 + self.open_vals()) }
    open spec fn kind(&self) -> Kind { Kind::Diff$N }
    open spec fn ok(&self) -> bool { self.inv() && self.values@.len() < 128 }
@@replace? writer::encoding::time_encoder::$E as Encoder::write
value.try_into()?
=>
$T::try_from(value)?
@@fn writer::encoding::time_encoder::$E as Encoder::write
@@pre 0 if self.values.len()==128
                proof {
                    let o = *old(self);
                    let v: $T = value;
                    if o.first_value is Some {
                        let d = self.values@.last();
                        assert(self.values@ =~= o.values@.push(d));
                        assert(self.values@.drop_last() =~= o.values@);
                        let k: int = if o.previous_value + d == v { 0 } else if o.previous_value + d < v { -1 } else { 1 };
                        crate::diff$N::lemma_wrap(o.previous_value + d, v, k);
                        assert(self.open_vals() =~= o.open_vals().push(v));
                    } else {
                        assert(self.open_vals() =~= seq![v]);
                    }
                    assert(self.inv());
                    assert(self.vals() =~= o.vals().push(IoTDBValue::$V(v)));
                }
@@fn writer::encoding::time_encoder::$E as Encoder::size
@@fn writer::encoding::time_encoder::$E as Encoder::get_max_byte_size
@@entry
                proof { if let Some(f) = self.first_value { crate::diff$N::lemma_pend_len(f, self.values@); } }
@@fn writer::encoding::time_encoder::$E as Encoder::serialize
@@exit
        proof { assert(appended(old(buffer)@, final(buffer)@) =~= self.buffer@); }
@@fn writer::encoding::time_encoder::$E as Encoder::reset
@@fn writer::encoding::time_encoder::$E::get_value_width
@@ret r
    ensures
        r <= $N,
        r == $N || (#[verifier::truncate] (v as $U)) >> (r as $U) == 0,
@@fn writer::encoding::time_encoder::$E::calculate_bit_widths_for_delta_block_buffer
@@ret r
    ensures
        *final(self) == *old(self),
        r <= $N,
        r == $N || forall|i: int| 0 <= i < delta_block_buffer@.len() ==> (#[verifier::truncate] ((#[trigger] delta_block_buffer@[i]) as $U)) >> (r as $U) == 0,
@@loop 0
            invariant
                width <= $N,
                *self == *old(self),
                width == $N || forall|k: int| 0 <= k < i ==> (#[verifier::truncate] ((#[trigger] delta_block_buffer@[k]) as $U)) >> (width as $U) == 0,
@@in 0
                let ghost w0 = width;
@@inend 0
                proof {
                    assert(w0 <= width);
                    if width < $N {
                        assert forall|k: int| 0 <= k < i + 1 implies (#[verifier::truncate] ((#[trigger] delta_block_buffer@[k]) as $U)) >> (width as $U) == 0 by {
                            if k < i { lemma_mono$N(#[verifier::truncate] (delta_block_buffer@[k] as $U), w0 as $U, width as $U); }
                            else { lemma_mono$N(#[verifier::truncate] (delta_block_buffer@[k] as $U), value_width as $U, width as $U); }
                        }
                    }
                }
@@fn writer::encoding::time_encoder::$E::flush
    requires
        old(self).inv(),
    ensures
        final(self).ok(),
        final(self).vals() == old(self).vals(),
        final(self).values@.len() == 0,
        final(self).open_vals() =~= Seq::empty(),
@@exit
                proof { broadcast use be_len;
                    let c = crate::diff$N::block(old(self).values@.len(), write_width as nat, old(self).min_delta, old(self).first_value->0, payload_buffer@);
                    assert forall|i: int| 0 <= i < old(self).values@.len() implies #[trigger] num(payload_buffer@, i * write_width, write_width as nat) == old(self).values@[i] - old(self).min_delta by {
                        assert(uns$N(delta_block_buffer@[i]) == old(self).values@[i] - old(self).min_delta);
                    }
                    assert(self.buffer@ =~= old(self).buffer@ + c);
                    let n = old(self).values@.len();
                    assert(n * write_width <= 128 * 64) by (nonlinear_arith) requires n <= 128, write_width <= 64;
                    assert(n * write_width <= 64 * n) by (nonlinear_arith) requires write_width <= 64;
                    crate::diff$N::lemma_block(write_width as nat, old(self).min_delta, old(self).first_value->0, payload_buffer@, old(self).values@);
                    crate::diff$N::lemma_append(old(self).buffer@, c);
                    assert(self.open_vals() =~= Seq::empty());
                    crate::diff$N::lemma_pend_len(old(self).first_value->0, old(self).values@);
                    assert(payload_buffer@.len() <= 8 * n);
                    assert(crate::diff$N::dect(self.buffer@)->0.len() == crate::diff$N::dect(old(self).buffer@)->0.len() + n + 1);
                    assert(crate::diff$N::dect(self.buffer@)->0 + self.open_vals() =~= crate::diff$N::dect(old(self).buffer@)->0 + old(self).open_vals());
                }
@@iter 0 it
@@loop 0
                    invariant
                        *self == *old(self),
                        old(self).inv(),
                        it.seq().len() == self.values@.len(),
                        forall|k: int| 0 <= k < self.values@.len() ==> *(#[trigger] it.seq()[k]) == self.values@[k],
                        delta_block_buffer@.len() == it.index@,
                        forall|k: int| 0 <= k < it.index@ ==> uns$N(#[trigger] delta_block_buffer@[k]) == self.values@[k] - self.min_delta,
@@before 1
                proof { assert(payload_buffer@.len() == crate::diff$N::payload_len(0, write_width as nat)); }
@@loop 1
                    invariant
                        write_width <= $N,
                        delta_block_buffer@.len() == self.values@.len(),
                        delta_block_buffer@.len() <= 128,
                        write_width == $N || forall|k: int| 0 <= k < delta_block_buffer@.len() ==> (#[verifier::truncate] ((#[trigger] delta_block_buffer@[k]) as $U)) >> (write_width as $U) == 0,
                        payload_buffer@.len() == crate::diff$N::payload_len(i as nat, write_width as nat),
                        forall|k: int| 0 <= k < i ==> num(payload_buffer@, #[trigger] (k * write_width), write_width as nat) == uns$N(delta_block_buffer@[k]),
@@in 1
                    let ghost p0 = payload_buffer@;
                    proof {
                        crate::diff$N::lemma_pos(128, write_width as nat, i as nat);
                        lemma_uns$N(*buffer);
                        if write_width == $N { assert(i * write_width == $N * i); }
                        else {
                            assert(*buffer >= 0) by { lemma_neg$N(*buffer, write_width as $U); }
                        }
                    }
@@inend 1
                    proof {
                        let w = write_width as nat;
                        let p1 = payload_buffer@;
                        crate::diff$N::lemma_pos((i + 1) as nat, w, i as nat);
                        assert forall|k: int| 0 <= k < i + 1 implies num(p1, #[trigger] (k * write_width), w) == uns$N(delta_block_buffer@[k]) by {
                            if k < i {
                                crate::diff$N::lemma_pos(i as nat, w, k as nat);
                                lemma_num_ext(p0, p1, k * w, w);
                            } else {
                                if w < $N { lemma_widen$N(#[verifier::truncate] (*buffer as $U), write_width as $U); } else { lemma_top$N(#[verifier::truncate] (*buffer as $U)); }
                                lemma_num_bits(p1, k * w, w, uns$N(*buffer) as u64, w);
                            }
                        }
                    }
@@fn writer::encoding::time_encoder::$E::to_bytes
    requires
        width <= $N,
        pos + width <= usize::MAX - 16,
        number < 0 ==> pos % 8 == 0,
        width == $N || (#[verifier::truncate] (number as $U)) >> (width as $U) == 0,
        old(result)@.len() == (pos + 7) / 8,
    ensures
        final(result)@.len() == (pos + width + 7) / 8,
        forall|i: int| 0 <= i < pos ==> #[trigger] bit(final(result)@, i) == bit(old(result)@, i),
        forall|j: int| 0 <= j < width ==> #[trigger] bit(final(result)@, pos + j) == nbit(uns$N(number) as u64, width - 1 - j),
@@end
@@fn writer::encoding::time_encoder::LongTs2DiffEncoder::to_bytes
@@entry
        proof {
            assert(pos & 0x07 == pos % 8 && pos & 0x07 < 8) by (bit_vector);
            assert(pos >> 3 == pos / 8) by (bit_vector);
            assert(width <= 64 ==> #[verifier::truncate] (width as u8) == width) by (bit_vector);
        }
        let ghost u = #[verifier::truncate] (number as u64);
        proof { assert(number >= 0 ==> u == number) by (bit_vector) requires u == #[verifier::truncate] (number as u64);
                assert(number < 0 ==> u == number + 0x1_0000_0000_0000_0000) by (bit_vector) requires u == #[verifier::truncate] (number as u64); }
@@loop 0
            invariant
                width <= 64,
                pos + width <= usize::MAX - 16,
                my_width <= width,
                u == #[verifier::truncate] (number as u64),
                u == uns64(number),
                number < 0 ==> pos % 8 == 0,
                width == 64 || u >> (width as u64) == 0,
                index == (pos + width - my_width) / 8,
                cnt == (pos + width - my_width) % 8,
                result@.len() == (pos + width - my_width + 7) / 8,
                cnt == 0 || my_width == width || my_width == 0,
                forall|i: int| 0 <= i < pos ==> #[trigger] bit(result@, i) == bit(old(result)@, i),
                forall|j: int| 0 <= j < width - my_width ==> #[trigger] bit(result@, pos + j) == nbit(u, width - 1 - j),
            ensures
                my_width == 0,
            decreases my_width,
@@in 0
            let ghost r0 = result@;
            let ghost w0 = my_width;
            let ghost c0 = cnt;
@@loop 1
                invariant
                    old_count < 8,
                    i <= 8 - old_count,
                    new_mask == #[verifier::truncate] (((1u16 << (i as u16)) - 1) as u8),
@@before 1
            proof { assert(#[verifier::truncate] (((1u16 << 0u16) - 1) as u8) == 0) by (bit_vector); }
@@in 1
                proof { assert(i < 8 && new_mask == #[verifier::truncate] (((1u16 << (i as u16)) - 1) as u8) ==> new_mask | (1u8 << i) == #[verifier::truncate] (((1u16 << ((i + 1) as u16)) - 1) as u8)) by (bit_vector); }
@@loop 2
                invariant
                    my_width < 64,
@@post 0 result[index]=new_input
            proof {
                let r1 = result@;
                assert forall|i: int| 0 <= i < pos implies #[trigger] bit(r1, i) == bit(old(result)@, i) by {
                    assert(bit(r0, i) == bit(old(result)@, i));
                    if i / 8 == index as int {
                        lemma_byte64(number, u, if r0.len() > index { r0[index as int] } else { 0 }, r1[index as int], new_mask, y, c0, cnt, my_width, (i % 8) as u8);
                    }
                }
                assert forall|j: int| 0 <= j < width - my_width implies #[trigger] bit(r1, pos + j) == nbit(u, width - 1 - j) by {
                    let i = pos + j;
                    if j < width - w0 { assert(bit(r0, pos + j) == nbit(u, width - 1 - j)); }
                    if i / 8 == index as int {
                        lemma_byte64(number, u, if r0.len() > index { r0[index as int] } else { 0 }, r1[index as int], new_mask, y, c0, cnt, my_width, (i % 8) as u8);
                    }
                }
            }
@@fn writer::encoding::time_encoder::IntTs2DiffEncoder::to_bytes
@@entry
        proof {
            assert(pos & 0x07 == pos % 8 && pos & 0x07 < 8) by (bit_vector);
            assert(pos >> 3 == pos / 8) by (bit_vector);
            assert(width <= 64 ==> #[verifier::truncate] (width as u8) == width) by (bit_vector);
        }
        let ghost u = #[verifier::truncate] (number as u32) as u64;
        proof { assert(number >= 0 ==> u == number) by (bit_vector) requires u == #[verifier::truncate] (number as u32) as u64;
                assert(number < 0 ==> u == number + 0x1_0000_0000) by (bit_vector) requires u == #[verifier::truncate] (number as u32) as u64;
                let w64 = width as u64;
                let w32 = width as u32;
                let n32 = #[verifier::truncate] (number as u32);
                assert(w64 < 32 && w64 == w32 && u == n32 && n32 >> w32 == 0 ==> u >> w64 == 0) by (bit_vector);
                assert(w64 == 32 && u == n32 ==> u >> w64 == 0) by (bit_vector);
                assert((u ^ u) & ((1u64 << w64) - 1) as u64 == 0) by (bit_vector);
        }
@@loop 0
            invariant
                width <= 32,
                pos + width <= usize::MAX - 16,
                my_width <= width,
                u == #[verifier::truncate] (number as u32) as u64,
                u == uns32(number),
                index == (pos + width - my_width) / 8,
                cnt == (pos + width - my_width) % 8,
                result@.len() == (pos + width - my_width + 7) / 8,
                cnt == 0 || my_width == 0 || (my_number >= 0 && (#[verifier::truncate] (my_number as u32) as u64) >> (my_width as u64) == 0),
                ((#[verifier::truncate] (my_number as u32) as u64) ^ u) & ((1u64 << (my_width as u64)) - 1) as u64 == 0,
                forall|i: int| 0 <= i < pos ==> #[trigger] bit(result@, i) == bit(old(result)@, i),
                forall|j: int| 0 <= j < width - my_width ==> #[trigger] bit(result@, pos + j) == nbit(u, width - 1 - j),
            ensures
                my_width == 0,
            decreases my_width,
@@in 0
            let ghost r0 = result@;
            let ghost w0 = my_width;
            let ghost c0 = cnt;
            let ghost n0 = my_number;
            proof {
                assert(cnt < 8 ==> (1i32 << ((8 - cnt) as u8)) <= 256 && (1i32 << ((8 - cnt) as u8)) > 0) by (bit_vector);
            }
@@post 0 cnt+=m
            proof { assert(cnt <= 8 ==> (1i32 << ((8 - cnt) as u8)) <= 256 && (1i32 << ((8 - cnt) as u8)) > 0) by (bit_vector); }
@@post 0 my_number&=
            proof {
                let r1 = result@;
                let ghost mu = #[verifier::truncate] (n0 as u32) as u64;
                assert forall|i: int| 0 <= i < pos implies #[trigger] bit(r1, i) == bit(old(result)@, i) by {
                    assert(bit(r0, i) == bit(old(result)@, i));
                    if i / 8 == index as int {
                        lemma_byte32(n0, mu, u, if r0.len() > index { r0[index as int] } else { 0 }, r1[index as int], mask, y, c0, cnt, my_width, (i % 8) as u8);
                    }
                }
                assert forall|j: int| 0 <= j < width - my_width implies #[trigger] bit(r1, pos + j) == nbit(u, width - 1 - j) by {
                    let i = pos + j;
                    if j < width - w0 { assert(bit(r0, pos + j) == nbit(u, width - 1 - j)); }
                    if i / 8 == index as int {
                        lemma_byte32(n0, mu, u, if r0.len() > index { r0[index as int] } else { 0 }, r1[index as int], mask, y, c0, cnt, my_width, (i % 8) as u8);
                    }
                }
                lemma_low32(n0, my_number, mu, #[verifier::truncate] (my_number as u32) as u64, u, my_width, w0 as u64);
            }
