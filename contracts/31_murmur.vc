@@method wrapping_add=verif_wrapping_add
@@method wrapping_mul=verif_wrapping_mul
@@raw
/// MurmurHash3 x64 128 (Austin Appleby), over unsigned 64-bit words
pub mod murmur {
use vstd::prelude::*;
use crate::vspec::*;
pub open spec fn m64() -> int { 0x1_0000_0000_0000_0000 }
/// the word with the bits of v
#[verifier::opaque]
pub open spec fn tou(v: i64) -> u64 { if v >= 0 { v as u64 } else { (v + m64()) as u64 } }
#[verifier::opaque]
pub open spec fn addw(a: u64, b: u64) -> u64 { ((a + b) % m64()) as u64 }
#[verifier::opaque]
pub open spec fn mulw(a: u64, b: u64) -> u64 { ((a as int * b as int) % m64()) as u64 }
#[verifier::opaque]
pub open spec fn rotl(x: u64, r: u64) -> u64 { (x << r) | (x >> ((64 - r) as u64)) }
pub open spec fn cc1() -> u64 { 0x87c37b91114253d5 }
pub open spec fn cc2() -> u64 { 0x4cf5ad432745937f }
#[verifier::opaque]
pub open spec fn fmixu(k: u64) -> u64 {
    let k = k ^ (k >> 33);
    let k = mulw(k, 0xff51afd7ed558ccd);
    let k = k ^ (k >> 33);
    let k = mulw(k, 0xc4ceb9fe1a85ec53);
    k ^ (k >> 33)
}
/// 8 bytes from p, least significant first
#[verifier::opaque]
pub open spec fn word(s: Seq<u8>, p: int) -> u64 {
    (s[p] + s[p + 1] * 0x100 + s[p + 2] * 0x1_0000 + s[p + 3] * 0x100_0000 + s[p + 4] * 0x1_0000_0000
        + s[p + 5] * 0x100_0000_0000 + s[p + 6] * 0x1_0000_0000_0000 + s[p + 7] * 0x100_0000_0000_0000) as u64
}
#[verifier::opaque]
pub open spec fn mix1(k: u64) -> u64 { mulw(rotl(mulw(k, cc1()), 31), cc2()) }
#[verifier::opaque]
pub open spec fn mix2(k: u64) -> u64 { mulw(rotl(mulw(k, cc2()), 33), cc1()) }
/// one block of 16 bytes
#[verifier::opaque]
pub open spec fn block(h: (u64, u64), k1: u64, k2: u64) -> (u64, u64) {
    let h1 = addw(mulw(addw(rotl(h.0 ^ mix1(k1), 27), h.1), 5), 0x52dce729);
    let h2 = addw(mulw(addw(rotl(h.1 ^ mix2(k2), 31), h1), 5), 0x38495ab5);
    (h1, h2)
}
pub open spec fn blocks(s: Seq<u8>, n: nat, seed: u64) -> (u64, u64) decreases n {
    if n == 0 { (seed, seed) } else { block(blocks(s, (n - 1) as nat, seed), word(s, 16 * (n - 1)), word(s, 16 * (n - 1) + 8)) }
}
/// bytes lo..hi of the tail, byte j shifted by 8 * (j - base)
pub open spec fn tailw(s: Seq<u8>, at: int, lo: int, hi: int, base: int) -> u64 decreases hi - lo {
    if lo >= hi { 0 } else { tailw(s, at, lo + 1, hi, base) ^ ((s[at + lo] as u64) << ((8 * (lo - base)) as u64)) }
}
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn murmur128(s: Seq<u8>, seed: u64) -> (u64, u64) {
    let n = s.len() / 16;
    let t = (s.len() % 16) as int;
    let h = blocks(s, n, seed);
    let k1 = tailw(s, 16 * n as int, 0, imin(t, 8), 0);
    let k2 = tailw(s, 16 * n as int, 8, t, 8);
    let h2 = h.1 ^ mix2(k2);
    let h1 = h.0 ^ mix1(k1);
    let h1 = h1 ^ (s.len() as u64);
    let h2 = h2 ^ (s.len() as u64);
    let h1 = addw(h1, h2);
    let h2 = addw(h2, h1);
    let h1 = fmixu(h1);
    let h2 = fmixu(h2);
    let h1 = addw(h1, h2);
    let h2 = addw(h2, h1);
    (h1, h2)
}
/// the hash of the code: the sum of the two halves
#[verifier::opaque]
pub open spec fn murmur_sum(s: Seq<u8>, seed: u64) -> u64 { addw(murmur128(s, seed).0, murmur128(s, seed).1) }

/// low 32 bits
pub open spec fn path_hash(s: Seq<char>, seed: i32) -> i32 {
    low32(murmur_sum(sbytes(s), tou(seed as i64)))
}
pub open spec fn low32(x: u64) -> i32 { let n = x % 0x1_0000_0000; if n < 0x8000_0000 { n as i32 } else { (n - 0x1_0000_0000) as i32 } }
pub broadcast proof fn lemma_lowi32(x: i64)
    ensures #[trigger] low32(tou(x)) == #[verifier::truncate] (x as i32)
{
    lemma_tou(x);
    let u = tou(x);
    let n = u % 0x1_0000_0000;
    assert(u == #[verifier::truncate] (x as u64) && n == u % 0x1_0000_0000 && n < 0x8000_0000 ==> n as i32 == #[verifier::truncate] (x as i32)) by (bit_vector);
    assert(u == #[verifier::truncate] (x as u64) && n == u % 0x1_0000_0000 && n >= 0x8000_0000 ==> n - 0x1_0000_0000 == #[verifier::truncate] (x as i32)) by (bit_vector);
}
pub assume_specification [ i64::overflowing_add ] (a: i64, b: i64) -> (r: (i64, bool))
    ensures tou(r.0) == addw(tou(a), tou(b));
impl Wrap for i64 {
    open spec fn w(self) -> u64 { tou(self) }
    fn verif_wrapping_add(self, o: i64) -> (r: i64) { proof { reveal(tou); reveal(addw); } self.wrapping_add(o) }
    fn verif_wrapping_mul(self, o: i64) -> (r: i64) { proof { reveal(tou); lemma_mulrep(self, o as int, tou(o)); } self.wrapping_mul(o) }
}
pub trait Wrap: Sized {
    spec fn w(self) -> u64;
    fn verif_wrapping_add(self, o: Self) -> (r: Self) ensures r.w() == addw(self.w(), o.w());
    fn verif_wrapping_mul(self, o: Self) -> (r: Self) ensures r.w() == mulw(self.w(), o.w());
}
pub proof fn lemma_tou(v: i64)
    ensures (#[verifier::truncate] (v as u64)) == tou(v)
{
    reveal(tou);
    assert(v >= 0 ==> #[verifier::truncate] (v as u64) == v) by (bit_vector);
    assert(v < 0 ==> #[verifier::truncate] (v as u64) == v + 0x1_0000_0000_0000_0000) by (bit_vector);
}
pub proof fn lemma_toi(v: u64)
    ensures tou(#[verifier::truncate] (v as i64)) == v
{
    let z = #[verifier::truncate] (v as i64);
    lemma_tou(z);
    assert(#[verifier::truncate] ((#[verifier::truncate] (v as i64)) as u64) == v) by (bit_vector);
}
pub proof fn lemma_trunc(x: i128)
    ensures tou(#[verifier::truncate] (x as i64)) == (x as int) % m64()
{
    reveal(tou);
    let q = ((x as int) / m64()) as i128;
    let r = ((x as int) % m64()) as u64;
    assert(x == q * 0x1_0000_0000_0000_0000 + r) by (nonlinear_arith)
        requires q == (x as int) / 0x1_0000_0000_0000_0000, r == (x as int) % 0x1_0000_0000_0000_0000;
    let z = #[verifier::truncate] (x as i64);
    assert(x == q * 0x1_0000_0000_0000_0000i128 + r ==> #[verifier::truncate] (x as u64) == r) by (bit_vector);
    lemma_tou(z);
    assert(#[verifier::truncate] ((#[verifier::truncate] (x as i64)) as u64) == #[verifier::truncate] (x as u64)) by (bit_vector);
}
/// products and sums of words may be computed on any representatives
pub proof fn lemma_mulrep(a: i64, b: int, bw: u64)
    requires b == bw || b == bw - m64(), -0x8000_0000_0000_0000 <= b
    ensures (a * b) % m64() == mulw(tou(a), bw), i128::MIN <= a * b <= i128::MAX
{
    reveal(tou); reveal(mulw);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop(a as int, b, m64());
    vstd::arithmetic::div_mod::lemma_mul_mod_noop(tou(a) as int, bw as int, m64());
    assert((a as int) % m64() == (tou(a) as int) % m64());
    assert(b % m64() == (bw as int) % m64());
    assert(-0x8000_0000_0000_0000_0000_0000_0000_0000 <= a * b <= 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by (nonlinear_arith)
        requires -0x8000_0000_0000_0000 <= a < 0x8000_0000_0000_0000, -0x8000_0000_0000_0000 <= b < 0x1_0000_0000_0000_0000;
}
pub proof fn lemma_mulii(a: i64, b: i64)
    ensures tou(#[verifier::truncate] ((a * b) as i128 as i64)) == mulw(tou(a), tou(b)), i128::MIN <= a * b <= i128::MAX
{
    reveal(tou);
    lemma_mulrep(a, b as int, tou(b));
    lemma_trunc((a * b) as i128);
}
pub proof fn lemma_addii(a: i64, b: i64)
    ensures tou(#[verifier::truncate] ((a + b) as i128 as i64)) == addw(tou(a), tou(b))
{
    reveal(tou); reveal(addw);
    lemma_trunc((a + b) as i128);
}
pub broadcast proof fn lemma_xor(a: i64, b: i64)
    ensures tou(#[trigger] (a ^ b)) == tou(a) ^ tou(b)
{
    lemma_tou(a); lemma_tou(b); lemma_tou(a ^ b);
    assert(#[verifier::truncate] ((a ^ b) as u64) == (#[verifier::truncate] (a as u64)) ^ (#[verifier::truncate] (b as u64))) by (bit_vector);
}
pub proof fn lemma_rot(v: i64, n: i64)
    requires 0 < n < 64
    ensures
        tou((v << n) | #[verifier::truncate] (((#[verifier::truncate] (v as u64)) >> ((64 - n) as i64)) as i64)) == rotl(tou(v), n as u64),
{
    reveal(rotl);
    let m = n as u64;
    let j = (64 - n) as u64;
    let w = (v << n) | #[verifier::truncate] (((#[verifier::truncate] (v as u64)) >> ((64 - n) as i64)) as i64);
    lemma_tou(v); lemma_tou(w);
    let u = tou(v);
    assert(w == (v << m) | #[verifier::truncate] (((#[verifier::truncate] (v as u64)) >> j) as i64));
    assert(0 < m && m < 64 && j == 64 - m && u == #[verifier::truncate] (v as u64) ==>
        #[verifier::truncate] (((v << m) | #[verifier::truncate] (((#[verifier::truncate] (v as u64)) >> j) as i64)) as u64) == (u << m) | (u >> j)) by (bit_vector);
}
/// ^ (k >> 33)
pub proof fn lemma_fx(k: i64)
    ensures tou(k ^ #[verifier::truncate] (((#[verifier::truncate] (k as u64)) >> 33) as i64)) == tou(k) ^ (tou(k) >> 33)
{
    let w = k ^ #[verifier::truncate] (((#[verifier::truncate] (k as u64)) >> 33) as i64);
    lemma_tou(k); lemma_tou(w);
    let u = tou(k);
    assert(u == #[verifier::truncate] (k as u64) ==>
        #[verifier::truncate] ((k ^ #[verifier::truncate] (((#[verifier::truncate] (k as u64)) >> 33) as i64)) as u64) == u ^ (u >> 33)) by (bit_vector);
}
pub proof fn lemma_byte(b: u8)
    ensures
        b as i64 & 0xff == b,
        (b as i64 & 0xff) << 8 == b * 0x100,
        (b as i64 & 0xff) << 16 == b * 0x1_0000,
        (b as i64 & 0xff) << 24 == b * 0x100_0000,
        (b as i64 & 0xff) << 32 == b * 0x1_0000_0000,
        (b as i64 & 0xff) << 40 == b * 0x100_0000_0000,
        (b as i64 & 0xff) << 48 == b * 0x1_0000_0000_0000,
        (b as i64 & 0xff) << 56 == (if b < 128 { b * 0x100_0000_0000_0000 } else { b * 0x100_0000_0000_0000 - 0x1_0000_0000_0000_0000 }),
{
    assert(b as i64 & 0xff == b) by (bit_vector);
    assert((b as i64 & 0xff) << 8 == b * 0x100) by (bit_vector);
    assert((b as i64 & 0xff) << 16 == b * 0x1_0000) by (bit_vector);
    assert((b as i64 & 0xff) << 24 == b * 0x100_0000) by (bit_vector);
    assert((b as i64 & 0xff) << 32 == b * 0x1_0000_0000) by (bit_vector);
    assert((b as i64 & 0xff) << 40 == b * 0x100_0000_0000) by (bit_vector);
    assert((b as i64 & 0xff) << 48 == b * 0x1_0000_0000_0000) by (bit_vector);
    assert(b < 128 ==> (b as i64 & 0xff) << 56 == b * 0x100_0000_0000_0000) by (bit_vector);
    assert(b >= 128 ==> (b as i64 & 0xff) << 56 == b * 0x100_0000_0000_0000 - 0x1_0000_0000_0000_0000) by (bit_vector);
}
pub proof fn lemma_word(key: Seq<u8>, p: int)
    requires 0 <= p, p + 8 <= key.len()
    ensures ({
        let t0 = (key[p] as i64 & 0xff);
        let t1 = t0 + ((key[p + 1] as i64 & 0xff) << 8);
        let t2 = t1 + ((key[p + 2] as i64 & 0xff) << 16);
        let t3 = t2 + ((key[p + 3] as i64 & 0xff) << 24);
        let t4 = t3 + ((key[p + 4] as i64 & 0xff) << 32);
        let t5 = t4 + ((key[p + 5] as i64 & 0xff) << 40);
        let t6 = t5 + ((key[p + 6] as i64 & 0xff) << 48);
        let t7 = t6 + ((key[p + 7] as i64 & 0xff) << 56);
        &&& 0 <= t0 && 0 <= t1 && 0 <= t2 && 0 <= t3 && 0 <= t4 && 0 <= t5 && 0 <= t6
        &&& t0 <= i64::MAX && t1 <= i64::MAX && t2 <= i64::MAX && t3 <= i64::MAX && t4 <= i64::MAX && t5 <= i64::MAX && t6 <= i64::MAX
        &&& i64::MIN <= t7 <= i64::MAX
        &&& tou(t7 as i64) == word(key, p)
    })
{
    reveal(word); reveal(tou);
    lemma_byte(key[p]); lemma_byte(key[p + 1]); lemma_byte(key[p + 2]); lemma_byte(key[p + 3]);
    lemma_byte(key[p + 4]); lemma_byte(key[p + 5]); lemma_byte(key[p + 6]); lemma_byte(key[p + 7]);
}
/// ^ (b << n)
pub proof fn lemma_tail(k: i64, b: u8, n: i64)
    requires 0 <= n < 64
    ensures
        tou(k ^ ((b as i64) << n)) == tou(k) ^ ((b as u64) << (n as u64)),
        n == 0 ==> (b as i64) << n == b,
{
    let w = k ^ ((b as i64) << n);
    let m = n as u64;
    lemma_tou(k); lemma_tou(w);
    let u = tou(k);
    assert(w == k ^ ((b as i64) << m));
    assert(m < 64 && u == #[verifier::truncate] (k as u64) ==>
        #[verifier::truncate] ((k ^ ((b as i64) << m)) as u64) == u ^ ((b as u64) << m)) by (bit_vector);
    assert((b as i64) << 0u64 == b) by (bit_vector);
}
pub proof fn lemma_len(length: i32)
    requires length >= 0
    ensures length >> 4 == length / 16, length & 15 == length % 16
{
    assert(length >= 0 ==> length >> 4 == length / 16) by (bit_vector);
    assert(length >= 0 ==> length & 15 == length % 16) by (bit_vector);
}
}
@@module writer::murmur128
pub proof fn lemma_mix0()
    ensures mix1(0) == 0, mix2(0) == 0
{
    reveal(mix1); reveal(mix2); reveal(mulw); reveal(rotl);
    let z = 0u64;
    assert(z << 31u64 | z >> 33u64 == 0) by (bit_vector) requires z == 0;
    assert(z << 33u64 | z >> 31u64 == 0) by (bit_vector) requires z == 0;
}
pub proof fn lemma_x0(x: u64) ensures x ^ 0 == x, 0 ^ x == x { assert(x ^ 0 == x) by (bit_vector); assert(0 ^ x == x) by (bit_vector); }
@@fn writer::murmur128::Murmur128::get_block
@@ret r
    requires
        0 <= index < 0x1000_0000,
        offset + 8 * index + 8 <= key@.len(),
    ensures
        tou(r) == word(key@, offset + 8 * index),
@@entry
    proof {
        assert(0 <= index < 0x1000_0000 ==> index << 3 == 8 * index) by (bit_vector);
        lemma_word(key@, offset + 8 * index);
        assert(key@.len() == key.len());
    }
@@fn writer::murmur128::Murmur128::rotl64
@@ret r
    requires
        0 < n < 64,
    ensures
        tou(r) == rotl(tou(v), n as u64),
@@entry
    proof { lemma_rot(v, n); }
@@fn writer::murmur128::Murmur128::fmix
@@ret r
    ensures
        tou(r) == fmixu(tou(k)),
@@entry
    proof { reveal(fmixu); lemma_fx(k); }
@@pre 0 k = ((k as i128) * 0xff51afd7ed558ccd) as i64
    proof { lemma_mulrep(k, 0xff51afd7ed558ccd, 0xff51afd7ed558ccd); lemma_trunc((k * 0xff51afd7ed558ccd) as i128); }
@@post 0 k = ((k as i128) * 0xff51afd7ed558ccd) as i64
    proof { lemma_fx(k); }
@@pre 0 k = ((k as i128) * 0xc4ceb9fe1a85ec53) as i64
    proof { lemma_mulrep(k, 0xc4ceb9fe1a85ec53, 0xc4ceb9fe1a85ec53); lemma_trunc((k * 0xc4ceb9fe1a85ec53) as i128); }
@@post 0 k = ((k as i128) * 0xc4ceb9fe1a85ec53) as i64
    proof { lemma_fx(k); }
@@fn writer::murmur128::Murmur128::inner_hash
@@opt wrap_i64_literals
@@ret r
    requires
        0 <= length,
        offset + length <= key@.len(),
        offset == 0,
        key@.len() == length,
    ensures
        tou(r) == murmur_sum(key@, tou(seed)),
@@entry
    proof { lemma_len(length); assert(key@.len() == key.len()); }
@@before 0
        proof { reveal(tou); }
@@loop 0
        invariant
            0 <= length,
            nblocks == length / 16,
            offset == 0,
            key@.len() == length,
            tou(c1) == cc1(),
            tou(c2) == cc2(),
            (tou(h1), tou(h2)) == blocks(key@, i as nat, tou(seed)),
@@pre 0 h1 ^= k1
            proof { lemma_xor(h1, k1); }
@@pre 0 h2 ^= k2
            proof { lemma_xor(h2, k2); }
@@pre 1 h2 ^= k2
                    proof { lemma_xor(h2, k2); }
@@pre 1 h1 ^= k1
                    proof { lemma_xor(h1, k1); }
@@pre 0 h1 ^= length
        proof { reveal(tou); lemma_xor(h1, length as i64); }
@@pre 0 h2 ^= length
        proof { lemma_xor(h2, length as i64); }
@@inend 0
        proof {
            reveal(block); reveal(mix1); reveal(mix2); reveal(tou);
            assert((tou(h1), tou(h2)) == blocks(key@, (i + 1) as nat, tou(seed)));
        }
@@before 1
        let ghost t = (length % 16) as int;
        let ghost b = blocks(key@, (length / 16) as nat, tou(seed));
        proof { reveal(mix1); reveal(mix2); reveal(tou); lemma_mix0(); lemma_x0(b.0); lemma_x0(b.1); assert(nblocks as usize * 16 + t == length); }
@@loop 1
        invariant
            0 <= length,
            nblocks == length / 16,
            t == length % 16,
            offset == 16 * (length / 16),
            offset + t == length,
            key@.len() == length,
            tou(c1) == cc1(),
            tou(c2) == cc2(),
            0 <= identifier <= t,
            identifier > 8 ==> tou(k2) == tailw(key@, offset as int, identifier as int, t, 8) && tou(h2) == b.1,
            identifier == 8 ==> tou(k2) == 0 || t > 8,
            identifier <= 8 ==> tou(h2) == b.1 ^ mix2(tailw(key@, offset as int, 8, t, 8)),
            identifier > 0 ==> tou(h1) == b.0,
            identifier > 0 ==> tou(k1) == tailw(key@, offset as int, identifier as int, imin(t, 8), 0),
            identifier == 0 ==> tou(h1) == b.0 ^ mix1(tailw(key@, offset as int, 0, imin(t, 8), 0)),
        ensures
            identifier == 0,
        decreases identifier,
@@in 1
            let ghost j = identifier as int;
            proof {
                reveal(mix1); reveal(mix2);
                assert(key@.len() == key.len());
                let x = key@[offset + j - 1];
                if j >= 9 { lemma_tail(k2, x, (8 * (j - 9)) as i64); } else { lemma_tail(k1, x, (8 * (j - 1)) as i64); }
            }
@@pre 0 k2 = ((k2 as i128) * (c2 as i128)) as i64
                    proof { lemma_mulii(k2, c2); }
@@pre 0 k2 = ((k2 as i128) * (c1 as i128)) as i64
                    proof { lemma_mulii(k2, c1); }
@@pre 0 k1 = ((k1 as i128) * (c1 as i128)) as i64
                    proof { lemma_mulii(k1, c1); }
@@pre 0 k1 = ((k1 as i128) * (c2 as i128)) as i64
                    proof { lemma_mulii(k1, c2); }
@@pre 0 h1 = ((h1 as i128) + (h2 as i128)) as i64
        proof { lemma_addii(h1, h2); }
@@pre 0 h2 = ((h2 as i128) + (h1 as i128)) as i64
        proof { lemma_addii(h2, h1); reveal(murmur_sum); }
@@fn writer::murmur128::Murmur128::hash
@@ret r
    requires
        str_ok(value@),
    ensures
        r == path_hash(value@, seed),
@@entry
    broadcast use lemma_lowi32;
