@@raw
/// the bloom filter as a reader sees it
pub mod bloom {
use vstd::prelude::*;
use crate::vspec::*;
use crate::writer::*;
use crate::writer::ts_file_config::TsFileConfig;
pub assume_specification [ i32::abs ] (x: i32) -> (r: i32)
    requires x != i32::MIN
    ensures r == if x < 0 { -x } else { x as int };
pub assume_specification<T> [ std::mem::replace ] (d: &mut T, s: T) -> (r: T)
    ensures *final(d) == s, r == *old(d);
/// the bit a reader tests for a path and a seed
pub open spec fn hash_bit(s: Seq<char>, seed: i32, cap: i32) -> int {
    let h = path_hash(s, seed);
    let a = if h == i32::MIN { 0 } else if h < 0 { -h } else { h as int };
    a % (cap as int)
}
/// byte k of a bit set, least significant bit first, from its first n bits
pub open spec fn byte_at(b: Seq<bool>, k: int, n: int) -> u8 decreases n {
    if n <= 0 { 0u8 } else {
        byte_at(b, k, n - 1) | (if 8 * k + n - 1 < b.len() && b[8 * k + n - 1] { 1u8 } else { 0u8 }) << ((n - 1) as u8)
    }
}
pub open spec fn clamp(x: int) -> int { if x < 0 { 0 } else if x > 8 { 8 } else { x } }
pub open spec fn bits_upto(b: Seq<bool>, i: int) -> Seq<u8> { Seq::new(((b.len() + 7) / 8) as nat, |k: int| byte_at(b, k, clamp(i - 8 * k))) }
/// without zero bytes at the end
pub open spec fn trim(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 0 && s.last() == 0 { trim(s.drop_last()) } else { s }
}
pub open spec fn bits_ser(b: Seq<bool>) -> Seq<u8> { trim(bits_upto(b, b.len() as int)) }
/// bit i, missing bytes count as zero
pub open spec fn lsb(s: Seq<u8>, i: int) -> bool { i / 8 < s.len() && (s[i / 8] >> ((i % 8) as u8)) & 1 == 1 }
pub proof fn lemma_byte_at(b: Seq<bool>, k: int, n: int, j: int)
    requires 0 <= n <= 8, 0 <= j < 8
    ensures
        ((byte_at(b, k, n) >> (j as u8)) & 1 == 1) == (j < n && 8 * k + j < b.len() && b[8 * k + j]),
    decreases n
{
    let m = j as u8;
    if n == 0 {
        assert((0u8 >> m) & 1 == 0) by (bit_vector) requires m < 8;
    } else {
        lemma_byte_at(b, k, n - 1, j);
        let a = byte_at(b, k, n - 1);
        let x = if 8 * k + n - 1 < b.len() && b[8 * k + n - 1] { 1u8 } else { 0u8 };
        let p = (n - 1) as u8;
        assert(p < 8 && m < 8 && x <= 1 ==> (((a | (x << p)) >> m) & 1 == 1) == ((a >> m) & 1 == 1 || (p == m && x == 1))) by (bit_vector);
    }
}
pub proof fn lemma_byte_tail(b: Seq<bool>, k: int, n: int, m: int)
    requires 0 <= n <= m, b.len() <= 8 * k + n
    ensures byte_at(b, k, m) == byte_at(b, k, n)
    decreases m - n
{
    if n < m {
        lemma_byte_tail(b, k, n, m - 1);
        let a = byte_at(b, k, m - 1);
        let p = (m - 1) as u8;
        assert(a | (0u8 << p) == a) by (bit_vector);
    }
}
pub proof fn lemma_trim(s: Seq<u8>, i: int)
    requires 0 <= i
    ensures lsb(trim(s), i) == lsb(s, i), trim(s).len() <= s.len()
    decreases s.len()
{
    if s.len() > 0 && s.last() == 0 {
        lemma_trim(s.drop_last(), i);
        let m = (i % 8) as u8;
        assert((0u8 >> m) & 1 == 0) by (bit_vector);
        if i / 8 < s.len() - 1 { assert(s.drop_last()[i / 8] == s[i / 8]); }
    }
}
pub proof fn lemma_trim_len(s: Seq<u8>)
    ensures trim(s).len() <= s.len()
    decreases s.len()
{ if s.len() > 0 && s.last() == 0 { lemma_trim_len(s.drop_last()); } }
/// what is read from the serialised bits is what was set
pub proof fn lemma_bits_ser(b: Seq<bool>, i: int)
    requires 0 <= i < b.len()
    ensures lsb(bits_ser(b), i) == b[i]
{
    let s = bits_upto(b, b.len() as int);
    lemma_trim(s, i);
    let k = i / 8;
    lemma_byte_at(b, k, clamp(b.len() - 8 * k), i % 8);
    assert(8 * k + i % 8 == i);
}
pub open spec fn bloom_ok(f: BloomFilter) -> bool {
    &&& 0 < f.size
    &&& f.bit_set@.len() == f.size
    &&& 0 <= f.hash_function_size
    &&& f.func@.len() == f.hash_function_size
    &&& forall|i: int| 0 <= i < f.func@.len() ==> (#[trigger] f.func@[i]).cap == f.size
}
/// the hash functions are those of the format
pub open spec fn seeded(f: BloomFilter, c: TsFileConfig) -> bool {
    f.func@.len() <= 8 && forall|i: int| 0 <= i < f.func@.len() ==> (#[trigger] f.func@[i]).seed == c.seeds@[i]
}
pub open spec fn funcs_ok(f: Vec<HashFunction>, n: int, size: i32, c: TsFileConfig) -> bool {
    f@.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] f@[k]).cap == size && f@[k].seed == c.seeds@[k]
}
/// all bits a reader tests for the path are set
pub open spec fn admits(f: BloomFilter, s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < f.func@.len() ==> f.bit_set@[hash_bit(s, #[trigger] f.func@[i].seed, f.size)]
}
pub open spec fn same_shape(f: BloomFilter, g: BloomFilter) -> bool {
    f.size == g.size && f.hash_function_size == g.hash_function_size && f.func == g.func
}
pub open spec fn bloom_ser(f: BloomFilter) -> Seq<u8> {
    let b = bits_ser(f.bit_set@);
    uvar(b.len()) + b + uvar(f.size as nat) + uvar(f.hash_function_size as nat)
}
pub open spec fn config_ok(c: TsFileConfig) -> bool {
    0 < c.minimal_size && 0 <= c.maximal_hash_function_size <= 8 && 2 <= c.max_degree_of_index_node
}
/// the remainder of Rust is that of mathematics here
pub proof fn lemma_rem(x: int, y: int)
    requires 0 <= x, 0 < y
    ensures vstd::arithmetic::div_mod::rust_rem(x, y) == x % y
{
    if x == 0 { vstd::arithmetic::div_mod::lemma_small_mod(0nat, y as nat); }
}
/// C11: the reader finds every bit it tests for an added path
pub proof fn c11_never_denies(f: BloomFilter, s: Seq<char>, i: int)
    requires bloom_ok(f), admits(f, s), 0 <= i < f.func@.len()
    ensures lsb(bits_ser(f.bit_set@), hash_bit(s, f.func@[i].seed, f.size))
{
    let h = hash_bit(s, f.func@[i].seed, f.size);
    lemma_bits_ser(f.bit_set@, h);
}
}
@@fn writer::HashFunction::new
@@ret r
    ensures r.cap == cap, r.seed == seed,
@@fn writer::HashFunction::_murmur_hash
@@ret r
    requires str_ok(s@),
    ensures r == path_hash(s@, seed),
@@fn writer::HashFunction::hash
@@ret r
    requires
        str_ok(value@),
        0 < self.cap,
    ensures
        r == hash_bit(value@, self.seed, self.cap),
        r < self.cap,
@@entry
        proof { assert forall|x: int, y: int| 0 <= x && 0 < y implies vstd::arithmetic::div_mod::rust_rem(x, y) == #[trigger] (x % y) by { lemma_rem(x, y); } }
@@fn writer::BloomFilter::add
    requires
        bloom_ok(*old(self)),
        str_ok(path@),
    ensures
        bloom_ok(*final(self)),
        same_shape(*final(self), *old(self)),
        forall|i: int| 0 <= i < old(self).bit_set@.len() && old(self).bit_set@[i] ==> #[trigger] final(self).bit_set@[i],
        admits(*final(self), path@),
@@iter 0 it
@@loop 0
        invariant
            bloom_ok(*self),
            same_shape(*self, *old(self)),
            str_ok(path@),
            it.seq().len() == self.func@.len(),
            forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == self.func@[k],
            forall|i: int| 0 <= i < old(self).bit_set@.len() && old(self).bit_set@[i] ==> #[trigger] self.bit_set@[i],
            forall|k: int| 0 <= k < it.index@ ==> self.bit_set@[hash_bit(path@, #[trigger] self.func@[k].seed, self.size)],
@@fn writer::BloomFilter::new
@@ret r
    requires
        0 < size,
        0 <= hash_function_size <= 8,
    ensures
        bloom_ok(r),
        seeded(r, *config),
        r.size == size,
        r.hash_function_size == hash_function_size,
@@loop 0
        invariant
            0 <= hash_function_size <= 8,
            funcs_ok(func, i as int, size, *config),
@@fn writer::BloomFilter::empty_filter
@@external
@@ret r
    requires
        config_ok(*config),
        0 <= num_of_string,
    ensures
        bloom_ok(r),
        seeded(r, *config),
@@fn writer::BloomFilter::build
@@ret r
    requires
        config_ok(*config),
        paths@.len() <= i32::MAX,
        forall|i: int| 0 <= i < paths@.len() ==> str_ok((#[trigger] paths@[i]).path@),
    ensures
        bloom_ok(r),
        seeded(r, *config),
        forall|i: int| 0 <= i < paths@.len() ==> admits(r, (#[trigger] paths@[i]).path@),
@@iter 0 it
@@loop 0
        invariant
            bloom_ok(filter),
            seeded(filter, *config),
            forall|k: int| 0 <= k < it.seq().len() ==> str_ok((#[trigger] it.seq()[k]).path@),
            forall|k: int| 0 <= k < it.index@ ==> admits(filter, (#[trigger] it.seq()[k]).path@),
@@fn writer::BloomFilter::serialize_bits
@@ret r
    requires
        self.bit_set@.len() <= i32::MAX,
    ensures
        r@ == bits_ser(self.bit_set@),
@@loop 0
        invariant
            result@ =~= bits_upto(self.bit_set@, i as int),
@@loop 1
        invariant
            trim(result@) == bits_ser(self.bit_set@),
        ensures
            result@ == bits_ser(self.bit_set@),
        decreases result@.len(),
@@impl writer::BloomFilter as Serializable
    open spec fn ser(&self) -> Seq<u8> { bloom_ser(*self) }
    open spec fn ser_ok(&self) -> bool { bloom_ok(*self) }
@@fn writer::BloomFilter as Serializable::serialize
@@ret r
@@entry
        proof { lemma_trim_len(bits_upto(self.bit_set@, self.bit_set@.len() as int)); }
