@@header
#![feature(allocator_api)]
#![feature(const_destruct)]
#![allow(unused_imports, unused_variables, dead_code, non_camel_case_types, unused_must_use, unused_mut)]
@@default_external
@@method to_be_bytes=verif_to_be_bytes
@@method cmp=verif_cmp
@@root writer=writer/mod.rs
@@drop writer::test_utils
@@drop writer::Path as Display
@@drop writer::Schema<'a> as Display
@@drop writer::chunk_writer::ChunkMetadata as Display
@@drop writer::errors::TsFileError as PartialEq
@@raw
global size_of usize == 8;
pub mod vspec {
pub use crate::maps::{MapKey, Keyed, Items, bytes_lt, str_lt, lists, sorted, order_of, axiom_order, map_of, key_views, kviews, kviews2, own_items, ref_items, lemma_map_of, lemma_bytes_lt, items_of, verif_vec, verif_collect, verif_items, verif_sorted_keys, verif_get, verif_get_mut};
pub use crate::schemas::*;
pub use crate::files::*;
pub use crate::groups::*;
pub use crate::writers::*;
pub use crate::index::*; pub use crate::trees::*; pub use crate::series::*; pub use crate::paths::*; pub use crate::footer::*; pub use crate::whole::*; pub use crate::closing::*; pub use crate::capi::{file_id, has_parent};
pub use crate::codes::*;
pub use crate::bits::*;
pub use crate::enc::*;
pub use crate::serial::*;
pub use crate::stats::*;
pub use crate::murmur::*;
pub use crate::bloom::*;
pub use crate::pages::*;
pub use crate::chunks::*;
pub use crate::vspec::snappy::{compressed, uncompressed_of, max_len};
pub use crate::schemalog::*;
pub use crate::syncing::*;
pub open spec fn u8i(x: u8) -> int { x as int }
use vstd::prelude::*;
pub mod snap {
    pub mod raw {
        use vstd::prelude::*;
        pub use crate::vspec::snappy::*;
    }
}
pub mod snappy {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct SnapError {}
    #[verifier::external_body]
    pub struct Encoder {}
    /// the result of compressing
    pub uninterp spec fn compressed(s: Seq<u8>) -> Seq<u8>;
    pub uninterp spec fn uncompressed_of(s: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body]
    pub proof fn axiom_snappy(s: Seq<u8>) ensures uncompressed_of(compressed(s)) == s {}
    impl Encoder {
        #[verifier::external_body]
        pub fn new() -> Encoder { unimplemented!() }
        #[verifier::external_body]
        pub fn compress(&mut self, input: &[u8], output: &mut [u8]) -> (r: Result<usize, SnapError>)
            ensures
                final(output)@.len() == old(output)@.len(),
                input@.len() <= 0x4000_0000 && old(output)@.len() >= max_len(input@.len()) ==> r is Ok,
                r is Ok ==> r->Ok_0 <= old(output)@.len() && r->Ok_0 <= max_len(input@.len()) && final(output)@.subrange(0, r->Ok_0 as int) == compressed(input@),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn max_compress_len(n: usize) -> (r: usize)
        ensures n <= 0x4000_0000 ==> r == max_len(n as nat)
    { unimplemented!() }
    pub open spec fn max_len(n: nat) -> nat { 32 + n + n / 6 }
}
use std::io;
use std::io::{Write, Read};

// ---------------------------------------------------------------- sinks
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

/// ErrorKind::Interrupted: std's write_all tries again
pub uninterp spec fn interrupted(e: io::Error) -> bool;

/// The contract of a sink. `out`: all bytes it has accepted; `failed`: it has reported an error
/// (other than Interrupted, which write_all retries); `wf`: representation invariant;
/// `whole`: accepts every buffer as a whole.
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(WriteSpec via WriteSpecImpl)]
pub trait ExWrite {
    type ExternalTraitSpecificationFor: std::io::Write;
    spec fn out(&self) -> Seq<u8>;
    spec fn failed(&self) -> bool;
    spec fn wf(&self) -> bool;
    spec fn whole(&self) -> bool;
    /// which sink it is
    spec fn id(&self) -> int;
    fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>)
        requires
            old(self).wf(),
        ensures
            final(self).wf(),
            final(self).whole() == old(self).whole(),
            final(self).id() == old(self).id(),
            final(self).out().len() <= i64::MAX,
            r is Ok ==> r->Ok_0 <= buf@.len() && final(self).out() == old(self).out() + buf@.subrange(0, r->Ok_0 as int)
                && final(self).failed() == old(self).failed(),
            r is Err ==> final(self).out() == old(self).out() && (interrupted(r->Err_0) || final(self).failed()),
            old(self).whole() ==> r is Ok && r->Ok_0 == buf@.len();
    fn flush(&mut self) -> (r: io::Result<()>)
        requires
            old(self).wf(),
        ensures
            final(self).wf(),
            final(self).whole() == old(self).whole(),
            final(self).id() == old(self).id(),
            final(self).out() == old(self).out(),
            r is Ok ==> final(self).failed() == old(self).failed(),
            r is Err ==> final(self).failed();
    fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>)
        requires
            old(self).wf(),
        ensures
            final(self).wf(),
            final(self).whole() == old(self).whole(),
            final(self).id() == old(self).id(),
            final(self).out().len() <= i64::MAX,
            r is Ok ==> final(self).out() == old(self).out() + buf@ && final(self).failed() == old(self).failed(),
            r is Err ==> final(self).failed();
}

/// some sink reports an error (other than Interrupted) in this run
pub uninterp spec fn io_fails() -> bool;
/// what `io_fails` means
pub broadcast axiom fn axiom_io_fails<W: Write>(w: &W)
    requires #[trigger] WriteSpec::failed(w)
    ensures io_fails();

/// The effect of an operation that appends `s` to a sink and reports `ok`.
pub open spec fn wrote<W: Write>(a: W, b: W, ok: bool, s: Seq<u8>) -> bool {
    &&& b.wf()
    &&& b.whole() == a.whole()
    &&& b.id() == a.id()
    &&& b.out().len() <= i64::MAX
    &&& ok ==> b.out() =~= a.out() + s && b.failed() == a.failed()
    &&& !ok ==> b.failed()
}

impl<A: std::alloc::Allocator> WriteSpecImpl for Vec<u8, A> {
    open spec fn out(&self) -> Seq<u8> { self@ }
    open spec fn failed(&self) -> bool { false }
    open spec fn wf(&self) -> bool { true }
    open spec fn whole(&self) -> bool { true }
    open spec fn id(&self) -> int { 0 }
}

impl ReadSpecImpl for &[u8] {
    open spec fn input(&self) -> Seq<u8> { self@ }
    open spec fn sure(&self) -> bool { true }
}
pub assume_specification<R: Read + ?Sized, W: Write + ?Sized> [ std::io::copy ] (r: &mut R, w: &mut W) -> (res: io::Result<u64>)
    requires
        (*old(w)).wf(),
    ensures
        (*final(w)).wf(),
        (*final(w)).whole() == (*old(w)).whole(),
        (*final(w)).id() == (*old(w)).id(),
        (*final(w)).out().len() <= i64::MAX,
        res is Ok ==> (*final(w)).out() == (*old(w)).out() + (*old(r)).input() && (*final(w)).failed() == (*old(w)).failed(),
        res is Err ==> (*final(w)).failed() || !(*old(r)).sure();
/// std's blanket implementation: a clone
pub assume_specification<T: Clone> [ <T as ToOwned>::to_owned ] (x: &T) -> (r: T)
    ensures vstd::pervasive::cloned(*x, r);
/// a Vec never holds more than isize::MAX bytes
#[verifier::external_body]
pub proof fn axiom_vec_bytes(v: &Vec<u8>) ensures v@.len() <= i64::MAX {}

/// The contract of a source: `input`: the bytes still to come.
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(ReadSpec via ReadSpecImpl)]
pub trait ExRead {
    type ExternalTraitSpecificationFor: std::io::Read;
    spec fn input(&self) -> Seq<u8>;
    /// never reports an error
    spec fn sure(&self) -> bool;
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: io::Result<()>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> old(self).input() == final(buf)@ + final(self).input(),
            old(self).input().len() < old(buf)@.len() ==> r is Err;
}

// ---------------------------------------------------------------- bytes
/// `n` modulo 256^k as k bytes, most significant first
pub open spec fn be(n: nat, k: nat) -> Seq<u8> decreases k {
    if k == 0 { Seq::empty() } else { be(n / 256, (k - 1) as nat).push((n % 256) as u8) }
}
pub proof fn lemma_be_len(n: nat, k: nat)
    ensures be(n, k).len() == k
    decreases k
{ if k > 0 { lemma_be_len(n / 256, (k - 1) as nat); } }
pub broadcast proof fn be_len(n: nat, k: nat)
    ensures #[trigger] be(n, k).len() == k
{ lemma_be_len(n, k); }

pub uninterp spec fn f32_bits(v: f32) -> u32;
pub uninterp spec fn f64_bits(v: f64) -> u64;
/// two's complement
pub open spec fn uns64(v: i64) -> nat { if v >= 0 { v as nat } else { (v + 0x1_0000_0000_0000_0000) as nat } }
pub open spec fn uns32(v: i32) -> nat { if v >= 0 { v as nat } else { (v + 0x1_0000_0000) as nat } }
pub open spec fn sig64(n: nat) -> i64 { if n < 0x8000_0000_0000_0000 { n as i64 } else { (n - 0x1_0000_0000_0000_0000) as i64 } }
pub open spec fn sig32(n: nat) -> i32 { if n < 0x8000_0000 { n as i32 } else { (n - 0x1_0000_0000) as i32 } }
pub open spec fn be_i64(v: i64) -> Seq<u8> { be(uns64(v), 8) }
pub open spec fn be_i32(v: i32) -> Seq<u8> { be(uns32(v), 4) }
/// the number that big-endian bytes stand for
pub open spec fn from_be(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { from_be(s.drop_last()) * 256 + s.last() as nat }
}
pub open spec fn p256(k: nat) -> nat decreases k { if k == 0 { 1 } else { 256 * p256((k - 1) as nat) } }
pub proof fn lemma_from_be(n: nat, k: nat)
    requires n < p256(k)
    ensures from_be(be(n, k)) == n
    decreases k
{
    if k > 0 {
        lemma_from_be(n / 256, (k - 1) as nat);
        assert(be(n, k).drop_last() =~= be(n / 256, (k - 1) as nat));
    }
}
pub proof fn lemma_p256()
    ensures p256(4) == 0x1_0000_0000, p256(8) == 0x1_0000_0000_0000_0000
{ assert(p256(4) == 0x1_0000_0000) by (compute); assert(p256(8) == 0x1_0000_0000_0000_0000) by (compute); }
pub open spec fn be_f32(v: f32) -> Seq<u8> { be(f32_bits(v) as nat, 4) }
pub open spec fn be_f64(v: f64) -> Seq<u8> { be(f64_bits(v) as nat, 8) }
/// std's to_be_bytes
pub trait BeBytes<const N: usize>: Sized {
    spec fn be_spec(self) -> Seq<u8>;
    fn verif_to_be_bytes(self) -> (r: [u8; N])
        ensures r@ == self.be_spec();
}
impl BeBytes<8> for i64 {
    open spec fn be_spec(self) -> Seq<u8> { be_i64(self) }
    #[verifier::external_body]
    fn verif_to_be_bytes(self) -> [u8; 8] { self.to_be_bytes() }
}
impl BeBytes<8> for u64 {
    open spec fn be_spec(self) -> Seq<u8> { be(self as nat, 8) }
    #[verifier::external_body]
    fn verif_to_be_bytes(self) -> [u8; 8] { self.to_be_bytes() }
}
impl BeBytes<8> for usize {
    open spec fn be_spec(self) -> Seq<u8> { be(self as nat, 8) }
    #[verifier::external_body]
    fn verif_to_be_bytes(self) -> [u8; 8] { self.to_be_bytes() }
}
impl BeBytes<4> for i32 {
    open spec fn be_spec(self) -> Seq<u8> { be_i32(self) }
    #[verifier::external_body]
    fn verif_to_be_bytes(self) -> [u8; 4] { self.to_be_bytes() }
}
impl BeBytes<4> for u32 {
    open spec fn be_spec(self) -> Seq<u8> { be(self as nat, 4) }
    #[verifier::external_body]
    fn verif_to_be_bytes(self) -> [u8; 4] { self.to_be_bytes() }
}
impl BeBytes<4> for f32 {
    open spec fn be_spec(self) -> Seq<u8> { be_f32(self) }
    #[verifier::external_body]
    fn verif_to_be_bytes(self) -> [u8; 4] { self.to_be_bytes() }
}
impl BeBytes<8> for f64 {
    open spec fn be_spec(self) -> Seq<u8> { be_f64(self) }
    #[verifier::external_body]
    fn verif_to_be_bytes(self) -> [u8; 8] { self.to_be_bytes() }
}

// ---------------------------------------------------------------- std functions without a specification in vstd
pub assume_specification [ i64::leading_zeros ] (v: i64) -> (r: u32)
    ensures r <= 64, r == 0 || #[verifier::truncate] (v as u64) >> ((64 - r) as u64) == 0;
pub assume_specification [ i32::leading_zeros ] (v: i32) -> (r: u32)
    ensures r <= 32, r == 0 || #[verifier::truncate] (v as u32) >> ((32 - r) as u32) == 0;
pub assume_specification<T: std::cmp::Ord + core::marker::Destruct> [ std::cmp::max ] (a: T, b: T) -> (r: T)
    ensures vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) == std::cmp::Ordering::Greater ==> r == a,
            vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) != std::cmp::Ordering::Greater ==> r == b;
pub assume_specification<T: core::marker::Destruct> [ core::mem::drop ] (x: T);
pub assume_specification<T: std::cmp::Ord + core::marker::Destruct> [ std::cmp::min ] (a: T, b: T) -> (r: T)
    ensures vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) == std::cmp::Ordering::Greater ==> r == b,
            vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) != std::cmp::Ordering::Greater ==> r == a;
pub assume_specification<T: Copy> [ <Option<&T>>::copied ] (o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification<T, F: FnOnce(T) -> bool + core::marker::Destruct> [ Option::is_some_and ] (o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->0,)),
    ensures r == (o is Some && r), o is Some ==> f.ensures((o->0,), r);
pub assume_specification<T, U: core::marker::Destruct, F: FnOnce(T) -> U + core::marker::Destruct> [ Option::map_or ] (o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)),
    ensures o is None ==> r == d, o is Some ==> f.ensures((o->0,), r);
pub assume_specification<F: FnOnce() -> std::cmp::Ordering + core::marker::Destruct> [ std::cmp::Ordering::then_with ] (o: std::cmp::Ordering, f: F) -> (r: std::cmp::Ordering)
    requires o is Equal ==> f.requires(()),
    ensures o is Equal ==> f.ensures((), r), !(o is Equal) ==> r == o;
pub assume_specification [ std::cmp::Ordering::then ] (o: std::cmp::Ordering, p: std::cmp::Ordering) -> (r: std::cmp::Ordering)
    ensures r == (if o is Equal { p } else { o });
pub assume_specification [ i64::wrapping_abs ] (x: i64) -> (r: i64)
    ensures r == (if x == i64::MIN { x as int } else if x < 0 { -x } else { x as int });
pub assume_specification [ i32::wrapping_abs ] (x: i32) -> (r: i32)
    ensures r == (if x == i32::MIN { x as int } else if x < 0 { -x } else { x as int });
pub assume_specification [ i32::unsigned_abs ] (x: i32) -> (r: u32)
    ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification [ i64::unsigned_abs ] (x: i64) -> (r: u64)
    ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification [ u64::abs_diff ] (x: u64, y: u64) -> (r: u64)
    ensures r == (if x < y { y - x } else { x - y });
pub assume_specification [ u64::div_ceil ] (x: u64, y: u64) -> (r: u64)
    requires y != 0
    ensures r == (x + y - 1) / y as int;
pub assume_specification [ u32::div_ceil ] (x: u32, y: u32) -> (r: u32)
    requires y != 0
    ensures r == (x + y - 1) / y as int;
pub assume_specification [ usize::div_ceil ] (x: usize, y: usize) -> (r: usize)
    requires y != 0
    ensures r == (x + y - 1) / y as int;
pub assume_specification<T: Clone> [ <[T]>::to_vec ] (x: &[T]) -> (r: Vec<T>)
    ensures r@.len() == x@.len(), forall|i: int| 0 <= i < x@.len() ==> cloned(#[trigger] x@[i], r@[i]);

/// canonical unsigned varint: base 128, least significant group first
pub open spec fn uvar(n: nat) -> Seq<u8> decreases n {
    if n < 128 { seq![n as u8] } else { seq![(n % 128 + 128) as u8] + uvar(n / 128) }
}
/// zigzag
pub open spec fn zig(n: i32) -> nat {
    if n >= 0 { (2 * n) as nat } else { (-2 * n - 1) as nat }
}
pub open spec fn ivar(n: i32) -> Seq<u8> { uvar(zig(n)) }
}
@@attrs writer::TSDataType
@@module writer::errors
impl vstd::std_specs::convert::FromSpecImpl<std::io::Error> for TsFileError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: std::io::Error) -> TsFileError { arbitrary() }
}
@@fn writer::errors::TsFileError as From<std::io::Error>::from
@@impl writer::PositionedWrite
@@fn writer::PositionedWrite::get_position
@@ret r
    requires
        WriteSpec::wf(self),
    ensures
        r == WriteSpec::out(self).len(),
        r <= i64::MAX,
