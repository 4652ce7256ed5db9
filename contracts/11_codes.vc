@@each T=writer::TSDataType|writer::encoding::TSEncoding|writer::compression::CompressionType S=type_code|encoding_code|compression_code M=writer|writer::encoding|writer::compression N=TSDataType|TSEncoding|CompressionType
@@fn $T::serialize
@@ret r
    ensures r == $S(*self)
@@fn $T as TryFrom<u8>::try_from
@@ret r
    ensures
        r is Ok ==> $S(r->Ok_0) == value,
        r is Err ==> forall|x: Self| #[trigger] $S(x) != value,
@@module $M
impl vstd::std_specs::convert::TryFromSpecImpl<u8> for $N {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: u8) -> Result<Self, ()> { arbitrary() }
}
/// derived
impl PartialEq for $N {
    #[verifier::external_body]
    fn eq(&self, o: &$N) -> bool { unimplemented!() }
}
impl Eq for $N {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for $N {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &$N) -> bool { *self == *other }
}
@@end
@@raw
pub mod codes {
use vstd::prelude::*;
use crate::writer::TSDataType;
use crate::writer::encoding::TSEncoding;
use crate::writer::compression::CompressionType;
pub open spec fn type_code(t: TSDataType) -> u8 { match t { TSDataType::INT32 => 1, TSDataType::INT64 => 2, TSDataType::FLOAT => 3 } }
pub open spec fn encoding_code(t: TSEncoding) -> u8 { match t { TSEncoding::PLAIN => 0, TSEncoding::TS2DIFF => 4 } }
pub open spec fn compression_code(t: CompressionType) -> u8 { match t { CompressionType::UNCOMPRESSED => 0, CompressionType::SNAPPY => 1 } }
// different things have different codes: a code determines what it was written for
pub proof fn codes_are_injective()
    ensures
        forall|a: TSDataType, b: TSDataType| type_code(a) == type_code(b) ==> a == b,
        forall|a: TSEncoding, b: TSEncoding| encoding_code(a) == encoding_code(b) ==> a == b,
        forall|a: CompressionType, b: CompressionType| compression_code(a) == compression_code(b) ==> a == b,
{}
}
