@@raw
pub mod enc {
use vstd::prelude::*;
use crate::vspec::*;
use crate::writer::{IoTDBValue, TSDataType};
use crate::writer::encoding::TSEncoding;

/// wire form of a value in the PLAIN encoding
pub open spec fn plain_val(v: IoTDBValue) -> Seq<u8> {
    match v {
        IoTDBValue::DOUBLE(x) => be_f64(x),
        IoTDBValue::FLOAT(x) => be_f32(x),
        IoTDBValue::INT(x) => ivar(x),
        IoTDBValue::LONG(x) => be_i64(x),
    }
}
pub open spec fn plain_vals(s: Seq<IoTDBValue>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { plain_vals(s.drop_last()) + plain_val(s.last()) }
}
pub enum Kind { Plain, Diff64, Diff32 }
/// the values an encoder takes
pub open spec fn accepts(k: Kind, v: IoTDBValue) -> bool {
    match k { Kind::Plain => true, Kind::Diff64 => v is LONG, Kind::Diff32 => v is INT }
}
/// `b` is an encoding of `s`
pub open spec fn encodes(k: Kind, b: Seq<u8>, s: Seq<IoTDBValue>) -> bool {
    match k {
        Kind::Plain => b == plain_vals(s),
        Kind::Diff64 => crate::diff64::dec(b) == Some(s),
        Kind::Diff32 => crate::diff32::dec(b) == Some(s),
    }
}
pub open spec fn kind_of(t: TSDataType, e: TSEncoding) -> Option<Kind> {
    match (e, t) {
        (TSEncoding::PLAIN, _) => Some(Kind::Plain),
        (TSEncoding::TS2DIFF, TSDataType::INT64) => Some(Kind::Diff64),
        (TSEncoding::TS2DIFF, TSDataType::INT32) => Some(Kind::Diff32),
        (TSEncoding::TS2DIFF, TSDataType::FLOAT) => None,
    }
}
/// `b` is `a` with `s` appended
pub open spec fn appended(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { b.subrange(a.len() as int, b.len() as int) }
pub open spec fn extends(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) =~= a }
}
@@impl writer::encoding::Encoder
    spec fn vals(&self) -> Seq<IoTDBValue>;
    spec fn kind(&self) -> Kind;
    spec fn ok(&self) -> bool;
@@fn writer::encoding::Encoder::write
@@ret r
        requires
            old(self).ok(),
        ensures
            final(self).ok(),
            final(self).kind() == old(self).kind(),
            r is Ok == accepts(old(self).kind(), *value),
            r is Ok ==> final(self).vals() =~= old(self).vals().push(*value),
            r is Err ==> final(self).vals() == old(self).vals() && r->Err_0 is WrongTypeForSeries,
@@fn writer::encoding::Encoder::size
@@ret r
        requires
            old(self).ok(),
            old(self).vals().len() <= 0x0080_0000,
        ensures
            final(self).ok(), final(self).kind() == old(self).kind(), final(self).vals() == old(self).vals(),
            r <= 32 * old(self).vals().len(),
@@fn writer::encoding::Encoder::get_max_byte_size
@@ret r
        requires
            self.ok(),
            self.vals().len() <= 0x0080_0000,
        ensures
            r <= 32 * self.vals().len() + 32,
@@fn writer::encoding::Encoder::serialize
        requires
            old(self).ok(),
        ensures
            final(self).ok(),
            final(self).kind() == old(self).kind(),
            final(self).vals() == old(self).vals(),
            extends(old(buffer)@, final(buffer)@),
            encodes(old(self).kind(), appended(old(buffer)@, final(buffer)@), old(self).vals()),
            final(buffer)@.len() <= old(buffer)@.len() + 32 * old(self).vals().len(),
@@fn writer::encoding::Encoder::reset
        requires
            old(self).ok(),
        ensures
            final(self).ok(),
            final(self).kind() == old(self).kind(),
            final(self).vals() =~= Seq::empty(),
