@@raw
/// floating-point operations, as far as they are deterministic functions of their operands
pub mod floats {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
pub uninterp spec fn flt(a: f32, b: f32) -> bool;
pub uninterp spec fn fadd(a: f64, b: f64) -> f64;
pub uninterp spec fn f64_of_i64(a: i64) -> f64;
pub uninterp spec fn f64_of_f32(a: f32) -> f64;
#[verifier::external_body]
pub fn verif_f32_max() -> f32 { f32::MAX }
#[verifier::external_body]
pub fn verif_f32_min() -> f32 { f32::MIN }
#[verifier::external_body]
pub broadcast proof fn axiom_lt(a: f32, b: f32, r: bool) ensures #[trigger] lt_ensures(a, b, r) ==> r == flt(a, b) {}
#[verifier::external_body]
pub broadcast proof fn axiom_gt(a: f32, b: f32, r: bool) ensures #[trigger] gt_ensures(a, b, r) ==> r == flt(b, a) {}
#[verifier::external_body]
pub broadcast proof fn axiom_add_req(a: f64, b: f64) ensures #[trigger] AddSpec::<f64>::add_req(a, b) {}
#[verifier::external_body]
pub broadcast proof fn axiom_add(a: f64, b: f64, r: f64) ensures #[trigger] add_ensures(a, b, r) ==> r == fadd(a, b) {}
#[verifier::external_body]
pub broadcast proof fn axiom_cast_i64(a: i64, r: f64) ensures #[trigger] vstd::float::float_cast_spec(a, r) ==> r == f64_of_i64(a) {}
#[verifier::external_body]
pub broadcast proof fn axiom_cast_f32(a: f32, r: f64) ensures #[trigger] vstd::float::float_cast_spec(a, r) ==> r == f64_of_f32(a) {}
#[verifier::external_body]
pub broadcast proof fn axiom_cast_i32(a: i32, r: f64) ensures #[trigger] vstd::float::float_cast_spec(a, r) ==> r == f64_of_i64(a as i64) {}
#[verifier::external_body]
pub broadcast proof fn axiom_div_req(a: f32, b: f32) ensures #[trigger] DivSpec::<f32>::div_req(a, b) {}
#[verifier::external_body]
pub broadcast proof fn axiom_mul_req(a: f32, b: f32) ensures #[trigger] MulSpec::<f32>::mul_req(a, b) {}
pub broadcast group group_floats { axiom_div_req, axiom_mul_req, axiom_lt, axiom_gt, axiom_add_req, axiom_add, axiom_cast_i64, axiom_cast_f32, axiom_cast_i32 }
}
/// statistics as recomputed from the points
pub mod stats {
use vstd::prelude::*;
use crate::vspec::*;
pub use crate::floats::*;
use crate::writer::{IoTDBValue, TSDataType};
use crate::writer::statistics::{Statistics, StatisticsStruct};

pub open spec fn lt32(a: i32, b: i32) -> bool { a < b }
pub open spec fn lt64(a: i64, b: i64) -> bool { a < b }
pub open spec fn ltf(a: f32, b: f32) -> bool { flt(a, b) }
pub open spec fn zero32() -> i64 { 0i64 }
pub open spec fn zero64() -> f64 { f64_of_i64(0i64) }
pub open spec fn zerof() -> f64 { f64_of_i64(0i64) }
pub open spec fn plus32(a: i64, b: i64) -> i64 { (a + b) as i64 }
pub open spec fn plus64(a: f64, b: f64) -> f64 { fadd(a, b) }
pub open spec fn plusf(a: f64, b: f64) -> f64 { fadd(a, b) }
pub open spec fn wide32(a: i32) -> i64 { a as i64 }
pub open spec fn wide64(a: i64) -> f64 { f64_of_i64(a) }
pub open spec fn widef(a: f32) -> f64 { f64_of_f32(a) }
/// the sum of `count` 32-bit values
pub open spec fn bounded32(s: StatisticsStruct<i32, i64>) -> bool {
    -(s.count * 0x8000_0000) <= s.sum_value <= s.count * 0x8000_0000
}
pub open spec fn bounded64(s: StatisticsStruct<i64, f64>) -> bool { true }
pub open spec fn boundedf(s: StatisticsStruct<f32, f64>) -> bool { true }
@@each N=32|64|f T=i32|i64|f32 S=i64|f64|f64 BT=be_i32|be_i64|be_f32 BS=be_i64|be_f64|be_f64 V=INT|LONG|FLOAT E=INT32|INT64|FLOAT
/// one more point
pub open spec fn upd$N(s: StatisticsStruct<$T, $S>, t: i64, v: $T) -> StatisticsStruct<$T, $S> {
    let e = s.count == 0;
    StatisticsStruct {
        ts_first: if e || t < s.ts_first { t } else { s.ts_first },
        first_value: if e || t < s.ts_first { v } else { s.first_value },
        ts_last: if e || t > s.ts_last { t } else { s.ts_last },
        last_value: if e || t > s.ts_last { v } else { s.last_value },
        min_value: if e || lt$N(v, s.min_value) { v } else { s.min_value },
        max_value: if e || lt$N(s.max_value, v) { v } else { s.max_value },
        count: (s.count + 1) as u32,
        sum_value: plus$N(s.sum_value, wide$N(v)),
    }
}
/// the points of another one
pub open spec fn mrg$N(s: StatisticsStruct<$T, $S>, o: StatisticsStruct<$T, $S>) -> StatisticsStruct<$T, $S> {
    let e = s.count == 0;
    StatisticsStruct {
        ts_first: if e || o.ts_first < s.ts_first { o.ts_first } else { s.ts_first },
        first_value: if e || o.ts_first < s.ts_first { o.first_value } else { s.first_value },
        ts_last: if e || o.ts_last > s.ts_last { o.ts_last } else { s.ts_last },
        last_value: if e || o.ts_last > s.ts_last { o.last_value } else { s.last_value },
        min_value: if e || lt$N(o.min_value, s.min_value) { o.min_value } else { s.min_value },
        max_value: if e || lt$N(s.max_value, o.max_value) { o.max_value } else { s.max_value },
        count: (s.count + o.count) as u32,
        sum_value: plus$N(s.sum_value, o.sum_value),
    }
}
pub open spec fn empty$N(s: StatisticsStruct<$T, $S>) -> bool { s.count == 0 && s.sum_value == zero$N() }
pub open spec fn ser$N(s: StatisticsStruct<$T, $S>) -> Seq<u8> {
    uvar(s.count as nat) + be_i64(s.ts_first) + be_i64(s.ts_last)
        + $BT(s.min_value) + $BT(s.max_value) + $BT(s.first_value) + $BT(s.last_value) + $BS(s.sum_value)
}
// ---- the same, from the points
pub open spec fn val$N(p: (i64, IoTDBValue)) -> $T { p.1->$V_0 }
pub open spec fn min$N(p: Seq<(i64, IoTDBValue)>) -> $T decreases p.len() {
    if p.len() <= 1 { val$N(p[0]) } else { let m = min$N(p.drop_last()); if lt$N(val$N(p.last()), m) { val$N(p.last()) } else { m } }
}
pub open spec fn max$N(p: Seq<(i64, IoTDBValue)>) -> $T decreases p.len() {
    if p.len() <= 1 { val$N(p[0]) } else { let m = max$N(p.drop_last()); if lt$N(m, val$N(p.last())) { val$N(p.last()) } else { m } }
}
pub open spec fn sum$N(p: Seq<(i64, IoTDBValue)>) -> $S decreases p.len() {
    if p.len() == 0 { zero$N() } else { plus$N(sum$N(p.drop_last()), wide$N(val$N(p.last()))) }
}
pub open spec fn of$N(p: Seq<(i64, IoTDBValue)>) -> StatisticsStruct<$T, $S> {
    StatisticsStruct {
        ts_first: p[0].0, ts_last: p.last().0, min_value: min$N(p), max_value: max$N(p),
        first_value: val$N(p[0]), last_value: val$N(p.last()), count: p.len() as u32, sum_value: sum$N(p),
    }
}
/// `s` is exactly what recomputing from the points gives
pub open spec fn covers$N(s: StatisticsStruct<$T, $S>, p: Seq<(i64, IoTDBValue)>) -> bool {
    &&& s.count == p.len()
    &&& if p.len() == 0 { empty$N(s) } else { s == of$N(p) }
}
/// minimum and maximum are values that were written
pub proof fn lemma_attained$N(p: Seq<(i64, IoTDBValue)>)
    requires p.len() > 0
    ensures
        exists|i: int| 0 <= i < p.len() && min$N(p) == val$N(#[trigger] p[i]),
        exists|i: int| 0 <= i < p.len() && max$N(p) == val$N(#[trigger] p[i]),
    decreases p.len()
{
    if p.len() == 1 {
        assert(min$N(p) == val$N(p[0]));
        assert(max$N(p) == val$N(p[0]));
    } else {
        let q = p.drop_last();
        lemma_attained$N(q);
        let i = choose|i: int| 0 <= i < q.len() && min$N(q) == val$N(#[trigger] q[i]);
        let j = choose|j: int| 0 <= j < q.len() && max$N(q) == val$N(#[trigger] q[j]);
        assert(q[i] == p[i] && q[j] == p[j]);
        assert(min$N(p) == val$N(p[i]) || min$N(p) == val$N(p[p.len() - 1]));
        assert(max$N(p) == val$N(p[j]) || max$N(p) == val$N(p[p.len() - 1]));
    }
}
pub proof fn lemma_upd$N(s: StatisticsStruct<$T, $S>, p: Seq<(i64, IoTDBValue)>, t: i64, v: IoTDBValue)
    requires covers$N(s, p), rising(p.push((t, v))), p.len() < u32::MAX
    ensures covers$N(upd$N(s, t, v->$V_0), p.push((t, v)))
{
    let q = p.push((t, v));
    assert(q.drop_last() =~= p);
    assert(q.last() == (t, v));
    if p.len() > 0 { assert(q[0] == p[0]); assert(p.last() == q[p.len() - 1]); assert(q[p.len() - 1].0 < q[p.len() as int].0);
        lemma_rising(q, 0, p.len() as int);
    } else {
        assert(sum$N(q) == plus$N(sum$N(p), wide$N(v->$V_0)));
    }
}
@@end
@@each N=32|64 T=i32|i64 S=i64|f64
/// minimum and maximum bound all values
pub proof fn lemma_bounds$N(p: Seq<(i64, IoTDBValue)>, i: int)
    requires 0 <= i < p.len()
    ensures min$N(p) <= val$N(p[i]) <= max$N(p)
    decreases p.len()
{
    if p.len() > 1 && i < p.len() - 1 {
        lemma_bounds$N(p.drop_last(), i);
        assert(p.drop_last()[i] == p[i]);
    } else if p.len() > 1 {
        lemma_bounds$N(p.drop_last(), 0);
    }
}
@@end
pub open spec fn isum(p: Seq<(i64, IoTDBValue)>) -> int decreases p.len() {
    if p.len() == 0 { 0 } else { isum(p.drop_last()) + val32(p.last()) }
}
/// the 32-bit sums never overflow
pub proof fn lemma_sum32(p: Seq<(i64, IoTDBValue)>)
    requires p.len() <= u32::MAX
    ensures sum32(p) == isum(p), -(p.len() * 0x8000_0000) <= isum(p) <= p.len() * 0x8000_0000
    decreases p.len()
{
    if p.len() > 0 { lemma_sum32(p.drop_last()); }
}
/// merging the statistics of two successive runs of points gives the statistics of both together
pub proof fn lemma_mrg32(s: StatisticsStruct<i32, i64>, o: StatisticsStruct<i32, i64>, p: Seq<(i64, IoTDBValue)>, q: Seq<(i64, IoTDBValue)>)
    requires covers32(s, p), covers32(o, q), q.len() > 0, rising(p + q), p.len() + q.len() <= u32::MAX
    ensures covers32(mrg32(s, o), p + q)
    decreases q.len()
{
    let r = p + q;
    lemma_sum32(p); lemma_sum32(q); lemma_sum32(r);
    lemma_isum(p, q);
    if p.len() > 0 { lemma_minmax(p, q); }
    assert(r.last() == q.last());
    if p.len() == 0 { assert(r =~= q); } else {
        assert(r[0] == p[0]);
        lemma_rising(r, 0, p.len() as int);
        lemma_rising(r, p.len() - 1, r.len() - 1);
        assert(r[p.len() as int] == q[0]);
        assert(r[p.len() - 1] == p.last());
    }
}
pub proof fn lemma_isum(p: Seq<(i64, IoTDBValue)>, q: Seq<(i64, IoTDBValue)>)
    ensures isum(p + q) == isum(p) + isum(q)
    decreases q.len()
{
    if q.len() == 0 { assert(p + q =~= p); } else {
        lemma_isum(p, q.drop_last());
        assert((p + q).drop_last() =~= p + q.drop_last());
        assert((p + q).last() == q.last());
    }
}
pub proof fn lemma_minmax(p: Seq<(i64, IoTDBValue)>, q: Seq<(i64, IoTDBValue)>)
    requires p.len() > 0, q.len() > 0
    ensures
        min32(p + q) == (if min32(q) < min32(p) { min32(q) } else { min32(p) }),
        max32(p + q) == (if max32(p) < max32(q) { max32(q) } else { max32(p) }),
    decreases q.len()
{
    assert((p + q).drop_last() =~= p + q.drop_last());
    assert((p + q).last() == q.last());
    if q.len() > 1 { lemma_minmax(p, q.drop_last()); } else { assert(p + q.drop_last() =~= p); assert(q[0] == q.last()); }
}
pub open spec fn rising(p: Seq<(i64, IoTDBValue)>) -> bool {
    forall|i: int| 0 < i < p.len() ==> p[i - 1].0 < (#[trigger] p[i]).0
}
pub proof fn lemma_rising(p: Seq<(i64, IoTDBValue)>, i: int, j: int)
    requires rising(p), 0 <= i < j < p.len()
    ensures p[i].0 < p[j].0
    decreases j - i
{ if i < j - 1 { lemma_rising(p, i, j - 1); } assert(p[j - 1].0 < p[j].0); }

// ---- the enum over the three types
pub open spec fn stat_type(s: Statistics) -> TSDataType {
    match s { Statistics::INT32(_) => TSDataType::INT32, Statistics::INT64(_) => TSDataType::INT64, Statistics::FLOAT(_) => TSDataType::FLOAT }
}
pub open spec fn val_type(v: IoTDBValue) -> Option<TSDataType> {
    match v { IoTDBValue::INT(_) => Some(TSDataType::INT32), IoTDBValue::LONG(_) => Some(TSDataType::INT64), IoTDBValue::FLOAT(_) => Some(TSDataType::FLOAT), IoTDBValue::DOUBLE(_) => None }
}
pub open spec fn stat_count(s: Statistics) -> u32 {
    match s { Statistics::INT32(x) => x.count, Statistics::INT64(x) => x.count, Statistics::FLOAT(x) => x.count }
}
pub open spec fn stat_ok(s: Statistics) -> bool {
    s is INT32 ==> bounded32(s->INT32_0)
}
pub open spec fn stat_empty(s: Statistics) -> bool {
    match s { Statistics::INT32(x) => empty32(x), Statistics::INT64(x) => empty64(x), Statistics::FLOAT(x) => emptyf(x) }
}
/// statistics of nothing
pub open spec fn no_stat(t: TSDataType) -> Statistics {
    match t {
        TSDataType::INT32 => Statistics::INT32(StatisticsStruct { ts_first: 0i64, ts_last: 0i64, min_value: 0i32, max_value: 0i32, first_value: 0i32, last_value: 0i32, count: 0u32, sum_value: zero32() }),
        TSDataType::INT64 => Statistics::INT64(StatisticsStruct { ts_first: 0i64, ts_last: 0i64, min_value: 0i64, max_value: 0i64, first_value: 0i64, last_value: 0i64, count: 0u32, sum_value: zero64() }),
        TSDataType::FLOAT => Statistics::FLOAT(StatisticsStruct { ts_first: 0i64, ts_last: 0i64, min_value: some_f32(), max_value: some_f32(), first_value: some_f32(), last_value: some_f32(), count: 0u32, sum_value: zerof() }),
    }
}
pub uninterp spec fn some_f32() -> f32;
pub open spec fn stat_upd(s: Statistics, t: i64, v: IoTDBValue) -> Statistics {
    match s {
        Statistics::INT32(x) => Statistics::INT32(upd32(x, t, v->INT_0)),
        Statistics::INT64(x) => Statistics::INT64(upd64(x, t, v->LONG_0)),
        Statistics::FLOAT(x) => Statistics::FLOAT(updf(x, t, v->FLOAT_0)),
    }
}
#[verifier::opaque]
pub open spec fn stat_mrg(s: Statistics, o: Statistics) -> Statistics {
    match s {
        Statistics::INT32(x) => Statistics::INT32(mrg32(x, o->INT32_0)),
        Statistics::INT64(x) => Statistics::INT64(mrg64(x, o->INT64_0)),
        Statistics::FLOAT(x) => Statistics::FLOAT(mrgf(x, o->FLOAT_0)),
    }
}
#[verifier::opaque]
pub open spec fn stat_ser(s: Statistics) -> Seq<u8> {
    match s { Statistics::INT32(x) => ser32(x), Statistics::INT64(x) => ser64(x), Statistics::FLOAT(x) => serf(x) }
}
pub open spec fn stat_covers(s: Statistics, p: Seq<(i64, IoTDBValue)>) -> bool {
    match s { Statistics::INT32(x) => covers32(x, p), Statistics::INT64(x) => covers64(x, p), Statistics::FLOAT(x) => coversf(x, p) }
}
pub proof fn lemma_stat_upd(s: Statistics, p: Seq<(i64, IoTDBValue)>, t: i64, v: IoTDBValue)
    requires stat_covers(s, p), rising(p.push((t, v))), p.len() < u32::MAX, val_type(v) == Some(stat_type(s))
    ensures stat_covers(stat_upd(s, t, v), p.push((t, v))), stat_type(stat_upd(s, t, v)) == stat_type(s)
{
    match s {
        Statistics::INT32(x) => lemma_upd32(x, p, t, v),
        Statistics::INT64(x) => lemma_upd64(x, p, t, v),
        Statistics::FLOAT(x) => lemma_updf(x, p, t, v),
    }
}
pub proof fn lemma_stat_mrg(s: Statistics, o: Statistics)
    requires stat_type(s) == stat_type(o), stat_count(s) + stat_count(o) <= u32::MAX
    ensures stat_type(stat_mrg(s, o)) == stat_type(s), stat_count(stat_mrg(s, o)) == stat_count(s) + stat_count(o)
{ reveal(stat_mrg); }
/// the size of the serial form
pub open spec fn stat_size(s: Statistics) -> int {
    uvar(stat_count(s) as nat).len() + 16 + if s is INT64 { 40int } else { 24 }
}
pub proof fn lemma_stat_size(s: Statistics)
    ensures stat_ser(s).len() == stat_size(s), uvar(stat_count(s) as nat).len() <= 5, stat_size(s) <= 61
{
    reveal(stat_ser);
    broadcast use be_len;
    crate::writer::utils::lemma_uvar_len(stat_count(s) as nat);
}
}
@@each N=32|64|f T=i32|i64|f32 S=i64|f64|f64
@@fn writer::statistics::StatisticsStruct<$T,$S>::new
@@ret r
    ensures
        empty$N(r),
@@entry
    broadcast use group_floats;
@@fn writer::statistics::StatisticsStruct<$T,$S>::update
@@opt plus_assign
@@spec
    requires
        old(self).count < u32::MAX,
        bounded$N(*old(self)),
    ensures
        *final(self) == upd$N(*old(self), timestamp, value),
        bounded$N(*final(self)),
@@entry
    broadcast use group_floats;
@@fn writer::statistics::StatisticsStruct<$T,$S>::merge
@@opt plus_assign
@@spec
    requires
        old(self).count + statistics.count <= u32::MAX,
        bounded$N(*old(self)),
        bounded$N(*statistics),
    ensures
        *final(self) == mrg$N(*old(self), *statistics),
        bounded$N(*final(self)),
@@entry
    broadcast use group_floats;
@@fn writer::statistics::StatisticsStruct<$T,$S>::get_serialized_size
@@ret r
    ensures
        r == ser$N(*self).len(),
@@entry
    broadcast use be_len;
    proof { crate::writer::utils::lemma_uvar_len(self.count as nat); }
@@impl writer::statistics::StatisticsStruct<$T,$S> as Serializable
    open spec fn ser(&self) -> Seq<u8> { ser$N(*self) }
    open spec fn ser_ok(&self) -> bool { true }
@@fn writer::statistics::StatisticsStruct<$T,$S> as Serializable::serialize
@@ret r
@@end
@@replace writer::statistics::StatisticsStruct<f32,f64>::new
<f32>::MAX
=>
verif_f32_max()
@@replace writer::statistics::StatisticsStruct<f32,f64>::new
<f32>::MIN
=>
verif_f32_min()
@@fn writer::statistics::Statistics::count
@@ret r
    ensures r == stat_count(*self),
@@fn writer::statistics::Statistics::get_serialized_size
@@ret r
    ensures r == stat_ser(*self).len(),
@@entry
    reveal(stat_ser);
@@fn writer::statistics::Statistics::update
    requires
        val_type(*value) == Some(stat_type(*old(self))),
        stat_count(*old(self)) < u32::MAX,
        stat_ok(*old(self)),
    ensures
        *final(self) == stat_upd(*old(self), timestamp, *value),
        stat_ok(*final(self)),
@@fn writer::statistics::Statistics::merge
    requires
        stat_type(*other) == stat_type(*old(self)),
        stat_count(*old(self)) + stat_count(*other) <= u32::MAX,
        stat_ok(*old(self)),
        stat_ok(*other),
    ensures
        *final(self) == stat_mrg(*old(self), *other),
        stat_ok(*final(self)),
@@entry
    reveal(stat_mrg);
@@fn writer::statistics::Statistics::new
@@ret r
    ensures
        stat_type(r) == data_type,
        stat_empty(r),
        stat_ok(r),
@@impl writer::statistics::Statistics as Serializable
    open spec fn ser(&self) -> Seq<u8> { stat_ser(*self) }
    open spec fn ser_ok(&self) -> bool { true }
@@fn writer::statistics::Statistics as Serializable::serialize
@@ret r
@@entry
    reveal(stat_ser);
