// C07: a scalar value stored in a report or dashboard comes back the same value of the same kind
//@include base.rs
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@item reg:datafusion-common-39.0.0/src/scalar/mod.rs ScalarValue | block
//@rule f16 =>> F16
//@rule i256 =>> I256
//@rule IntervalMonthDayNano ( Option < $x > ) =>> IntervalMonthDayNano(Option<i128>)
//@rule IntervalDayTime ( Option < $x > ) =>> IntervalDayTime(Option<i64>)
//@end
// array-valued and half/256-bit scalars are never persisted; their payloads are opaque here
#[verifier::external_body] pub struct F16;
#[verifier::external_body] pub struct I256;
#[verifier::external_body] pub struct FixedSizeListArray;
#[verifier::external_body] pub struct ListArray;
#[verifier::external_body] pub struct LargeListArray;
#[verifier::external_body] pub struct StructArray;
#[verifier::external_body] pub struct UnionFields;
#[verifier::external_body] pub struct UnionMode;
#[verifier::external_body] pub struct DataType;
impl Clone for ScalarValue { #[verifier::external_body] fn clone(&self) -> (r: ScalarValue) ensures r == *self { unimplemented!() } }
//@item src/common/src/scalar.rs ScalarValueRef

// the value a stored form stands for
spec fn meaning(v: ScalarValueRef) -> Option<ScalarValue> { match v {
    ScalarValueRef::Null => Some(ScalarValue::Null), ScalarValueRef::Boolean(v) => Some(ScalarValue::Boolean(v)), ScalarValueRef::Float32(v) => Some(ScalarValue::Float32(v)), ScalarValueRef::Float64(v) => Some(ScalarValue::Float64(v)),
    ScalarValueRef::Decimal128(v, p, s) => Some(ScalarValue::Decimal128(v, p, s)), ScalarValueRef::Int8(v) => Some(ScalarValue::Int8(v)), ScalarValueRef::Int16(v) => Some(ScalarValue::Int16(v)), ScalarValueRef::Int32(v) => Some(ScalarValue::Int32(v)), ScalarValueRef::Int64(v) => Some(ScalarValue::Int64(v)),
    ScalarValueRef::UInt8(v) => Some(ScalarValue::UInt8(v)), ScalarValueRef::UInt16(v) => Some(ScalarValue::UInt16(v)), ScalarValueRef::UInt32(v) => Some(ScalarValue::UInt32(v)), ScalarValueRef::UInt64(v) => Some(ScalarValue::UInt64(v)),
    ScalarValueRef::Utf8(v) => Some(ScalarValue::Utf8(v)), ScalarValueRef::LargeUtf8(v) => Some(ScalarValue::LargeUtf8(v)), ScalarValueRef::Binary(v) => Some(ScalarValue::Binary(v)), ScalarValueRef::FixedSizeBinary(n, v) => Some(ScalarValue::FixedSizeBinary(n, v)), ScalarValueRef::LargeBinary(v) => Some(ScalarValue::LargeBinary(v)),
    ScalarValueRef::Date32(v) => Some(ScalarValue::Date32(v)), ScalarValueRef::Date64(v) => Some(ScalarValue::Date64(v)), ScalarValueRef::Time32Second(v) => Some(ScalarValue::Time32Second(v)), ScalarValueRef::Time32Millisecond(v) => Some(ScalarValue::Time32Millisecond(v)), ScalarValueRef::Time64Microsecond(v) => Some(ScalarValue::Time64Microsecond(v)), ScalarValueRef::Time64Nanosecond(v) => Some(ScalarValue::Time64Nanosecond(v)),
    ScalarValueRef::TimestampSecond(v, t) => Some(ScalarValue::TimestampSecond(v, t)), ScalarValueRef::TimestampMillisecond(v, t) => Some(ScalarValue::TimestampMillisecond(v, t)), ScalarValueRef::TimestampMicrosecond(v, t) => Some(ScalarValue::TimestampMicrosecond(v, t)), ScalarValueRef::TimestampNanosecond(v, t) => Some(ScalarValue::TimestampNanosecond(v, t)),
    ScalarValueRef::IntervalYearMonth(v) => Some(ScalarValue::IntervalYearMonth(v)), _ => None } }
spec fn storable(v: ScalarValue) -> bool { exists|s: ScalarValueRef| meaning(s) == Some(v) }

//@fn src/common/src/scalar.rs [From<ScalarValueRef> for ScalarValue]::from | name=scalar_from_ref ret=r block
//@rule Self =>> ScalarValue
//@contract
    requires meaning(v) is Some,
    ensures Some(r) == meaning(v),
//@end
//@fn src/common/src/scalar.rs [From<&ScalarValue> for ScalarValueRef]::from | name=ref_from_scalar ret=r block
//@rule Self =>> ScalarValueRef
//@contract
    requires storable(*v),
    ensures meaning(r) == Some(*v),
//@end
// stored, then loaded: the same value
fn round_trip(v: &ScalarValue) -> (r: ScalarValue) requires storable(*v), ensures r == *v { scalar_from_ref(ref_from_scalar(v)) }
} // verus!
fn main() {}
