// C06: column types are translated to and from arrow and arrow2 without changing their meaning
//@include base.rs
//@rule datatypes :: DataType =>> DataType
//@rule Self :: Error =>> CommonError
//@rule unimplemented ! ( $$a ) =>> unimplemented!()
//@rule unreachable ! ( $$a ) =>> unimplemented!()
//@rule format ! ( "Unsupported type {:?}" , dt ) =>> unsupported(&dt)
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@item src/common/src/types.rs DECIMAL_PRECISION
//@item src/common/src/types.rs DECIMAL_SCALE
//@item src/common/src/types.rs TIME_UNIT
//@item src/common/src/types.rs DType
//@item reg:arrow-schema-52.2.0/src/datatype.rs DataType
//@item reg:arrow-schema-52.2.0/src/datatype.rs TimeUnit
//@item reg:arrow-schema-52.2.0/src/datatype.rs IntervalUnit
//@item reg:arrow-schema-52.2.0/src/datatype.rs UnionMode
// arrow's Field, as far as the conversions look at it
pub struct Field { pub data_type: DataType }
impl Field { pub fn data_type(&self) -> (r: &DataType) ensures *r == self.data_type { &self.data_type } }
pub type FieldRef = Arc<Field>;
pub struct Fields { pub f: Vec<Field> }
pub struct UnionFields { pub f: Vec<(i8, Field)> }
// the part of arrow2's types the conversions name; every other arrow2 type is Other
pub mod arrow2 { pub mod datatypes {
    pub enum TimeUnit { Second, Millisecond, Microsecond, Nanosecond }
    pub struct Field { pub data_type: DataType }
    impl Field { pub fn data_type(&self) -> (r: &DataType) ensures *r == self.data_type { &self.data_type } }
    pub enum DataType { Boolean, Int8, Int16, Int32, Int64, Timestamp(TimeUnit, Option<String>), Utf8, Decimal(usize, usize), List(Box<Field>), Other(u64) }
} }
//@include boxspec.rs
type DataType2 = arrow2::datatypes::DataType;
#[derive(Debug)] pub enum CommonError { General(String) }
#[verifier::external_body] fn unsupported(dt: &DataType2) -> String { unimplemented!() }

spec fn scalar(d: DType) -> bool { !(d is List) }
spec fn to_arrow(d: DType) -> DataType { match d { DType::String => DataType::Utf8, DType::Int8 => DataType::Int8, DType::Int16 => DataType::Int16, DType::Int32 => DataType::Int32, DType::Int64 => DataType::Int64, DType::Decimal => DataType::Decimal128(28, 16), DType::Boolean => DataType::Boolean, _ => DataType::Timestamp(TimeUnit::Millisecond, None) } }
spec fn to_arrow2(d: DType) -> DataType2 { match d { DType::String => arrow2::datatypes::DataType::Utf8, DType::Int8 => arrow2::datatypes::DataType::Int8, DType::Int16 => arrow2::datatypes::DataType::Int16, DType::Int32 => arrow2::datatypes::DataType::Int32, DType::Int64 => arrow2::datatypes::DataType::Int64, DType::Decimal => arrow2::datatypes::DataType::Decimal(28, 16), DType::Boolean => arrow2::datatypes::DataType::Boolean, _ => arrow2::datatypes::DataType::Timestamp(arrow2::datatypes::TimeUnit::Millisecond, None) } }
// the column type a storable arrow type stands for
spec fn kind(t: DataType) -> Option<DType> { match t { DataType::Boolean => Some(DType::Boolean), DataType::Int8 => Some(DType::Int8), DataType::Int16 => Some(DType::Int16), DataType::Int32 => Some(DType::Int32), DataType::Int64 => Some(DType::Int64), DataType::Utf8 => Some(DType::String), DataType::Decimal128(_, _) => Some(DType::Decimal), DataType::Timestamp(_, _) => Some(DType::Timestamp), _ => None } }
spec fn kind2(t: DataType2) -> Option<DType> { match t { arrow2::datatypes::DataType::Boolean => Some(DType::Boolean), arrow2::datatypes::DataType::Int8 => Some(DType::Int8), arrow2::datatypes::DataType::Int16 => Some(DType::Int16), arrow2::datatypes::DataType::Int32 => Some(DType::Int32), arrow2::datatypes::DataType::Int64 => Some(DType::Int64), arrow2::datatypes::DataType::Utf8 => Some(DType::String), arrow2::datatypes::DataType::Decimal(_, _) => Some(DType::Decimal), arrow2::datatypes::DataType::Timestamp(_, _) => Some(DType::Timestamp), _ => None } }

//@fn src/common/src/types.rs [From<DType> for datatypes::DataType]::from | name=arrow_from_dtype ret=r block
//@rule Self =>> DataType
//@contract
    requires value is List ==> scalar(*value->List_0),
    ensures scalar(value) ==> r == to_arrow(value) && kind(r) == Some(value), value is List ==> r == to_arrow(*value->List_0),
//@end
//@fn src/common/src/types.rs [From<DataType> for DType]::from | name=dtype_from_arrow ret=r block
//@rule Self =>> DType
//@contract
    requires kind(dt) is Some || (dt is List && kind(dt->List_0.data_type) is Some),
    ensures kind(dt) is Some ==> Some(r) == kind(dt), dt is List ==> Some(r) == kind(dt->List_0.data_type),
//@end
//@fn src/common/src/types.rs [TryFrom<DType> for DataType2]::try_from | name=arrow2_from_dtype ret=r block
//@rule Result < Self , $$e > =>> Result<DataType2, CommonError>
//@contract
    ensures scalar(value) ==> r.is_ok() && r->Ok_0 == to_arrow2(value) && kind2(r->Ok_0) == Some(value),
        value is List && scalar(*value->List_0) ==> r.is_ok() && r->Ok_0 == to_arrow2(*value->List_0),
        value is List && !scalar(*value->List_0) ==> r.is_err(),
//@end
//@fn src/common/src/types.rs [TryFrom<DataType2> for DType]::try_from | name=dtype_from_arrow2 ret=r block
//@rule Result < Self , $$e > =>> Result<DType, CommonError>
//@contract
    ensures kind2(dt) is Some ==> r.is_ok() && Some(r->Ok_0) == kind2(dt),
        dt is List ==> (match kind2(dt->List_0.data_type) { Some(k) => r.is_ok() && r->Ok_0 == k, None => r.is_err() }),
        kind2(dt) is None && !(dt is List) ==> r.is_err(),
//@end
spec fn short(d: DType) -> Seq<char> { match d { DType::String => "str"@, DType::Int8 => "i8"@, DType::Int16 => "i16"@, DType::Int32 => "i32"@, DType::Int64 => "i64"@, DType::Decimal => "d"@, DType::Boolean => "b"@, _ => "ts"@ } }
//@fn src/common/src/types.rs DType::short_name | name=short_name ret=r block
//@rule ( & self ) =>> (this: &DType)
//@rule match self =>> match this
//@rule format ! ( "l_{}" , s ) =>> list_name(s)
//@contract
    requires *this is List ==> scalar(*this->List_0),
    ensures scalar(*this) ==> r@ == short(*this), *this is List ==> r@ == "l_"@ + short(*this->List_0),
//@end
#[verifier::external_body] fn list_name(s: String) -> (r: String) ensures r@ == "l_"@ + s@ { format!("l_{}", s) }
} // verus!
fn main() {}
