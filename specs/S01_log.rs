// S01: what an insert acknowledged is there after a restart, wherever the process stopped
//@include base.rs
//@rule Arc < Mutex < BufWriter < File > > > =>> BufWriter
//@rule Arc < Mutex < $a > > =>> $a
//@rule Arc < RwLock < LruCache < Vec < Value > , i64 > > > =>> Cas
//@rule Arc :: new ( Mutex :: new ( $$x ) ) =>> $x
//@rule Arc :: new ( RwLock :: new ( $$x ) ) =>> no_cas()
//@rule Arc < RwLock < $$a > > =>> $a
//@rule Arc < $a > =>> $a
//@rule pub ( crate ) =>> pub
//@rule Value :: from =>> value_of
//@rule KeyValue :: from =>> key_of
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
verus! {
global size_of usize == 8;
//@include disk.rs
//@include stdspec.rs
pub mod wal { use super::*; broadcast use {crate::axiom_le4, crate::axiom_le8};
#[verifier::external_body] pub struct Cas { x: u8 }
#[verifier::external_body] pub fn no_cas() -> Cas { unimplemented!() }
//@item src/storage/src/lib.rs KeyValue | vis=keep std="clone eq"
//@item src/storage/src/lib.rs Value | vis=keep std="clone eq"
//@item src/storage/src/lib.rs NamedValue | vis=keep std="clone"
//@item src/common/src/types.rs DType | vis=keep std="clone"
// ---- the part of arrow2 a schema is made of
pub enum TimeUnit { Second, Millisecond, Microsecond, Nanosecond }
pub enum DataType { Boolean, Int8, Int16, Int32, Int64, Timestamp(TimeUnit, Option<String>), Utf8, Decimal(usize, usize), List(Box<Field>), Other(u8) }
pub struct Field { pub name: String, pub data_type: DataType, pub is_nullable: bool }
pub struct Schema { pub fields: Vec<Field> }
impl Clone for DataType { #[verifier::external_body] fn clone(&self) -> (r: DataType) ensures r == *self { unimplemented!() } }
impl Clone for Field { #[verifier::external_body] fn clone(&self) -> (r: Field) ensures r == *self { unimplemented!() } }
//@fn src/storage/src/lib.rs [From<&KeyValue> for Value]::from | ret=r block name=value_of
//@rule Self =>> Value
//@contract
    ensures r == val(*value),
//@end
pub open spec fn val(k: KeyValue) -> Value { match k { KeyValue::Int8(v) => Value::Int8(Some(v)), KeyValue::Int16(v) => Value::Int16(Some(v)), KeyValue::Int32(v) => Value::Int32(Some(v)), KeyValue::Int64(v) => Value::Int64(Some(v)), KeyValue::String(v) => Value::String(Some(v)), KeyValue::Timestamp(v) => Value::Timestamp(Some(v)) } }
//@include memtable.rs
//@include walspec.rs
//@include tablespec.rs
} } fn main() {}
