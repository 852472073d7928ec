// ---- the ingester's world: what the metadata, the tables and the libraries answer (assumed contracts)
//@rule metadata :: dictionaries :: Dictionaries =>> Dictionaries
//@rule . clone ( ) =>> .same()
//@rule . to_owned ( ) =>> .same()
//@rule $~x . to_string ( ) =>> $x.to_text()
//@rule Arc < MetadataProvider > =>> MetadataProvider
//@rule Arc < OptiDBImpl > =>> OptiDBImpl
//@rule IngesterError :: BadRequest ( $$a ) =>> bad_request()
//@rule IngesterError :: Internal ( $$a ) =>> internal()
//@rule 10i128 . pow ( $$n ) =>> ten_to($$n)
//@rule 10u128 . pow ( $$n ) =>> uten_to($$n)
//@rule $~x . unsigned_abs ( ) =>> size_of_($x)
//@rule pub const $n : & str = $v ; =>> pub const $n: &'static str = $v;
use vstd::prelude::*;
use std::sync::Arc;
use vstd::std_specs::cmp::PartialEqSpec;
verus! {
global size_of usize == 8;
//@include stdspec.rs
// a String is its text, a Vec its elements
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub broadcast axiom fn axiom_string(s: String) ensures string_of(#[trigger] s@) == s;
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn axiom_of_vec<T>(v: Vec<T>) ensures vec_of(#[trigger] v@) == v;
pub broadcast group all { axiom_string, axiom_of_vec }
pub trait Same: Sized { fn same(&self) -> (r: Self) ensures r == *self; }
impl<T> Same for T { #[verifier::external_body] fn same(&self) -> (r: Self) { unimplemented!() } }
pub trait Text { spec fn text(&self) -> Seq<char>; fn to_text(&self) -> (r: String) ensures r@ == self.text(); }
impl Text for str { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn to_text(&self) -> (r: String) { unimplemented!() } }
impl Text for String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn to_text(&self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn shown(a: IpAddr) -> Seq<char>;
impl Text for IpAddr { open spec fn text(&self) -> Seq<char> { shown(*self) } #[verifier::external_body] fn to_text(&self) -> (r: String) { unimplemented!() } }
#[derive(Copy)] pub struct IpAddr { pub a: u128 } impl Clone for IpAddr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct Utc;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct DateTime<T> { x: std::marker::PhantomData<T> }
pub uninterp spec fn millis(t: DateTime<Utc>) -> i64;
pub uninterp spec fn seconds(t: DateTime<Utc>) -> i64;
impl Utc { #[verifier::external_body] pub fn now() -> (r: DateTime<Utc>) { unimplemented!() } }
impl DateTime<Utc> {
    #[verifier::external_body] pub fn timestamp_millis(&self) -> (r: i64) ensures r == millis(*self) { unimplemented!() }
    #[verifier::external_body] pub fn timestamp(&self) -> (r: i64) ensures r == seconds(*self) { unimplemented!() }
}
pub struct MetadataError { pub e: u64 }
pub struct StoreError { pub e: u64 }
pub enum MaxMindDBError { AddressNotFoundError(String), Other(u64) }
pub enum IngesterError { Internal(String), BadRequest(String), Metadata(MetadataError), Store(StoreError), Maxmind(MaxMindDBError) }
pub type Result<T> = core::result::Result<T, IngesterError>;
#[verifier::external_body] pub fn bad_request() -> (r: IngesterError) ensures r is BadRequest { unimplemented!() }
#[verifier::external_body] pub fn internal() -> (r: IngesterError) ensures r is Internal { unimplemented!() }
// ---- numbers: a decimal is a mantissa and a scale
#[verifier::external_body] pub struct Decimal { x: u128 }
impl Decimal { pub uninterp spec fn m(self) -> int; pub uninterp spec fn sc(self) -> nat;
    #[verifier::external_body] pub fn mantissa(&self) -> (r: i128) ensures r == self.m() { unimplemented!() }
    #[verifier::external_body] pub fn scale(&self) -> (r: u32) ensures r == self.sc(), r <= 28 { unimplemented!() }
    #[verifier::external_body] pub fn round_dp(&self, n: u32) -> (r: Decimal) ensures r == rounded(*self, n as nat) { unimplemented!() }
    #[verifier::external_body] pub fn to_i8(&self) -> (r: Option<i8>) ensures r == (if i8::MIN <= whole(*self) <= i8::MAX { Some(whole(*self) as i8) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn to_i16(&self) -> (r: Option<i16>) ensures r == (if i16::MIN <= whole(*self) <= i16::MAX { Some(whole(*self) as i16) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn to_i32(&self) -> (r: Option<i32>) ensures r == (if i32::MIN <= whole(*self) <= i32::MAX { Some(whole(*self) as i32) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn to_i64(&self) -> (r: Option<i64>) ensures r == (if i64::MIN <= whole(*self) <= i64::MAX { Some(whole(*self) as i64) } else { None }) { unimplemented!() }
}
pub uninterp spec fn whole(d: Decimal) -> int;
pub uninterp spec fn rounded(d: Decimal, n: nat) -> Decimal;
pub axiom fn axiom_rounded(d: Decimal, n: nat) ensures rounded(d, n).sc() <= n;
pub open spec fn ten(n: nat) -> int decreases n { if n == 0 { 1 } else { 10 * ten((n - 1) as nat) } }
#[verifier::external_body] pub fn ten_to(n: u32) -> (r: i128) requires n <= 38 ensures r == ten(n as nat) { unimplemented!() }
#[verifier::external_body] pub fn uten_to(n: u32) -> (r: u128) requires n <= 38 ensures r == ten(n as nat) { unimplemented!() }
pub open spec fn abs(x: int) -> int { if x < 0 { -x } else { x } }
#[verifier::external_body] pub fn size_of_(x: i128) -> (r: u128) ensures r == abs(x as int) { unimplemented!() }
//@item src/common/src/types.rs DECIMAL_PRECISION | vis=keep
//@item src/common/src/types.rs DECIMAL_SCALE | vis=keep
//@item src/common/src/types.rs TABLE_EVENTS | vis=keep
//@item src/common/src/types.rs COLUMN_PROJECT_ID | vis=keep
//@item src/common/src/types.rs COLUMN_CREATED_AT | vis=keep
//@item src/common/src/types.rs COLUMN_EVENT_ID | vis=keep
//@item src/common/src/types.rs COLUMN_EVENT | vis=keep
//@item src/common/src/types.rs COLUMN_IP | vis=keep
//@item src/common/src/types.rs GROUP_COLUMN_PROJECT_ID | vis=keep
//@item src/common/src/types.rs GROUP_COLUMN_ID | vis=keep
//@item src/common/src/types.rs GROUP_COLUMN_VERSION | vis=keep
//@item src/common/src/types.rs GROUP_COLUMN_CREATED_AT | vis=keep
//@item src/common/src/types.rs EVENT_PROPERTY_UTM_SOURCE | vis=keep
//@item src/common/src/types.rs EVENT_PROPERTY_UTM_MEDIUM | vis=keep
//@item src/common/src/types.rs EVENT_PROPERTY_UTM_CAMPAIGN | vis=keep
//@item src/common/src/types.rs EVENT_PROPERTY_UTM_TERM | vis=keep
//@item src/common/src/types.rs EVENT_PROPERTY_UTM_CONTENT | vis=keep
//@item src/common/src/types.rs EVENT_SESSION_BEGIN | vis=keep
//@item src/common/src/types.rs DType | vis=keep
//@item src/common/src/lib.rs GROUPS_COUNT | vis=keep
//@item src/common/src/lib.rs GROUP_USER_ID | vis=keep
pub uninterp spec fn gcol(g: nat) -> Seq<char>;
pub broadcast axiom fn axiom_gcol(g: nat) ensures (#[trigger] gcol(g)).len() > 0, gcol(g)[0] == 'g', ungcol(gcol(g)) == g;
pub uninterp spec fn ungcol(s: Seq<char>) -> nat;
#[verifier::external_body] pub fn group_col(group_id: usize) -> (r: String) ensures r@ == gcol(group_id as nat) { unimplemented!() }
// ---- metadata
pub mod metadata { use super::*;
    pub mod properties { use super::super::*;
//@item src/metadata/src/properties.rs Property | vis=keep
//@item src/metadata/src/properties.rs DictionaryType | vis=keep
//@item src/metadata/src/properties.rs Status | vis=keep
//@item src/metadata/src/properties.rs Type | vis=keep
//@item src/metadata/src/properties.rs CreatePropertyRequest | vis=keep
        impl Property { pub uninterp spec fn column(self) -> Seq<char>; #[verifier::external_body] pub fn column_name(&self) -> (r: String) ensures r@ == self.column() { unimplemented!() } }
    }
    pub mod events { use super::super::*;
//@item src/metadata/src/events.rs Event | vis=keep
//@item src/metadata/src/events.rs Status | vis=keep
//@item src/metadata/src/events.rs CreateEventRequest | vis=keep
    }
    pub mod groups { use super::super::*;
//@item src/metadata/src/groups.rs Value | vis=keep
//@item src/metadata/src/groups.rs PropertyValue | vis=keep
//@item src/metadata/src/groups.rs GroupValues | vis=keep
    }
}
pub use metadata::{events, properties, groups};
pub use metadata::properties::{Property, DictionaryType, Type};
pub use metadata::groups::{GroupValues, PropertyValue};
// what the metadata holds, as one request sees it
pub uninterp spec fn number_of(p: u64, tbl: Seq<char>, col: Seq<char>, text: Seq<char>) -> u64;
pub uninterp spec fn prop_named(kind: Option<nat>, p: u64, name: Seq<char>) -> Property;
pub uninterp spec fn prop_at(kind: Option<nat>, p: u64, id: u64) -> Property;
pub uninterp spec fn event_named(p: u64, name: Seq<char>) -> u64;
pub uninterp spec fn new_session(p: u64, user: u64, b: bool) -> bool;
#[verifier::external_body] pub struct Dictionaries { x: u8 }
/// text is recorded as what a number stands for
pub uninterp spec fn stands_for(p: u64, tbl: Seq<char>, col: Seq<char>, key: u64, text: Seq<char>) -> bool;
impl Dictionaries {
    #[verifier::external_body] pub fn get_key_or_create(&self, project_id: u64, table: &str, dict: &str, value: &str) -> (r: Result<u64>) ensures r is Ok ==> r->Ok_0 == number_of(project_id, table@, dict@, value@), r is Err ==> r->Err_0 is Metadata { unimplemented!() }
    #[verifier::external_body] pub fn create_key(&self, project_id: u64, table: &str, dict: &str, key: u64, value: &str) -> (r: Result<()>) ensures r is Ok ==> stands_for(project_id, table@, dict@, key, value@), r is Err ==> r->Err_0 is Metadata { unimplemented!() }
}
#[verifier::external_body] pub struct Properties { x: u8 }
impl Properties { pub uninterp spec fn kind(self) -> Option<nat>;
    #[verifier::external_body] pub fn get_by_id(&self, project_id: u64, id: u64) -> (r: Result<Property>) ensures r is Ok ==> r->Ok_0 == prop_at(self.kind(), project_id, id), r is Err ==> r->Err_0 is Metadata { unimplemented!() }
    #[verifier::external_body] pub fn get_by_name(&self, project_id: u64, name: &str) -> (r: Result<Property>) ensures r is Ok ==> r->Ok_0 == prop_named(self.kind(), project_id, name@), r is Err ==> r->Err_0 is Metadata { unimplemented!() }
}
#[verifier::external_body] pub struct Sessions { x: u8 }
impl Sessions { #[verifier::external_body] pub fn set_current_time(&self, project_id: u64, user_id: u64, time: DateTime<Utc>) -> (r: Result<bool>) ensures r is Ok ==> new_session(project_id, user_id, r->Ok_0), r is Err ==> r->Err_0 is Metadata { unimplemented!() } }
// ---- requests
//@item src/ingester/src/lib.rs RequestContext | vis=keep
//@item src/ingester/src/lib.rs Campaign | vis=keep
//@item src/ingester/src/lib.rs Context | vis=keep
//@item src/ingester/src/lib.rs Library | vis=keep
//@item src/ingester/src/lib.rs Page | vis=keep
//@item src/ingester/src/lib.rs PropertyAndValue | vis=keep
//@item src/ingester/src/lib.rs PropValue | vis=keep
//@item src/ingester/src/lib.rs Identify | vis=keep
//@item src/ingester/src/lib.rs Track | vis=keep
// a map of a request, as the list of its entries in the order they are visited
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { x: std::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> { pub uninterp spec fn entries(self) -> Seq<(K, V)>; #[verifier::external_body] pub fn list(&self) -> (r: Vec<(&K, &V)>) ensures r@.len() == self.entries().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == self.entries()[i].0 && *r@[i].1 == self.entries()[i].1 { unimplemented!() } }
//@item src/storage/src/lib.rs NamedValue
//@item src/storage/src/lib.rs Value | vis=keep
impl NamedValue { pub closed spec fn n(self) -> Seq<char> { self.name@ } pub closed spec fn v(self) -> Value { self.value } }
impl NamedValue {
//@fn src/storage/src/lib.rs NamedValue::new | ret=r block vis=keep
//@contract
    ensures r.n() == name@, r.v() == value,
//@end
}
// ---- one value
/// what a column stores for a value: None when it cannot
#[verifier::opaque] pub open spec fn s_value(p: u64, tbl: Seq<char>, x: PropertyAndValue) -> Option<Value> {
    if x.property.is_dictionary { match (x.value, x.property.dictionary_type) { (PropValue::String(s), Some(t)) => Some(coded(t, number_of(p, tbl, x.property.column(), s@))), _ => None } }
    else { match (x.property.data_type, x.value) {
        (DType::String, PropValue::String(s)) => Some(Value::String(Some(s))),
        (DType::Int8, PropValue::Number(v)) => if i8::MIN <= whole(v) <= i8::MAX { Some(Value::Int8(Some(whole(v) as i8))) } else { None },
        (DType::Int16, PropValue::Number(v)) => if i16::MIN <= whole(v) <= i16::MAX { Some(Value::Int16(Some(whole(v) as i16))) } else { None },
        (DType::Int32, PropValue::Number(v)) => if i32::MIN <= whole(v) <= i32::MAX { Some(Value::Int32(Some(whole(v) as i32))) } else { None },
        (DType::Int64, PropValue::Number(v)) => if i64::MIN <= whole(v) <= i64::MAX { Some(Value::Int64(Some(whole(v) as i64))) } else { None },
        (DType::Decimal, PropValue::Number(v)) => if abs(at_scale(v)) < ten(DECIMAL_PRECISION as nat) { Some(Value::Decimal(Some(at_scale(v) as i128))) } else { None },
        (DType::Boolean, PropValue::Bool(b)) => Some(Value::Boolean(Some(b))),
        (DType::Timestamp, PropValue::Date(t)) => Some(Value::Timestamp(Some(millis(t)))),
        _ => None } }
}
/// the number times ten to the column's scale
pub open spec fn at_scale(v: Decimal) -> int { let d = rounded(v, DECIMAL_SCALE as nat); d.m() * ten((DECIMAL_SCALE - d.sc()) as nat) }
pub open spec fn coded(t: DictionaryType, k: u64) -> Value { match t { DictionaryType::Int8 => Value::Int8(Some(k as i8)), DictionaryType::Int16 => Value::Int16(Some(k as i16)), DictionaryType::Int32 => Value::Int32(Some(k as i32)), DictionaryType::Int64 => Value::Int64(Some(k as i64)) } }
proof fn lemma_ten(n: nat, m: nat) requires n <= m ensures 0 < ten(n) <= ten(m) decreases m { if n < m { lemma_ten(n, (m - 1) as nat); } else if n > 0 { lemma_ten((n - 1) as nat, (n - 1) as nat); } }
/// what each given property has a column for
pub open spec fn typed(x: PropertyAndValue) -> bool { x.property.is_dictionary ==> x.property.dictionary_type is Some }
/// a stored profile value, as a cell
pub open spec fn plain(v: groups::Value) -> Value { match v {
    groups::Value::Null => Value::Null, groups::Value::Int8(v) => Value::Int8(v), groups::Value::Int16(v) => Value::Int16(v), groups::Value::Int32(v) => Value::Int32(v), groups::Value::Int64(v) => Value::Int64(v), groups::Value::Boolean(v) => Value::Boolean(v),
    groups::Value::Timestamp(v) => Value::Timestamp(v), groups::Value::Decimal(v) => Value::Decimal(v), groups::Value::String(v) => Value::String(v), groups::Value::ListInt8(v) => Value::ListInt8(v), groups::Value::ListInt16(v) => Value::ListInt16(v), groups::Value::ListInt32(v) => Value::ListInt32(v),
    groups::Value::ListInt64(v) => Value::ListInt64(v), groups::Value::ListBoolean(v) => Value::ListBoolean(v), groups::Value::ListTimestamp(v) => Value::ListTimestamp(v), groups::Value::ListDecimal(v) => Value::ListDecimal(v), groups::Value::ListString(v) => Value::ListString(v) } }
pub open spec fn given<T>(o: Option<Vec<T>>) -> Seq<T> { match o { Some(v) => v@, None => seq![] } }
