// Q05: a filter, an event and a time range become the condition they describe
//@include base.rs
//@rule QueryError :: Plan ( $$a ) =>> plan_error()
//@rule QueryError :: Unimplemented ( $$a ) =>> plan_error()
//@rule crate :: Result =>> Result
//@rule pub const $n : & str = $v ; =>> pub const $n: &'static str = $v;
//@rule $~c . iter ( ) . skip ( $n ) =>> after_first(&$c, $n)
//@rule datatypes :: DataType =>> DataType
//@rule arrow :: datatypes :: TimeUnit =>> TimeUnit
//@rule metadata :: properties :: Properties =>> Properties
//@rule metadata :: dictionaries :: Dictionaries =>> Dictionaries
//@rule Expr :: Column ( Column :: from_qualified_name ( $n ) ) =>> col($n)
//@rule let col = col ( $$a ) =>> let col_ = col($$a)
//@rule named_property_expression ( col , $$a ) =>> named_property_expression(col_, $$a)
//@rule operation . clone ( ) . try_into ( ) . unwrap ( ) =>> df_from_pv(operation.clone()).unwrap()
//@rule operation . to_owned ( ) . try_into ( ) ? =>> df_from_pv(operation.to_owned())?
//@rule ScalarValue :: try_from ( $$a ) ? =>> null_scalar($$a)?
//@rule DataType :: from ( dict_type . to_owned ( ) ) =>> type_of_codes(dict_type.to_owned())
//@rule values . filter ( | v | $$c ) . ok_or_else ( | | { $$g } ) ? =>> match values { Some(given_) => { let keep_ = { let v = &given_; $$c }; if keep_ { given_ } else { return Err({ $$g }); } }, None => return Err({ $$g }) }
//@rule values . ok_or_else ( | | { $$g } ) ? =>> match values { Some(given_) => given_, None => return Err({ $$g }) }
//@rule LogicalPlan :: Filter ( $F :: try_new ( $$a ) ? ) =>> filter_plan($$a)?
//@rule decode_filter_dictionaries ( $$a ) ? =>> decoded(input)?
//@rule let mut cols_hash : $$t = HashMap :: new ( ) ; =>> 
//@rule property_col ! ( ctx , metadata , $$t , input , prop ) =>> distinct_values(input, prop.column_name())?
//@rule ( & DType :: Timestamp , & ScalarValue :: Decimal128 ( Some ( ts ) , _ , _ ) ) => $b =>> (DType::Timestamp, ScalarValue::Decimal128(Some(ts_), _, _)) => { let ts = *ts_; $b }
//@rule $~c . iter ( ) . enumerate ( ) =>> numbered(&$c)
//@rule out . events [ $i ] . filters = $$e ; =>> set_filters(&mut out.events, $i, $$e);
//@rule out . steps [ $s ] . events [ $i ] . filters = $$e ; =>> { let fs_ = $$e; set_step_filters(&mut out.steps, $s, $i, fs_); }
//@rule out_exclude [ $i ] . filters = $$e ; =>> { let fs_ = $$e; set_exclude_filters(&mut out_exclude, $i, fs_); }
//@rule exclude . to_vec ( ) =>> exclude.clone()
//@rule common :: query :: PropValueFilter =>> PropValueFilter
//@rule common :: event_segmentation :: EventSegmentationRequest =>> EventSegmentationRequest
//@rule common :: funnel :: Funnel =>> Funnel
//@rule crate :: Result < $a > =>> Result<$a>
use vstd::prelude::*;
use std::sync::Arc;
use vstd::std_specs::cmp::PartialEqSpec;
verus! {
global size_of usize == 8;
//@include chrono.rs
//@include relative.rs
//@include stdspec.rs
#[derive(Debug)] pub struct QueryError { pub e: u64 }
pub type CommonError = QueryError;
pub type Result<T, E = QueryError> = core::result::Result<T, E>;
#[verifier::external_body] pub fn plan_error() -> QueryError { unimplemented!() }
//@item reg:datafusion-expr-39.0.0/src/operator.rs Operator | vis=keep
//@item src/common/src/query.rs PropValueOperation | vis=keep
//@item src/common/src/query.rs PropertyRef | vis=keep
//@item src/common/src/query.rs EventRef | vis=keep
//@item src/common/src/query.rs Breakdown | vis=keep
//@item src/common/src/query.rs PropValueFilter | vis=keep
//@item src/common/src/query.rs TimeIntervalUnit | vis=keep
//@item src/common/src/query.rs QueryTime | vis=keep
//@item src/common/src/types.rs TABLE_EVENTS | vis=keep
//@item src/common/src/types.rs COLUMN_EVENT | vis=keep
//@item src/common/src/types.rs COLUMN_PROJECT_ID | vis=keep
//@item src/common/src/types.rs COLUMN_CREATED_AT | vis=keep
//@item src/common/src/types.rs GROUP_COLUMN_PROJECT_ID | vis=keep
//@item src/common/src/types.rs GROUP_COLUMN_CREATED_AT | vis=keep
//@item reg:arrow-schema-52.2.0/src/datatype.rs DataType | vis=keep
//@item reg:arrow-schema-52.2.0/src/datatype.rs TimeUnit | vis=keep
//@item reg:arrow-schema-52.2.0/src/datatype.rs IntervalUnit | vis=keep
//@item reg:arrow-schema-52.2.0/src/datatype.rs UnionMode | vis=keep
pub struct Field { pub data_type: DataType }
pub type FieldRef = Arc<Field>;
pub struct Fields { pub f: Vec<Field> }
pub struct UnionFields { pub f: Vec<(i8, Field)> }
// the literals the code builds or is given; every other kind is Other
pub enum ScalarValue { Boolean(Option<bool>), Decimal128(Option<i128>, u8, i8), Int8(Option<i8>), Int16(Option<i16>), Int32(Option<i32>), Int64(Option<i64>), UInt8(Option<u8>), UInt16(Option<u16>), UInt32(Option<u32>), UInt64(Option<u64>), Utf8(Option<String>),
    TimestampSecond(Option<i64>, Option<Arc<str>>), TimestampMillisecond(Option<i64>, Option<Arc<str>>), TimestampMicrosecond(Option<i64>, Option<Arc<str>>), TimestampNanosecond(Option<i64>, Option<Arc<str>>), Other(u64) }
pub trait Literal: Sized { spec fn scalar(self) -> ScalarValue; }
impl Literal for i64 { open spec fn scalar(self) -> ScalarValue { ScalarValue::Int64(Some(self)) } }
impl Literal for i32 { open spec fn scalar(self) -> ScalarValue { ScalarValue::Int32(Some(self)) } }
impl Literal for u64 { open spec fn scalar(self) -> ScalarValue { ScalarValue::UInt64(Some(self)) } }
impl Literal for u32 { open spec fn scalar(self) -> ScalarValue { ScalarValue::UInt32(Some(self)) } }
impl Literal for u16 { open spec fn scalar(self) -> ScalarValue { ScalarValue::UInt16(Some(self)) } }
impl ScalarValue { #[verifier::external_body] pub fn from<T: Literal>(v: T) -> (r: ScalarValue) ensures r == v.scalar() { unimplemented!() } }
impl Clone for ScalarValue { #[verifier::external_body] fn clone(&self) -> (r: ScalarValue) ensures r == *self { unimplemented!() } }
impl Clone for PropValueOperation { #[verifier::external_body] fn clone(&self) -> (r: PropValueOperation) ensures r == *self { unimplemented!() } }
impl Clone for DictionaryType { #[verifier::external_body] fn clone(&self) -> (r: DictionaryType) ensures r == *self { unimplemented!() } }
impl Clone for DataType { #[verifier::external_body] fn clone(&self) -> (r: DataType) ensures r == *self { unimplemented!() } }
pub open spec fn null_of(d: DataType) -> Option<ScalarValue> { match d { DataType::Int8 => Some(ScalarValue::Int8(None)), DataType::Int16 => Some(ScalarValue::Int16(None)), DataType::Int32 => Some(ScalarValue::Int32(None)), DataType::Int64 => Some(ScalarValue::Int64(None)), _ => None } }
#[verifier::external_body] pub fn null_scalar(d: DataType) -> (r: Result<ScalarValue>) ensures null_of(d) is Some ==> r is Ok && r->Ok_0 == null_of(d)->0 { unimplemented!() }

// ---- conditions: what DataFusion evaluates, per row; NULL is None.  The builders' meaning is assumed.
#[verifier::external_body] pub struct Expr { x: u8 }
impl Clone for Expr { #[verifier::external_body] fn clone(&self) -> (r: Expr) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Row { x: u8 }
#[verifier::external_body] pub struct Val { x: u8 }
pub uninterp spec fn value(e: Expr, row: Row) -> Val;
pub uninterp spec fn column_named(e: Expr) -> Option<Seq<char>>;
pub uninterp spec fn cell(row: Row, column: Seq<char>) -> Val;
pub uninterp spec fn literal(v: ScalarValue) -> Val;
pub uninterp spec fn truth(v: Val) -> Option<bool>;
pub uninterp spec fn is_missing(v: Val) -> bool;
pub uninterp spec fn compare(o: Operator, a: Val, b: Val) -> Option<bool>;
pub uninterp spec fn alike(a: Val, b: Val) -> Option<bool>;
pub uninterp spec fn unlike(a: Val, b: Val) -> Option<bool>;
pub open spec fn holds(e: Expr, row: Row) -> Option<bool> { truth(value(e, row)) }
pub open spec fn and3(a: Option<bool>, b: Option<bool>) -> Option<bool> { if a == Some(false) || b == Some(false) { Some(false) } else if a is None || b is None { None } else { Some(true) } }
pub open spec fn or3(a: Option<bool>, b: Option<bool>) -> Option<bool> { if a == Some(true) || b == Some(true) { Some(true) } else if a is None || b is None { None } else { Some(false) } }
/// at least one of these / every one of these
pub open spec fn any3(s: Seq<Option<bool>>) -> Option<bool> { if s.contains(Some(true)) { Some(true) } else if s.contains(None) { None } else { Some(false) } }
pub open spec fn all3(s: Seq<Option<bool>>) -> Option<bool> { if s.contains(Some(false)) { Some(false) } else if s.contains(None) { None } else { Some(true) } }
#[verifier::external_body] pub fn col(name: &str) -> (r: Expr) ensures column_named(r) == Some(name@), forall|row: Row| #[trigger] value(r, row) == cell(row, name@) { unimplemented!() }
#[verifier::external_body] pub fn lit(v: ScalarValue) -> (r: Expr) ensures forall|row: Row| #[trigger] value(r, row) == literal(v) { unimplemented!() }
#[verifier::external_body] pub fn binary_expr(a: Expr, o: Operator, b: Expr) -> (r: Expr) requires !(o is And), !(o is Or) ensures forall|row: Row| #[trigger] holds(r, row) == compare(o, value(a, row), value(b, row)) { unimplemented!() }
#[verifier::external_body] pub fn and(a: Expr, b: Expr) -> (r: Expr) ensures forall|row: Row| #[trigger] holds(r, row) == and3(holds(a, row), holds(b, row)) { unimplemented!() }
#[verifier::external_body] pub fn or(a: Expr, b: Expr) -> (r: Expr) ensures forall|row: Row| #[trigger] holds(r, row) == or3(holds(a, row), holds(b, row)) { unimplemented!() }
impl Expr {
    #[verifier::external_body] pub fn like(self, b: Expr) -> (r: Expr) ensures forall|row: Row| #[trigger] holds(r, row) == alike(value(self, row), value(b, row)) { unimplemented!() }
    #[verifier::external_body] pub fn not_like(self, b: Expr) -> (r: Expr) ensures forall|row: Row| #[trigger] holds(r, row) == unlike(value(self, row), value(b, row)) { unimplemented!() }
    #[verifier::external_body] pub fn is_true(self) -> (r: Expr) ensures forall|row: Row| #[trigger] holds(r, row) == Some(holds(self, row) == Some(true)) { unimplemented!() }
    #[verifier::external_body] pub fn is_false(self) -> (r: Expr) ensures forall|row: Row| #[trigger] holds(r, row) == Some(holds(self, row) == Some(false)) { unimplemented!() }
    #[verifier::external_body] pub fn is_null(self) -> (r: Expr) ensures forall|row: Row| #[trigger] holds(r, row) == Some(is_missing(value(self, row))) { unimplemented!() }
    #[verifier::external_body] pub fn is_not_null(self) -> (r: Expr) ensures forall|row: Row| #[trigger] holds(r, row) == Some(!is_missing(value(self, row))) { unimplemented!() }
    #[verifier::external_body] pub fn get_type<S: ExprSchema>(&self, schema: &S) -> (r: Result<DataType>) ensures column_named(*self) is Some ==> (r is Ok <==> schema.kind_of(column_named(*self)->0) is Some) && (r is Ok ==> Some(r->Ok_0) == schema.kind_of(column_named(*self)->0)) { unimplemented!() }
}
pub trait ExprSchema: Sized { spec fn kind_of(self, column: Seq<char>) -> Option<DataType>; }
// iterating from the n-th element on
pub fn after_first<T>(v: &Vec<T>, n: usize) -> (r: Vec<&T>)
    ensures r@.len() == (if n <= v@.len() { v@.len() - n } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] *r@[i] == v@[i + n],
{
    let mut r: Vec<&T> = Vec::new(); let mut i = n;
    while i < v.len() invariant n <= i, i <= v@.len() || (i == n && r@.len() == 0), n <= v@.len() ==> r@.len() == i - n, forall|k: int| 0 <= k < r@.len() ==> #[trigger] *r@[k] == v@[k + n], decreases v@.len() - i { r.push(&v[i]); i = i + 1; }
    r
}
pub open spec fn each(es: Seq<Expr>, row: Row) -> Seq<Option<bool>> { es.map_values(|e: Expr| holds(e, row)) }
proof fn lemma_any(s: Seq<Option<bool>>, v: Option<bool>) ensures any3(s.push(v)) == or3(any3(s), v) {
    assert(s.push(v).last() == v); assert(s.push(v).contains(v)) by { assert(s.push(v)[s.len() as int] == v); }
    assert forall|x: Option<bool>| s.contains(x) implies #[trigger] s.push(v).contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(v)[i] == x); }
    assert forall|x: Option<bool>| #[trigger] s.push(v).contains(x) implies s.contains(x) || x == v by { let i = choose|i: int| 0 <= i < s.push(v).len() && s.push(v)[i] == x; if i < s.len() { assert(s[i] == x); } }
}
proof fn lemma_all(s: Seq<Option<bool>>, v: Option<bool>) ensures all3(s.push(v)) == and3(all3(s), v) {
    assert(s.push(v).contains(v)) by { assert(s.push(v)[s.len() as int] == v); }
    assert forall|x: Option<bool>| s.contains(x) implies #[trigger] s.push(v).contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(v)[i] == x); }
    assert forall|x: Option<bool>| #[trigger] s.push(v).contains(x) implies s.contains(x) || x == v by { let i = choose|i: int| 0 <= i < s.push(v).len() && s.push(v)[i] == x; if i < s.len() { assert(s[i] == x); } }
}
proof fn lemma_one(es: Seq<Expr>, row: Row) requires es.len() >= 1 ensures any3(each(es, row).take(1)) == holds(es[0], row), all3(each(es, row).take(1)) == holds(es[0], row) {
    let s = each(es, row).take(1); assert(s[0] == holds(es[0], row)); assert(s.contains(s[0]));
    assert forall|x: Option<bool>| #[trigger] s.contains(x) implies x == s[0] by { }
}

// ---- stored names, as the metadata store tells them
pub struct Context { pub project_id: u64, pub cur_time: DateTime<Utc> }
//@item src/common/src/types.rs DType | vis=keep
//@item src/metadata/src/properties.rs DictionaryType | vis=keep
// the parts of the stored records the conditions are built from
#[verifier::external_body] pub struct Stamp { x: u8 }
pub struct Property { pub id: u64, pub data_type: DType, pub dictionary_type: Option<DictionaryType>, pub named: Stamp }
pub uninterp spec fn column_of(p: Property) -> Seq<char>;
impl Property { #[verifier::external_body] pub fn column_name(&self) -> (r: String) ensures r@ == column_of(*self) { unimplemented!() } }
pub struct StoredEvent { pub id: u64 }
//@item src/metadata/src/custom_events.rs Event | vis=keep name=Part
pub struct CustomEvent { pub id: u64, pub events: Vec<Part> }
#[verifier::external_body] pub struct Properties { x: u8 }
#[verifier::external_body] pub struct Events { x: u8 }
#[verifier::external_body] pub struct CustomEvents { x: u8 }
#[verifier::external_body] pub struct Dictionaries { x: u8 }
pub struct MetadataProvider { pub events: Arc<Events>, pub custom_events: Arc<CustomEvents>, pub event_properties: Arc<Properties>, pub group_properties: Vec<Arc<Properties>>, pub dictionaries: Arc<Dictionaries> }
pub uninterp spec fn property_named(t: Properties, project: u64, name: Seq<char>) -> Option<Property>;
pub uninterp spec fn event_named(t: Events, project: u64, name: Seq<char>) -> Option<StoredEvent>;
pub uninterp spec fn custom_event(t: CustomEvents, project: u64, id: u64) -> Option<CustomEvent>;
pub uninterp spec fn key_of(t: Dictionaries, project: u64, table: Seq<char>, dict: Seq<char>, text: Seq<char>) -> Option<u64>;
impl Properties { #[verifier::external_body] pub fn get_by_name(&self, project_id: u64, name: &str) -> (r: Result<Property>) ensures r is Ok <==> property_named(*self, project_id, name@) is Some, r is Ok ==> Some(r->Ok_0) == property_named(*self, project_id, name@) { unimplemented!() } }
impl Events { #[verifier::external_body] pub fn get_by_name(&self, project_id: u64, name: &str) -> (r: Result<StoredEvent>) ensures r is Ok <==> event_named(*self, project_id, name@) is Some, r is Ok ==> Some(r->Ok_0) == event_named(*self, project_id, name@) { unimplemented!() } }
impl CustomEvents { #[verifier::external_body] pub fn get_by_id(&self, project_id: u64, id: u64) -> (r: Result<CustomEvent>) ensures r is Ok <==> custom_event(*self, project_id, id) is Some, r is Ok ==> Some(r->Ok_0) == custom_event(*self, project_id, id) { unimplemented!() } }
impl Dictionaries { #[verifier::external_body] pub fn get_key(&self, project_id: u64, table: &str, dict: &str, value: &str) -> (r: Result<u64>) ensures r is Ok <==> key_of(*self, project_id, table@, dict@, value@) is Some, r is Ok ==> Some(r->Ok_0) == key_of(*self, project_id, table@, dict@, value@) { unimplemented!() } }
pub uninterp spec fn group_table(g: usize) -> Seq<char>;
#[verifier::external_body] pub fn group_col(g: usize) -> (r: String) ensures r@ == group_table(g) { unimplemented!() }

// ---- what a condition means
pub open spec fn operator_of(o: PropValueOperation) -> Operator { match o { PropValueOperation::Eq => Operator::Eq, PropValueOperation::Neq => Operator::NotEq, PropValueOperation::Gt => Operator::Gt, PropValueOperation::Gte => Operator::GtEq,
    PropValueOperation::Lt => Operator::Lt, PropValueOperation::Lte => Operator::LtEq, PropValueOperation::Regex => Operator::RegexMatch, _ => Operator::RegexNotMatch } }
pub open spec fn unary(o: PropValueOperation) -> bool { o is True || o is False || o is Exists || o is Empty }
pub open spec fn textual(o: PropValueOperation) -> bool { o is Like || o is NotLike || o is Regex || o is NotRegex }
pub open spec fn negative(o: PropValueOperation) -> bool { o is Neq || o is NotLike || o is NotRegex }
/// a value against one listed value
pub open spec fn against(o: PropValueOperation, c: Val, v: ScalarValue) -> Option<bool> { match o { PropValueOperation::Like => alike(c, literal(v)), PropValueOperation::NotLike => unlike(c, literal(v)), _ => compare(operator_of(o), c, literal(v)) } }
/// a value against a filter: any of the listed values for an operator that asks for likeness, all of them for one that rules it out
pub open spec fn passes(o: PropValueOperation, c: Val, vs: Seq<ScalarValue>) -> Option<bool> { match o {
    PropValueOperation::True => Some(truth(c) == Some(true)), PropValueOperation::False => Some(truth(c) == Some(false)), PropValueOperation::Empty => Some(is_missing(c)), PropValueOperation::Exists => Some(!is_missing(c)),
    _ => if negative(o) { all3(vs.map_values(|v: ScalarValue| against(o, c, v))) } else { any3(vs.map_values(|v: ScalarValue| against(o, c, v))) } } }
/// text in a dictionary column stands as its code
pub open spec fn code(t: DictionaryType, k: u64) -> ScalarValue { match t { DictionaryType::Int8 => ScalarValue::Int8(Some(k as i8)), DictionaryType::Int16 => ScalarValue::Int16(Some(k as i16)), DictionaryType::Int32 => ScalarValue::Int32(Some(k as i32)), DictionaryType::Int64 => ScalarValue::Int64(Some(k as i64)) } }
pub open spec fn no_code(t: DictionaryType) -> ScalarValue { match t { DictionaryType::Int8 => ScalarValue::Int8(None), DictionaryType::Int16 => ScalarValue::Int16(None), DictionaryType::Int32 => ScalarValue::Int32(None), DictionaryType::Int64 => ScalarValue::Int64(None) } }
pub open spec fn coded(d: Dictionaries, project: u64, table: Seq<char>, t: DictionaryType, column: Seq<char>, v: ScalarValue) -> Option<ScalarValue> { match v {
    ScalarValue::Utf8(Some(s)) => match key_of(d, project, table, column, s@) { Some(k) => Some(code(t, k)), None => None }, ScalarValue::Utf8(None) => Some(no_code(t)), _ => None } }
pub open spec fn codable(d: Dictionaries, project: u64, table: Seq<char>, t: DictionaryType, column: Seq<char>, vs: Seq<ScalarValue>) -> bool { forall|i: int| 0 <= i < vs.len() ==> coded(d, project, table, t, column, #[trigger] vs[i]) is Some }
pub open spec fn codes(d: Dictionaries, project: u64, table: Seq<char>, t: DictionaryType, column: Seq<char>, vs: Seq<ScalarValue>) -> Seq<ScalarValue> { vs.map_values(|v: ScalarValue| coded(d, project, table, t, column, v)->0) }
pub open spec fn listed(vs: Option<Vec<ScalarValue>>) -> Seq<ScalarValue> { match vs { Some(v) => v@, None => Seq::empty() } }
pub open spec fn by_code(p: Property, o: PropValueOperation, vs: Option<Vec<ScalarValue>>) -> bool { p.dictionary_type is Some && vs is Some && !textual(o) }
pub open spec fn prop_ok(d: Dictionaries, project: u64, table: Seq<char>, p: Option<Property>, o: PropValueOperation, vs: Option<Vec<ScalarValue>>) -> bool {
    p is Some && (by_code(p->0, o, vs) ==> codable(d, project, table, p->0.dictionary_type->0, column_of(p->0), vs->0@)) && (unary(o) || listed(vs).len() > 0) }
pub open spec fn prop_passes(d: Dictionaries, project: u64, table: Seq<char>, p: Property, o: PropValueOperation, vs: Option<Vec<ScalarValue>>, row: Row) -> Option<bool> {
    passes(o, cell(row, column_of(p)), if by_code(p, o, vs) { codes(d, project, table, p.dictionary_type->0, column_of(p), vs->0@) } else { listed(vs) }) }
pub open spec fn known(md: MetadataProvider, p: PropertyRef) -> bool { match p { PropertyRef::Group(_, g) => g < md.group_properties@.len(), PropertyRef::Event(_) => true, PropertyRef::Custom(_) => false } }
pub open spec fn found(md: MetadataProvider, project: u64, p: PropertyRef) -> Option<Property> { match p { PropertyRef::Group(n, g) => property_named(*md.group_properties@[g as int], project, n@), PropertyRef::Event(n) => property_named(*md.event_properties, project, n@), PropertyRef::Custom(_) => None } }
pub open spec fn table_of(p: PropertyRef) -> Seq<char> { match p { PropertyRef::Group(_, g) => group_table(g), _ => TABLE_EVENTS@ } }
pub open spec fn filter_ok(md: MetadataProvider, project: u64, f: PropValueFilter) -> bool { match f { PropValueFilter::Property { property, operation, value } => prop_ok(*md.dictionaries, project, table_of(property), found(md, project, property), operation, value) } }
pub open spec fn filter_passes(md: MetadataProvider, project: u64, f: PropValueFilter, row: Row) -> Option<bool> { match f { PropValueFilter::Property { property, operation, value } => prop_passes(*md.dictionaries, project, table_of(property), found(md, project, property)->0, operation, value, row) } }
pub open spec fn filters_known(md: MetadataProvider, fs: Seq<PropValueFilter>) -> bool { fs.len() > 0 && forall|i: int| 0 <= i < fs.len() ==> known(md, (#[trigger] fs[i])->property) }
pub open spec fn filters_ok(md: MetadataProvider, project: u64, fs: Seq<PropValueFilter>) -> bool { forall|i: int| 0 <= i < fs.len() ==> filter_ok(md, project, #[trigger] fs[i]) }
/// every filter of the list
pub open spec fn all_pass(md: MetadataProvider, project: u64, fs: Seq<PropValueFilter>, row: Row) -> Option<bool> { all3(fs.map_values(|f: PropValueFilter| filter_passes(md, project, f, row))) }
/// rows of one event; a custom event is any of the events it lists, each narrowed by its own filters
pub uninterp spec fn custom_ok(md: MetadataProvider, project: u64, id: u64) -> bool;
pub uninterp spec fn custom_is(md: MetadataProvider, project: u64, id: u64, row: Row) -> Option<bool>;
pub open spec fn event_ok(md: MetadataProvider, project: u64, e: EventRef) -> bool { match e { EventRef::RegularName(n) => event_named(*md.events, project, n@) is Some, EventRef::Regular(_) => true, EventRef::Custom(id) => custom_ok(md, project, id) } }
pub open spec fn is_id(row: Row, id: u64) -> Option<bool> { compare(Operator::Eq, cell(row, COLUMN_EVENT@), literal(ScalarValue::Int64(Some(id as i64)))) }
pub open spec fn event_is(md: MetadataProvider, project: u64, e: EventRef, row: Row) -> Option<bool> { match e { EventRef::RegularName(n) => is_id(row, event_named(*md.events, project, n@)->0.id), EventRef::Regular(id) => is_id(row, id), EventRef::Custom(id) => custom_is(md, project, id, row) } }
pub open spec fn part_ok(md: MetadataProvider, project: u64, p: Part) -> bool { event_ok(md, project, p.event) && (p.filters is Some ==> filters_ok(md, project, p.filters->0@)) }
pub open spec fn part_is(md: MetadataProvider, project: u64, p: Part, row: Row) -> Option<bool> { if p.filters is Some { and3(event_is(md, project, p.event, row), all_pass(md, project, p.filters->0@, row)) } else { event_is(md, project, p.event, row) } }
pub open spec fn parts_ok(md: MetadataProvider, project: u64, ps: Seq<Part>) -> bool { forall|i: int| 0 <= i < ps.len() ==> part_ok(md, project, #[trigger] ps[i]) }
pub open spec fn any_part(md: MetadataProvider, project: u64, ps: Seq<Part>, row: Row) -> Option<bool> { any3(ps.map_values(|p: Part| part_is(md, project, p, row))) }
pub broadcast axiom fn axiom_custom_ok(md: MetadataProvider, project: u64, id: u64) ensures #[trigger] custom_ok(md, project, id) <==> custom_event(*md.custom_events, project, id) is Some && parts_ok(md, project, custom_event(*md.custom_events, project, id)->0.events@);
pub broadcast axiom fn axiom_custom_is(md: MetadataProvider, project: u64, id: u64, row: Row) ensures custom_event(*md.custom_events, project, id) is Some ==> #[trigger] custom_is(md, project, id, row) == any_part(md, project, custom_event(*md.custom_events, project, id)->0.events@, row);
/// what the store holds: a custom event lists at least one event; its filters, where it has any, name properties of existing groups
pub open spec fn stored_well(md: MetadataProvider, project: u64) -> bool { forall|id: u64| (#[trigger] custom_event(*md.custom_events, project, id)) is Some ==> { let es = custom_event(*md.custom_events, project, id)->0.events@; es.len() > 0 && forall|i: int| 0 <= i < es.len() ==> ((#[trigger] es[i]).filters is Some ==> filters_known(md, es[i].filters->0@)) } }
/// the two ends of a time range in the unit of the column, rounded down
pub open spec fn instant(t: DataType, d: DateTime<Utc>) -> Option<ScalarValue> { match t {
    DataType::Timestamp(TimeUnit::Second, tz) => Some(ScalarValue::TimestampSecond(Some((nanos(d) / 1_000_000_000) as i64), tz)), DataType::Timestamp(TimeUnit::Millisecond, tz) => Some(ScalarValue::TimestampMillisecond(Some((nanos(d) / 1_000_000) as i64), tz)),
    DataType::Timestamp(TimeUnit::Microsecond, tz) => Some(ScalarValue::TimestampMicrosecond(Some((nanos(d) / 1000) as i64), tz)), DataType::Timestamp(TimeUnit::Nanosecond, tz) => Some(ScalarValue::TimestampNanosecond(Some(nanos(d) as i64), tz)), _ => None } }
pub open spec fn in_nanos(d: DateTime<Utc>) -> bool { wf(d) && -9_223_372_036_854_775_808 <= nanos(d) <= 9_223_372_036_854_775_807 }
impl DateTime<Utc> {
    #[verifier::external_body] pub fn timestamp(&self) -> (r: i64) requires wf(*self) ensures r == nanos(*self) / 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn timestamp_millis(&self) -> (r: i64) requires wf(*self) ensures r == nanos(*self) / 1_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn timestamp_micros(&self) -> (r: i64) requires wf(*self) ensures r == nanos(*self) / 1000 { unimplemented!() }
    #[verifier::external_body] pub fn timestamp_nanos(&self) -> (r: i64) requires in_nanos(*self) ensures r == nanos(*self) { unimplemented!() }
}
pub open spec fn small(n: int) -> bool { -178_956_970 <= n <= 178_956_970 }
pub open spec fn months_of(u: TimeIntervalUnit) -> int { match u { TimeIntervalUnit::Month => 1, TimeIntervalUnit::Year => 12, _ => 0 } }
pub open spec fn hours_of(u: TimeIntervalUnit) -> int { match u { TimeIntervalUnit::Hour => 1, TimeIntervalUnit::Day => 24, TimeIntervalUnit::Week => 168, TimeIntervalUnit::Month => 744, TimeIntervalUnit::Year => 8928 } }
pub open spec fn rel_nanos(u: TimeIntervalUnit, n: int) -> int { if months_of(u) == 0 { n * hours_of(u) * 3600 * 1_000_000_000 } else { 0 } }
pub open spec fn range_of(t: QueryTime, now: DateTime<Utc>) -> (DateTime<Utc>, DateTime<Utc>) { match t { QueryTime::Between { from, to } => (from, to), QueryTime::From(from) => (from, now), QueryTime::Last { last, unit } => (shifted(now, -(last * months_of(unit)), -rel_nanos(unit, last as int)), now) } }

/// a row whose time lies in the range, both ends included
pub open spec fn timed(e: Expr, kind: DataType, column: Seq<char>, range: (DateTime<Utc>, DateTime<Utc>)) -> bool {
    forall|row: Row| #[trigger] holds(e, row) == and3(compare(Operator::GtEq, cell(row, column), literal(instant(kind, range.0)->0)), compare(Operator::LtEq, cell(row, column), literal(instant(kind, range.1)->0))) }

// ---- plans: the rows a plan lets through.  Building one is DataFusion's; its meaning is assumed.
#[verifier::external_body] pub struct LogicalPlan { x: u8 }
#[verifier::external_body] pub struct DFSchema { x: u8 }
pub uninterp spec fn keeps(p: LogicalPlan, row: Row) -> bool;
pub uninterp spec fn schema_of(p: LogicalPlan) -> DFSchema;
pub uninterp spec fn type_in(s: DFSchema, column: Seq<char>) -> Option<DataType>;
/// a plan giving each value of one column once
pub uninterp spec fn distinct(p: LogicalPlan, column: Seq<char>) -> LogicalPlan;
impl ExprSchema for DFSchema { open spec fn kind_of(self, column: Seq<char>) -> Option<DataType> { type_in(self, column) } }
impl LogicalPlan { #[verifier::external_body] pub fn schema(&self) -> (r: &DFSchema) ensures *r == schema_of(*self) { unimplemented!() } }
#[verifier::external_body] pub fn filter_plan(e: Expr, input: Arc<LogicalPlan>) -> (r: Result<LogicalPlan>) ensures r is Ok ==> (forall|row: Row| #[trigger] keeps(r->Ok_0, row) <==> keeps(*input, row) && holds(e, row) == Some(true)) && schema_of(r->Ok_0) == schema_of(*input) { unimplemented!() }
// decoding dictionary columns changes how values are written, not which rows there are; the times keep their column
#[verifier::external_body] pub fn decoded(input: LogicalPlan) -> (r: Result<LogicalPlan>) ensures r is Ok ==> (forall|row: Row| #[trigger] keeps(r->Ok_0, row) <==> keeps(input, row)) && type_in(schema_of(r->Ok_0), COLUMN_CREATED_AT@) == type_in(schema_of(input), COLUMN_CREATED_AT@) { unimplemented!() }
#[verifier::external_body] pub fn distinct_values(input: LogicalPlan, column: String) -> (r: Result<LogicalPlan>) ensures r is Ok ==> r->Ok_0 == distinct(input, column@) { unimplemented!() }
#[verifier::external_body] pub fn numbered<T>(v: &Vec<T>) -> (r: Vec<(usize, &T)>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == v@[i] { unimplemented!() }

// ---- requests: the parts that decide which rows they are about
pub struct EsEvent { pub event: EventRef, pub filters: Option<Vec<PropValueFilter>>, pub rest: Stamp }
pub struct EventSegmentationRequest { pub time: QueryTime, pub events: Vec<EsEvent>, pub filters: Option<Vec<PropValueFilter>>, pub rest: Stamp }
pub struct LogicalPlanBuilder { pub ctx: Context, pub metadata: Arc<MetadataProvider>, pub es: EventSegmentationRequest }
//@item src/query/src/event_records.rs self::Event | vis=keep
//@item src/query/src/event_records.rs self::EventRecordsSearchRequest | vis=keep
//@item src/query/src/group_records.rs self::GroupRecordsSearchRequest | vis=keep
//@item src/common/src/types.rs SortDirection | vis=keep
//@item src/query/src/properties.rs self::PropertyValues | vis=keep
//@item src/query/src/properties.rs self::Filter | vis=keep
pub struct FunnelEvent { pub event: EventRef, pub filters: Option<Vec<PropValueFilter>> }
pub struct Step { pub events: Vec<FunnelEvent>, pub rest: Stamp }
pub struct Exclude { pub event: EventRef, pub filters: Option<Vec<PropValueFilter>>, pub rest: Stamp }
pub struct Funnel { pub time: QueryTime, pub steps: Vec<Step>, pub holding_constants: Option<Vec<PropertyRef>>, pub exclude: Option<Vec<Exclude>>, pub breakdowns: Option<Vec<Breakdown>>, pub filters: Option<Vec<PropValueFilter>>, pub rest: Stamp }
impl Clone for EsEvent { #[verifier::external_body] fn clone(&self) -> (r: EsEvent) ensures r == *self { unimplemented!() } }
impl Clone for EventSegmentationRequest { #[verifier::external_body] fn clone(&self) -> (r: EventSegmentationRequest) ensures r == *self { unimplemented!() } }
impl Clone for Event { #[verifier::external_body] fn clone(&self) -> (r: Event) ensures r == *self { unimplemented!() } }
impl Clone for EventRecordsSearchRequest { #[verifier::external_body] fn clone(&self) -> (r: EventRecordsSearchRequest) ensures r == *self { unimplemented!() } }
impl Clone for GroupRecordsSearchRequest { #[verifier::external_body] fn clone(&self) -> (r: GroupRecordsSearchRequest) ensures r == *self { unimplemented!() } }
impl Clone for FunnelEvent { #[verifier::external_body] fn clone(&self) -> (r: FunnelEvent) ensures r == *self { unimplemented!() } }
impl Clone for Step { #[verifier::external_body] fn clone(&self) -> (r: Step) ensures r == *self { unimplemented!() } }
impl Clone for Exclude { #[verifier::external_body] fn clone(&self) -> (r: Exclude) ensures r == *self { unimplemented!() } }
impl Clone for Funnel { #[verifier::external_body] fn clone(&self) -> (r: Funnel) ensures r == *self { unimplemented!() } }
impl Clone for PropertyRef { #[verifier::external_body] fn clone(&self) -> (r: PropertyRef) ensures r == *self { unimplemented!() } }
impl Clone for PropValueFilter { #[verifier::external_body] fn clone(&self) -> (r: PropValueFilter) ensures r == *self { unimplemented!() } }
impl Clone for EventRef { #[verifier::external_body] fn clone(&self) -> (r: EventRef) ensures r == *self { unimplemented!() } }

/// the rows a query is about
pub open spec fn of_project(project: u64, column: Seq<char>, row: Row) -> bool { compare(Operator::Eq, cell(row, column), literal(ScalarValue::Int64(Some(project as i64)))) == Some(true) }
pub open spec fn in_time(kind: Option<DataType>, column: Seq<char>, range: (DateTime<Utc>, DateTime<Utc>), row: Row) -> bool { kind is Some && instant(kind->0, range.0) is Some
    && compare(Operator::GtEq, cell(row, column), literal(instant(kind->0, range.0)->0)) == Some(true) && compare(Operator::LtEq, cell(row, column), literal(instant(kind->0, range.1)->0)) == Some(true) }
pub open spec fn all_met(md: MetadataProvider, project: u64, fs: Option<Vec<PropValueFilter>>, row: Row) -> bool { fs is Some ==> forall|i: int| 0 <= i < fs->0@.len() ==> filter_passes(md, project, #[trigger] fs->0@[i], row) == Some(true) }
pub open spec fn event_met(md: MetadataProvider, project: u64, e: EventRef, fs: Option<Vec<PropValueFilter>>, row: Row) -> bool { event_is(md, project, e, row) == Some(true) && all_met(md, project, fs, row) }
pub open spec fn some_known(md: MetadataProvider, fs: Option<Vec<PropValueFilter>>) -> bool { fs is Some ==> filters_known(md, fs->0@) }
pub open spec fn timely(t: QueryTime, now: DateTime<Utc>) -> bool { (t is Last ==> small(t->last as int)) && in_nanos(range_of(t, now).0) && in_nanos(range_of(t, now).1) }
/// a filter as it is used: instants given as numbers become instants
pub open spec fn fixed_value(t: DType, v: ScalarValue) -> ScalarValue { match v { ScalarValue::Decimal128(Some(n), _, _) => if t is Timestamp { ScalarValue::TimestampMillisecond(Some(n as i64), None) } else { v }, _ => v } }
pub open spec fn fixed(md: MetadataProvider, project: u64, f: PropValueFilter, g: PropValueFilter) -> bool { found(md, project, f->property) is Some && g->property == f->property && g->operation == f->operation && g->value is Some
    && g->value->0@ =~= listed(f->value).map_values(|v: ScalarValue| fixed_value(found(md, project, f->property)->0.data_type, v)) }
pub open spec fn all_fixed(md: MetadataProvider, project: u64, fs: Seq<PropValueFilter>, gs: Seq<PropValueFilter>) -> bool { gs.len() == fs.len() && forall|i: int| 0 <= i < gs.len() ==> fixed(md, project, fs[i], #[trigger] gs[i]) }
pub open spec fn list_of(fs: Option<Vec<PropValueFilter>>) -> Seq<PropValueFilter> { match fs { Some(v) => v@, None => Seq::empty() } }
/// no filters and an empty list of them are the same
pub open spec fn list_fixed(md: MetadataProvider, project: u64, fs: Option<Vec<PropValueFilter>>, gs: Option<Vec<PropValueFilter>>) -> bool { if list_of(fs).len() == 0 { gs is None } else { gs is Some && all_fixed(md, project, list_of(fs), gs->0@) } }
pub open spec fn tidy(fs: Option<Vec<PropValueFilter>>, gs: Option<Vec<PropValueFilter>>) -> bool { if list_of(fs).len() == 0 { gs is None } else { gs == fs } }
pub open spec fn all_refs(md: MetadataProvider, fs: Option<Vec<PropValueFilter>>) -> bool { forall|i: int| 0 <= i < list_of(fs).len() ==> known(md, (#[trigger] list_of(fs)[i])->property) }
pub broadcast proof fn lemma_both(a: Option<bool>, b: Option<bool>) ensures (#[trigger] and3(a, b)) == Some(true) <==> a == Some(true) && b == Some(true) { assert(a is None || a->0 == true || a->0 == false); assert(b is None || b->0 == true || b->0 == false); if a is Some { if a->0 { assert(a == Some(true)); } else { assert(a == Some(false)); } } if b is Some { if b->0 { assert(b == Some(true)); } else { assert(b == Some(false)); } } }
pub open spec fn one_met(md: MetadataProvider, project: u64, es: Seq<Event>, row: Row) -> bool { exists|i: int| 0 <= i < es.len() && event_met(md, project, (#[trigger] es[i]).event, es[i].filters, row) }
pub open spec fn timely_opt(t: Option<QueryTime>, now: DateTime<Utc>) -> bool { t is Some ==> timely(t->0, now) }
pub open spec fn nonempty_known(md: MetadataProvider, fs: Option<Vec<PropValueFilter>>) -> bool { fs is Some && fs->0@.len() > 0 ==> filters_known(md, fs->0@) }
proof fn lemma_every(s: Seq<Option<bool>>) ensures all3(s) == Some(true) <==> (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Some(true)) {
    if all3(s) == Some(true) { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == Some(true) by { assert(s.contains(s[i])); } }
    if forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Some(true) { assert(!s.contains(Some(false)) && !s.contains(None)); }
}
proof fn lemma_some(s: Seq<Option<bool>>) ensures any3(s) == Some(true) <==> (exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Some(true)) { }
proof fn lemma_met(md: MetadataProvider, project: u64, row: Row) ensures forall|fs: Option<Vec<PropValueFilter>>| fs is Some ==> (#[trigger] all_met(md, project, fs, row) <==> all_pass(md, project, fs->0@, row) == Some(true)) {
    assert forall|fs: Option<Vec<PropValueFilter>>| fs is Some implies (#[trigger] all_met(md, project, fs, row) <==> all_pass(md, project, fs->0@, row) == Some(true)) by {
        let s = fs->0@.map_values(|f: PropValueFilter| filter_passes(md, project, f, row)); lemma_every(s);
        if all_pass(md, project, fs->0@, row) == Some(true) { assert forall|i: int| 0 <= i < fs->0@.len() implies filter_passes(md, project, #[trigger] fs->0@[i], row) == Some(true) by { assert(s[i] == Some(true)); } }
        if all_met(md, project, fs, row) { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == Some(true) by { assert(s[i] == filter_passes(md, project, fs->0@[i], row)); } }
    }
}
pub mod exprs { use super::*; broadcast use {crate::axiom_custom_ok, crate::axiom_custom_is};
impl TimeIntervalUnit {
//@fn src/common/src/query.rs TimeIntervalUnit::relative_duration | ret=r block vis=keep
//@contract
    requires small(n as int),
    ensures r.months == n * months_of(*self), r.duration.nanos() == rel_nanos(*self, n as int),
//@end
}
impl QueryTime {
//@fn src/common/src/query.rs QueryTime::range | ret=r block vis=keep
//@contract
    requires self is Last ==> small(self->last as int),
    ensures r == range_of(*self, cur_time),
//@end
}
//@fn src/common/src/query.rs [TryInto<DFOperator> for PropValueOperation]::try_into | name=df_from_pv ret=r block
//@rule Self :: Error =>> CommonError
//@rule ( self ) =>> (this: PropValueOperation)
//@rule match self =>> match this
//@rule DFOperator =>> Operator
//@contract
    requires !unary(this), !(this is Like), !(this is NotLike),
    ensures r is Ok, r->Ok_0 == operator_of(this),
//@end
//@fn src/metadata/src/properties.rs [From<DictionaryType> for datatypes::DataType]::from | name=type_of_codes ret=r block
//@rule Self =>> DataType
//@contract
    ensures null_of(r) == Some(no_code(value)),
//@end
//@fn src/query/src/logical_plan/expr.rs multi_or | ret=r block vis=keep
//@contract
    requires exprs@.len() > 0,
    ensures forall|row: Row| #[trigger] holds(r, row) == any3(each(exprs@, row)),
//@loop 0 iter=it
    invariant
        it.seq().len() == exprs@.len() - 2, exprs@.len() >= 2, forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] *it.seq()[i] == exprs@[i + 2],
        forall|row: Row| #[trigger] holds(expr, row) == any3(each(exprs@, row).take(it.index@ + 2)),
//@loopstart 0
    let ghost was = expr; let ghost k = it.index@ + 2;
//@loopend 0
    ;     proof { assert forall|row: Row| #[trigger] holds(expr, row) == any3(each(exprs@, row).take(k + 1)) by { let s = each(exprs@, row); assert(holds(was, row) == any3(s.take(k))); lemma_any(s.take(k), s[k]); assert(s.take(k + 1) =~= s.take(k).push(s[k])); assert(s[k] == holds(exprs@[k], row)); } }
//@start
    proof { assert forall|row: Row| true implies each(exprs@, row).take(exprs@.len() as int) =~= #[trigger] each(exprs@, row) by { }
        assert forall|row: Row| true implies any3((#[trigger] each(exprs@, row)).take(1)) == holds(exprs@[0], row) by { lemma_one(exprs@, row); }
        if exprs@.len() >= 2 { assert forall|row: Row| true implies any3((#[trigger] each(exprs@, row)).take(2)) == or3(holds(exprs@[0], row), holds(exprs@[1], row)) by { lemma_one(exprs@, row); let s = each(exprs@, row); lemma_any(s.take(1), s[1]); assert(s.take(2) =~= s.take(1).push(s[1])); } } }
//@end
//@fn src/query/src/logical_plan/expr.rs multi_and | ret=r block vis=keep
//@contract
    requires exprs@.len() > 0,
    ensures forall|row: Row| #[trigger] holds(r, row) == all3(each(exprs@, row)),
//@loop 0 iter=it
    invariant
        it.seq().len() == exprs@.len() - 2, exprs@.len() >= 2, forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] *it.seq()[i] == exprs@[i + 2],
        forall|row: Row| #[trigger] holds(expr, row) == all3(each(exprs@, row).take(it.index@ + 2)),
//@loopstart 0
    let ghost was = expr; let ghost k = it.index@ + 2;
//@loopend 0
    ;     proof { assert forall|row: Row| #[trigger] holds(expr, row) == all3(each(exprs@, row).take(k + 1)) by { let s = each(exprs@, row); assert(holds(was, row) == all3(s.take(k))); lemma_all(s.take(k), s[k]); assert(s.take(k + 1) =~= s.take(k).push(s[k])); assert(s[k] == holds(exprs@[k], row)); } }
//@start
    proof { assert forall|row: Row| true implies each(exprs@, row).take(exprs@.len() as int) =~= #[trigger] each(exprs@, row) by { }
        assert forall|row: Row| true implies all3((#[trigger] each(exprs@, row)).take(1)) == holds(exprs@[0], row) by { lemma_one(exprs@, row); }
        if exprs@.len() >= 2 { assert forall|row: Row| true implies all3((#[trigger] each(exprs@, row)).take(2)) == and3(holds(exprs@[0], row), holds(exprs@[1], row)) by { lemma_one(exprs@, row); let s = each(exprs@, row); lemma_all(s.take(1), s[1]); assert(s.take(2) =~= s.take(1).push(s[1])); } } }
//@end
//@fn src/query/src/logical_plan/expr.rs lit_timestamp | ret=r block vis=keep
//@contract
    requires wf(*date_time), data_type is Timestamp && data_type->Timestamp_0 is Nanosecond ==> in_nanos(*date_time),
    ensures r is Ok <==> instant(data_type, *date_time) is Some, r is Ok ==> forall|row: Row| #[trigger] value(r->Ok_0, row) == literal(instant(data_type, *date_time)->0),
//@end
//@fn src/query/src/expr.rs time_expression | ret=r block vis=keep
//@contract
    requires *time is Last ==> small(time->last as int), wf(range_of(*time, cur_time).0), wf(range_of(*time, cur_time).1),
        in_nanos(range_of(*time, cur_time).0), in_nanos(range_of(*time, cur_time).1),
    ensures r is Ok <==> schema.kind_of(ts_col_name@) is Some && instant(schema.kind_of(ts_col_name@)->0, range_of(*time, cur_time).0) is Some,
        r is Ok ==> timed(r->Ok_0, schema.kind_of(ts_col_name@)->0, ts_col_name@, range_of(*time, cur_time)),
//@end
//@fn src/query/src/expr.rs encode_property_dict_values | ret=r block vis=keep
//@contract
    ensures r is Ok <==> codable(**dictionaries, ctx.project_id, tbl@, *dict_type, col_name@, values@),
        r is Ok ==> r->Ok_0@ =~= codes(**dictionaries, ctx.project_id, tbl@, *dict_type, col_name@, values@),
//@loop 0 iter=it
    invariant
        it.seq().len() == values@.len(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] *it.seq()[i] == values@[i],
        forall|i: int| 0 <= i < it.index@ ==> coded(**dictionaries, ctx.project_id, tbl@, *dict_type, col_name@, #[trigger] values@[i]) is Some,
        ret@ =~= codes(**dictionaries, ctx.project_id, tbl@, *dict_type, col_name@, values@.take(it.index@)),
//@loopstart 0
    let ghost at_ = it.index@;
    proof { assert(*it.seq()[at_] == values@[at_]); assert(values@.take(at_ + 1) =~= values@.take(at_).push(values@[at_])); }
//@end
//@fn src/query/src/expr.rs named_property_expression | ret=r block vis=keep
//@rule $c . iter ( ) . map ( | v | { $$e } ) . collect ( ) =>> { let all_ = &$c; let mut out_: Vec<Expr> = Vec::new(); for v in it: all_ invariant it.seq().len() == all_@.len(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] *it.seq()[i] == all_@[i], out_@.len() == it.index@, forall|row: Row, i: int| 0 <= i < it.index@ ==> #[trigger] each(out_@, row)[i] == against(*operation, value(prop_col, row), all_@[i]), { let ghost old_ = out_@; let ghost at_ = it.index@; proof { assert(*it.seq()[at_] == all_@[at_]); } out_.push({ $$e }); proof { assert forall|row: Row, i: int| 0 <= i < at_ + 1 implies #[trigger] each(out_@, row)[i] == against(*operation, value(prop_col, row), all_@[i]) by { if i < at_ { assert(out_@[i] == old_[i]); assert(each(old_, row)[i] == each(out_@, row)[i]); } else { assert(each(out_@, row)[i] == holds(out_@[i], row)); } } } } proof { assert forall|row: Row| #[trigger] each(out_@, row) =~= all_@.map_values(|v: ScalarValue| against(*operation, value(prop_col, row), v)) by { } } out_ }
//@rule $c . iter ( ) . map ( | v | $$e ) . collect ( ) =>> { let all_ = &$c; let mut out_: Vec<Expr> = Vec::new(); for v in it: all_ invariant it.seq().len() == all_@.len(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] *it.seq()[i] == all_@[i], out_@.len() == it.index@, forall|row: Row, i: int| 0 <= i < it.index@ ==> #[trigger] each(out_@, row)[i] == against(*operation, value(prop_col, row), all_@[i]), { let ghost old_ = out_@; let ghost at_ = it.index@; proof { assert(*it.seq()[at_] == all_@[at_]); } out_.push({ $$e }); proof { assert forall|row: Row, i: int| 0 <= i < at_ + 1 implies #[trigger] each(out_@, row)[i] == against(*operation, value(prop_col, row), all_@[i]) by { if i < at_ { assert(out_@[i] == old_[i]); assert(each(old_, row)[i] == each(out_@, row)[i]); } else { assert(each(out_@, row)[i] == holds(out_@[i], row)); } } } } proof { assert forall|row: Row| #[trigger] each(out_@, row) =~= all_@.map_values(|v: ScalarValue| against(*operation, value(prop_col, row), v)) by { } } out_ }
//@contract
    ensures r is Ok <==> unary(*operation) || listed(values).len() > 0,
        r is Ok ==> forall|row: Row| #[trigger] holds(r->Ok_0, row) == passes(*operation, value(prop_col, row), listed(values)),
//@start
    proof { assert forall|s: Seq<Option<bool>>| s.len() == 1 implies #[trigger] any3(s) == s[0] && all3(s) == s[0] by { assert(s.contains(s[0])); assert forall|x: Option<bool>| #[trigger] s.contains(x) implies x == s[0] by { } } }
//@end
//@fn src/query/src/expr.rs prop_expression | ret=r block vis=keep
//@contract
    ensures r is Ok <==> prop_ok(**dicts, ctx.project_id, tbl@, property_named(**prop, ctx.project_id, prop_name@), *operation, values),
        r is Ok ==> forall|row: Row| #[trigger] holds(r->Ok_0, row) == prop_passes(**dicts, ctx.project_id, tbl@, property_named(**prop, ctx.project_id, prop_name@)->0, *operation, values, row),
//@end
//@fn src/query/src/expr.rs property_expression | ret=r block vis=keep
//@contract
    requires known(**md, *property),
    ensures r is Ok <==> prop_ok(*md.dictionaries, ctx.project_id, tbl@, found(**md, ctx.project_id, *property), *operation, values),
        r is Ok ==> forall|row: Row| #[trigger] holds(r->Ok_0, row) == prop_passes(*md.dictionaries, ctx.project_id, tbl@, found(**md, ctx.project_id, *property)->0, *operation, values, row),
//@end
//@fn src/query/src/expr.rs property_col | ret=r block vis=keep
//@contract
    requires known(**md, *property),
    ensures r is Ok <==> found(**md, ctx.project_id, *property) is Some,
        r is Ok ==> forall|row: Row| #[trigger] value(r->Ok_0, row) == cell(row, column_of(found(**md, ctx.project_id, *property)->0)),
//@end
//@fn src/query/src/expr.rs breakdown_expr | ret=r block vis=keep
//@contract
    requires known(**metadata, breakdown->Property_0),
    ensures r is Ok <==> found(**metadata, ctx.project_id, breakdown->Property_0) is Some,
        r is Ok ==> forall|row: Row| #[trigger] value(r->Ok_0, row) == cell(row, column_of(found(**metadata, ctx.project_id, breakdown->Property_0)->0)),
//@end
//@fn src/query/src/expr.rs event_filters_expression | ret=r block vis=keep
//@rule filters . iter ( ) . map ( | $k | { $$e } ) . collect :: < Result < Vec < Expr > > > ( ) ? =>> { let all_ = filters; let mut out_: Vec<Expr> = Vec::new(); for $k in it: all_ invariant it.seq().len() == all_@.len(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] *it.seq()[i] == all_@[i], out_@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> filter_ok(**metadata, ctx.project_id, #[trigger] all_@[i]), forall|row: Row, i: int| 0 <= i < it.index@ ==> #[trigger] each(out_@, row)[i] == filter_passes(**metadata, ctx.project_id, all_@[i], row), { let ghost old_ = out_@; let ghost at_ = it.index@; proof { assert(*it.seq()[at_] == all_@[at_]); assert(known(**metadata, all_@[at_]->property)); } let one_: Result<Expr> = { $$e }; out_.push(one_?); proof { assert forall|row: Row, i: int| 0 <= i < at_ + 1 implies #[trigger] each(out_@, row)[i] == filter_passes(**metadata, ctx.project_id, all_@[i], row) by { if i < at_ { assert(out_@[i] == old_[i]); assert(each(old_, row)[i] == each(out_@, row)[i]); } else { assert(each(out_@, row)[i] == holds(out_@[i], row)); } } } } proof { assert forall|row: Row| #[trigger] all_pass(**metadata, ctx.project_id, filters@, row) == all3(each(out_@, row)) && each(out_@, row).len() == out_@.len() && (out_@.len() > 0 ==> each(out_@, row)[0] == holds(out_@[0], row)) by { assert(each(out_@, row) =~= all_@.map_values(|f: PropValueFilter| filter_passes(**metadata, ctx.project_id, f, row))); } } out_ }
//@contract
    requires filters_known(**metadata, filters@),
    ensures r is Ok <==> filters_ok(**metadata, ctx.project_id, filters@),
        r is Ok ==> forall|row: Row| #[trigger] holds(r->Ok_0, row) == all_pass(**metadata, ctx.project_id, filters@, row),
//@start
    proof { assert forall|s: Seq<Option<bool>>| s.len() == 1 implies #[trigger] all3(s) == s[0] by { assert(s.contains(s[0])); assert forall|x: Option<bool>| #[trigger] s.contains(x) implies x == s[0] by { } } }
//@end
//@fn src/query/src/expr.rs event_expression | ret=r block vis=keep attr="#[verifier::exec_allows_no_decreases_clause]"
//@contract
    requires stored_well(**metadata, ctx.project_id),
    ensures r is Ok <==> event_ok(**metadata, ctx.project_id, *event),
        r is Ok ==> forall|row: Row| #[trigger] holds(r->Ok_0, row) == event_is(**metadata, ctx.project_id, *event, row),
//@loop 0 iter=it
    invariant
        it.seq().len() == e.events@.len(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] *it.seq()[i] == e.events@[i],
        exprs@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> part_ok(**metadata, ctx.project_id, #[trigger] e.events@[i]),
        forall|row: Row, i: int| 0 <= i < it.index@ ==> #[trigger] each(exprs@, row)[i] == part_is(**metadata, ctx.project_id, e.events@[i], row),
//@loopstart 0
    let ghost old_ = exprs@; let ghost at_ = it.index@;
    proof { assert(*it.seq()[at_] == e.events@[at_]); }
//@loopend 0
    ; proof { assert forall|row: Row, i: int| 0 <= i < at_ + 1 implies #[trigger] each(exprs@, row)[i] == part_is(**metadata, ctx.project_id, e.events@[i], row) by { if i < at_ { assert(exprs@[i] == old_[i]); assert(each(old_, row)[i] == each(exprs@, row)[i]); } else { assert(each(exprs@, row)[i] == holds(exprs@[i], row)); } } }
//@loop 1 iter=it
    invariant
        it.seq().len() == exprs@.len() - 1, exprs@.len() >= 1, forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] *it.seq()[i] == exprs@[i + 1],
        forall|row: Row| #[trigger] holds(final_expr, row) == any3(each(exprs@, row).take(it.index@ + 1)),
//@loopstart 1
    let ghost was = final_expr; let ghost k = it.index@ + 1;
//@loopend 1
    ; proof { assert forall|row: Row| #[trigger] holds(final_expr, row) == any3(each(exprs@, row).take(k + 1)) by { let s = each(exprs@, row); assert(holds(was, row) == any3(s.take(k))); lemma_any(s.take(k), s[k]); assert(s.take(k + 1) =~= s.take(k).push(s[k])); assert(s[k] == holds(exprs@[k], row)); } }
//@before let mut final_expr
    proof { assert forall|row: Row| true implies any3((#[trigger] each(exprs@, row)).take(1)) == holds(exprs@[0], row) by { lemma_one(exprs@, row); }
        assert forall|row: Row| true implies (#[trigger] each(exprs@, row)).take(exprs@.len() as int) =~= e.events@.map_values(|p: Part| part_is(**metadata, ctx.project_id, p, row)) by { } }
//@end
}

/// one element's filters replaced
pub fn set_filters(v: &mut Vec<EsEvent>, i: usize, fs: Option<Vec<PropValueFilter>>)
    requires i < old(v)@.len(), ensures final(v)@ == old(v)@.update(i as int, EsEvent { filters: fs, ..old(v)@[i as int] }),
{ let mut e = v[i].clone(); e.filters = fs; v.set(i, e); }
pub open spec fn named_in(md: MetadataProvider, project: u64, fs: Option<Vec<PropValueFilter>>) -> bool { forall|i: int| 0 <= i < list_of(fs).len() ==> found(md, project, (#[trigger] list_of(fs)[i])->property) is Some }
pub open spec fn es_fixed(md: MetadataProvider, project: u64, a: EsEvent, b: EsEvent) -> bool { b.event == a.event && b.rest == a.rest && list_fixed(md, project, a.filters, b.filters) }
pub open spec fn rec_fixed(md: MetadataProvider, project: u64, a: Event, b: Event) -> bool { b.event == a.event && list_fixed(md, project, a.filters, b.filters) }

pub fn set_exclude_filters(v: &mut Vec<Exclude>, i: usize, fs: Option<Vec<PropValueFilter>>)
    requires i < old(v)@.len(), ensures final(v)@ == old(v)@.update(i as int, Exclude { filters: fs, ..old(v)@[i as int] }),
{ let mut e = v[i].clone(); e.filters = fs; v.set(i, e); }
pub fn set_step_filters(v: &mut Vec<Step>, s: usize, i: usize, fs: Option<Vec<PropValueFilter>>)
    requires s < old(v)@.len(), i < old(v)@[s as int].events@.len(),
    ensures final(v)@.len() == old(v)@.len(), forall|k: int| 0 <= k < old(v)@.len() && k != s ==> #[trigger] final(v)@[k] == old(v)@[k],
        final(v)@[s as int].rest == old(v)@[s as int].rest, final(v)@[s as int].events@ == old(v)@[s as int].events@.update(i as int, FunnelEvent { filters: fs, ..old(v)@[s as int].events@[i as int] }),
{ let mut st = v[s].clone(); let mut e = st.events[i].clone(); e.filters = fs; st.events.set(i, e); v.set(s, st); }
pub open spec fn fev_fixed(md: MetadataProvider, project: u64, a: FunnelEvent, b: FunnelEvent) -> bool { b.event == a.event && list_fixed(md, project, a.filters, b.filters) }
pub open spec fn fevs_fixed(md: MetadataProvider, project: u64, a: Seq<FunnelEvent>, b: Seq<FunnelEvent>) -> bool { b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> fev_fixed(md, project, a[i], #[trigger] b[i]) }
pub open spec fn step_fixed(md: MetadataProvider, project: u64, a: Step, b: Step) -> bool { b.rest == a.rest && fevs_fixed(md, project, a.events@, b.events@) }
pub open spec fn ex_fixed(md: MetadataProvider, project: u64, a: Exclude, b: Exclude) -> bool { b.event == a.event && b.rest == a.rest && list_fixed(md, project, a.filters, b.filters) }
pub open spec fn step_refs(md: MetadataProvider, s: Step) -> bool { forall|i: int| 0 <= i < s.events@.len() ==> all_refs(md, (#[trigger] s.events@[i]).filters) }
pub mod rows { use super::*; use super::exprs::*; broadcast use crate::lemma_both;
//@fn src/query/src/lib.rs fix_filter | ret=r block vis=keep
//@contract
    requires known(**md, filter->property),
    ensures r is Ok <==> found(**md, project_id, filter->property) is Some, r is Ok ==> fixed(**md, project_id, *filter, r->Ok_0),
//@loop 0 iter=it
    invariant
        it.seq().len() == list_.len(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] *it.seq()[i] == list_[i],
        ev@ == list_.take(it.index@).map_values(|v: ScalarValue| fixed_value(prop.data_type, v)),
//@loopstart 0
    let ghost was = ev@; let ghost at_ = it.index@; let ghost given = *value;
    proof { assert(given == *it.seq()[at_]); }
//@loopend 0
    ; proof { assert(ev@ == was.push(fixed_value(prop.data_type, given))); assert(list_.take(at_ + 1) =~= list_.take(at_).push(given)); assert(ev@ =~= list_.take(at_ + 1).map_values(|v: ScalarValue| fixed_value(prop.data_type, v))); }
//@before for value in value
    let ghost list_ = value@; proof { assert(list_.take(0) =~= Seq::<ScalarValue>::empty()); assert(list_.take(list_.len() as int) =~= list_); assert(ev@ =~= list_.take(0).map_values(|v: ScalarValue| fixed_value(prop.data_type, v))); }
//@end
impl LogicalPlanBuilder {
//@fn src/query/src/event_segmentation.rs LogicalPlanBuilder::build_filter_logical_plan | ret=r block vis=keep
//@rule event : & Event =>> event: &EsEvent
//@contract
    requires stored_well(*self.metadata, self.ctx.project_id), timely(self.es.time, self.ctx.cur_time), some_known(*self.metadata, event.filters), some_known(*self.metadata, self.es.filters),
    ensures r is Ok ==> forall|row: Row| #[trigger] keeps(r->Ok_0, row) <==> keeps(input, row) && of_project(self.ctx.project_id, COLUMN_PROJECT_ID@, row) && in_time(type_in(schema_of(input), COLUMN_CREATED_AT@), COLUMN_CREATED_AT@, range_of(self.es.time, self.ctx.cur_time), row)
        && event_met(*self.metadata, self.ctx.project_id, event.event, event.filters, row) && all_met(*self.metadata, self.ctx.project_id, self.es.filters, row),
//@start
    proof { assert forall|row: Row, fs: Option<Vec<PropValueFilter>>| fs is Some implies (#[trigger] all_met(*self.metadata, self.ctx.project_id, fs, row) <==> all_pass(*self.metadata, self.ctx.project_id, fs->0@, row) == Some(true)) by { lemma_met(*self.metadata, self.ctx.project_id, row); } }
//@end
}

//@fn src/query/src/funnel.rs build | name=funnel_rows ret=r block vis=keep anyloops
//@rule let ( from , to ) = req . time . range ( ctx . cur_time ) ; $$t Ok ( input ) =>> Ok(input)
//@contract
    requires stored_well(*metadata, ctx.project_id), timely(req.time, ctx.cur_time), some_known(*metadata, req.filters),
    ensures r is Ok ==> forall|row: Row| #[trigger] keeps(r->Ok_0, row) <==> keeps(input, row) && of_project(ctx.project_id, COLUMN_PROJECT_ID@, row) && in_time(type_in(schema_of(input), COLUMN_CREATED_AT@), COLUMN_CREATED_AT@, range_of(req.time, ctx.cur_time), row)
        && all_met(*metadata, ctx.project_id, req.filters, row),
//@start
    proof { assert forall|row: Row, fs: Option<Vec<PropValueFilter>>| fs is Some implies (#[trigger] all_met(*metadata, ctx.project_id, fs, row) <==> all_pass(*metadata, ctx.project_id, fs->0@, row) == Some(true)) by { lemma_met(*metadata, ctx.project_id, row); } }
//@end
//@fn src/query/src/group_records.rs build_search_plan | name=group_rows ret=r block vis=keep anyloops
//@rule let mut properties = vec ! [ ] ; let mut exprs = vec ! [ ] ; if let Some ( props ) = & req . properties { $$h } ; =>> let mut properties: Vec<Property> = Vec::new();
//@rule LogicalPlan :: Filter ( $F :: try_new ( $$c ) ? ) ; $$t Ok ( ( input , properties ) ) =>> filter_plan($$c)?; Ok((input, properties))
//@contract
    requires timely_opt(req.time, ctx.cur_time), some_known(*metadata, req.filters),
    ensures r is Ok ==> forall|row: Row| #[trigger] keeps(r->Ok_0.0, row) <==> keeps(input, row) && of_project(ctx.project_id, GROUP_COLUMN_PROJECT_ID@, row) && (req.time is Some ==> in_time(type_in(schema_of(input), GROUP_COLUMN_CREATED_AT@), GROUP_COLUMN_CREATED_AT@, range_of(req.time->0, ctx.cur_time), row))
        && all_met(*metadata, ctx.project_id, req.filters, row),
//@before let input = LogicalPlan :: Filter
    let ghost fe_ = filter_exprs@; let ghost kind_ = type_in(schema_of(input), GROUP_COLUMN_CREATED_AT@);
    proof { assert forall|row: Row| true implies ((all3(#[trigger] each(fe_, row)) == Some(true)) <==> of_project(ctx.project_id, GROUP_COLUMN_PROJECT_ID@, row) && (req.time is Some ==> in_time(kind_, GROUP_COLUMN_CREATED_AT@, range_of(req.time->0, ctx.cur_time), row)) && all_met(*metadata, ctx.project_id, req.filters, row)) by {
        let s = each(fe_, row); lemma_every(s); lemma_met(*metadata, ctx.project_id, row); assert(s[0] == holds(fe_[0], row)); if s.len() > 1 { assert(s[1] == holds(fe_[1], row)); } if s.len() > 2 { assert(s[2] == holds(fe_[2], row)); } } }
//@end
//@fn src/query/src/event_records.rs build_search_plan | name=event_rows ret=r block vis=keep anyloops
//@rule let mut properties = vec ! [ ] ; let mut exprs = vec ! [ ] ; if let Some ( props ) = & req . properties { $$h } ; =>> let mut properties: Vec<Property> = Vec::new();
//@rule LogicalPlan :: Filter ( $F :: try_new ( $$c ) ? ) ; $$t Ok ( ( input , properties ) ) =>> filter_plan($$c)?; Ok((input, properties))
//@rule if let Some ( $e ) = & $~r && ! $f . is_empty ( ) { $$b } =>> if let Some($e) = &$r { if !$f.is_empty() { $$b } }
//@contract
    requires stored_well(*metadata, ctx.project_id), timely(req.time, ctx.cur_time), nonempty_known(*metadata, req.filters), req.events is Some ==> forall|i: int| 0 <= i < req.events->0@.len() ==> nonempty_known(*metadata, (#[trigger] req.events->0@[i]).filters),
    ensures r is Ok ==> forall|row: Row| #[trigger] keeps(r->Ok_0.0, row) <==> keeps(input, row) && of_project(ctx.project_id, COLUMN_PROJECT_ID@, row) && in_time(type_in(schema_of(input), COLUMN_CREATED_AT@), COLUMN_CREATED_AT@, range_of(req.time, ctx.cur_time), row)
        && all_met(*metadata, ctx.project_id, req.filters, row) && (req.events is Some && req.events->0@.len() > 0 ==> one_met(*metadata, ctx.project_id, req.events->0@, row)),
//@before let input = LogicalPlan :: Filter
    let ghost fe_ = filter_exprs@; let ghost kind_ = type_in(schema_of(input), COLUMN_CREATED_AT@);
    proof { assert forall|row: Row| true implies ((all3(#[trigger] each(fe_, row)) == Some(true)) <==> of_project(ctx.project_id, COLUMN_PROJECT_ID@, row) && in_time(kind_, COLUMN_CREATED_AT@, range_of(req.time, ctx.cur_time), row) && all_met(*metadata, ctx.project_id, req.filters, row) && (req.events is Some && req.events->0@.len() > 0 ==> one_met(*metadata, ctx.project_id, req.events->0@, row))) by {
        let s = each(fe_, row); lemma_every(s); lemma_met(*metadata, ctx.project_id, row); assert(s[0] == holds(fe_[0], row)); assert(s[1] == holds(fe_[1], row)); if s.len() > 2 { assert(s[2] == holds(fe_[2], row)); } if s.len() > 3 { assert(s[3] == holds(fe_[3], row)); } } }
//@before filter_exprs . push ( multi_or ( exprs ) )
    proof { assert forall|row: Row| true implies ((any3(#[trigger] each(exprs@, row)) == Some(true)) <==> one_met(*metadata, ctx.project_id, events@, row)) by {
        let s = each(exprs@, row); lemma_some(s); if any3(s) == Some(true) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == Some(true); assert(holds(exprs@[i], row) == Some(true)); assert(event_met(*metadata, ctx.project_id, events@[i].event, events@[i].filters, row)); }
        if one_met(*metadata, ctx.project_id, events@, row) { let i = choose|i: int| 0 <= i < events@.len() && event_met(*metadata, ctx.project_id, (#[trigger] events@[i]).event, events@[i].filters, row); assert(holds(exprs@[i], row) == Some(true)); assert(s[i] == Some(true)); } } }
//@loop 1 iter=it
    invariant it.seq().len() == events@.len(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] *it.seq()[i] == events@[i], exprs@.len() == it.index@,
        forall|row: Row, i: int| 0 <= i < it.index@ ==> ((#[trigger] holds(exprs@[i], row) == Some(true)) <==> event_met(*metadata, ctx.project_id, events@[i].event, events@[i].filters, row)),
//@loopstart 1
    let ghost was = exprs@; let ghost at_ = it.index@; proof { assert(*event == events@[at_]); assert(*it.seq()[at_] == events@[at_]); }
    proof { assert forall|row: Row, fs: Option<Vec<PropValueFilter>>| fs is Some implies (#[trigger] all_met(*metadata, ctx.project_id, fs, row) <==> all_pass(*metadata, ctx.project_id, fs->0@, row) == Some(true)) by { lemma_met(*metadata, ctx.project_id, row); } }
//@loopend 1
    ; proof { assert forall|row: Row, i: int| 0 <= i < at_ + 1 implies ((#[trigger] holds(exprs@[i], row) == Some(true)) <==> event_met(*metadata, ctx.project_id, events@[i].event, events@[i].filters, row)) by { if i < at_ { assert(exprs@[i] == was[i]); } else { assert(holds(exprs@[at_], row) == Some(true) <==> event_is(*metadata, ctx.project_id, events@[at_].event, row) == Some(true) && all_met(*metadata, ctx.project_id, events@[at_].filters, row)); } } }
//@end
//@fn src/query/src/properties.rs LogicalPlanBuilder::build | name=value_rows ret=r block vis=keep anyloops
//@rule let input = LogicalPlan :: Sort $$t Ok ( input ) =>> Ok(input)
//@contract
    requires stored_well(*metadata, ctx.project_id), known(*metadata, req.property),
    ensures r is Ok ==> found(*metadata, ctx.project_id, req.property) is Some && exists|inner: LogicalPlan| (forall|row: Row| #[trigger] keeps(inner, row) <==> keeps(input, row) && of_project(ctx.project_id, COLUMN_PROJECT_ID@, row) && (req.event is Some ==> event_is(*metadata, ctx.project_id, req.event->0, row) == Some(true)))
        && (forall|row: Row| #[trigger] keeps(r->Ok_0, row) <==> keeps(#[trigger] distinct(inner, column_of(found(*metadata, ctx.project_id, req.property)->0)), row)
            && (req.filter is Some ==> passes(req.filter->0.operation, cell(row, column_of(found(*metadata, ctx.project_id, req.property)->0)), listed(req.filter->0.value)) == Some(true))),
//@before let ( input , col_name )
    let ghost inner_ = input; proof { assert(forall|row: Row| #[trigger] keeps(inner_, row) <==> keeps(input0_, row) && of_project(ctx.project_id, COLUMN_PROJECT_ID@, row) && (req.event is Some ==> event_is(*metadata, ctx.project_id, req.event->0, row) == Some(true))); }
//@before let input = LogicalPlan :: Sort
    proof { assert(forall|row: Row| #[trigger] keeps(input, row) <==> keeps(distinct(inner_, column_of(found(*metadata, ctx.project_id, req.property)->0)), row)
            && (req.filter is Some ==> passes(req.filter->0.operation, cell(row, column_of(found(*metadata, ctx.project_id, req.property)->0)), listed(req.filter->0.value)) == Some(true))); }
//@start
    let ghost input0_ = input;
//@end

//@fn src/query/src/event_segmentation.rs fix_request | name=fix_segmentation ret=r block vis=keep
//@contract
    requires forall|i: int| 0 <= i < req.events@.len() ==> all_refs(**md, (#[trigger] req.events@[i]).filters), all_refs(**md, req.filters),
    ensures r is Ok ==> r->Ok_0.time == req.time && r->Ok_0.rest == req.rest && list_fixed(**md, project_id, req.filters, r->Ok_0.filters) && r->Ok_0.events@.len() == req.events@.len() && forall|i: int| 0 <= i < req.events@.len() ==> es_fixed(**md, project_id, req.events@[i], #[trigger] r->Ok_0.events@[i]),
        (forall|i: int| 0 <= i < req.events@.len() ==> named_in(**md, project_id, (#[trigger] req.events@[i]).filters)) && named_in(**md, project_id, req.filters) ==> r is Ok,
//@loop 0 iter=it0
    invariant it0.seq().len() == req.events@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i]).0 == i && *it0.seq()[i].1 == req.events@[i],
        out.events@.len() == req.events@.len(), out.time == req.time, out.rest == req.rest, out.filters == req.filters,
        forall|i: int| 0 <= i < it0.index@ ==> es_fixed(**md, project_id, req.events@[i], #[trigger] out.events@[i]), forall|i: int| it0.index@ <= i < req.events@.len() ==> #[trigger] out.events@[i] == req.events@[i],
//@loopstart 0
    let ghost was_ = out; let ghost at_ = it0.index@; proof { assert(event_id == it0.seq()[at_].0 && *event == *it0.seq()[at_].1); assert(list_of(event.filters).len() == 0 ==> list_fixed(**md, project_id, event.filters, None)); }
//@loopend 0
    proof { assert(es_fixed(**md, project_id, req.events@[at_], out.events@[at_])); assert forall|i: int| 0 <= i < at_ + 1 implies es_fixed(**md, project_id, req.events@[i], #[trigger] out.events@[i]) by { if i < at_ { assert(out.events@[i] == was_.events@[i]); } } }
//@loop 1 iter=it1
    invariant it1.seq().len() == filters@.len(), forall|i: int| 0 <= i < it1.seq().len() ==> #[trigger] *it1.seq()[i] == filters@[i], filters_out@.len() == it1.index@, forall|i: int| 0 <= i < it1.index@ ==> fixed(**md, project_id, filters@[i], #[trigger] filters_out@[i]),
//@loopstart 1
    proof { assert(*it1.seq()[it1.index@] == filters@[it1.index@]); }
//@loop 2 iter=it2
    invariant it2.seq().len() == filters@.len(), forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] *it2.seq()[i] == filters@[i], filters_out@.len() == it2.index@, forall|i: int| 0 <= i < it2.index@ ==> fixed(**md, project_id, filters@[i], #[trigger] filters_out@[i]),
//@loopstart 2
    proof { assert(*it2.seq()[it2.index@] == filters@[it2.index@]); }
//@end
//@fn src/query/src/event_records.rs fix_search_request | name=fix_records ret=r block vis=keep
//@rule event : event . event . clone ( ) =>> event: event.event.clone()
//@contract
    requires req.events is Some ==> forall|i: int| 0 <= i < req.events->0@.len() ==> all_refs(**md, (#[trigger] req.events->0@[i]).filters), all_refs(**md, req.filters),
    ensures r is Ok ==> r->Ok_0.time == req.time && list_fixed(**md, project_id, req.filters, r->Ok_0.filters) && (r->Ok_0.events is Some <==> req.events is Some) && (req.events is Some ==> r->Ok_0.events->0@.len() == req.events->0@.len() && forall|i: int| 0 <= i < req.events->0@.len() ==> rec_fixed(**md, project_id, req.events->0@[i], #[trigger] r->Ok_0.events->0@[i])),
        (req.events is Some ==> forall|i: int| 0 <= i < req.events->0@.len() ==> named_in(**md, project_id, (#[trigger] req.events->0@[i]).filters)) && named_in(**md, project_id, req.filters) ==> r is Ok,
//@loop 0 iter=it0
    invariant it0.seq().len() == events@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> #[trigger] *it0.seq()[i] == events@[i], oe@.len() == it0.index@, forall|i: int| 0 <= i < it0.index@ ==> rec_fixed(**md, project_id, events@[i], #[trigger] oe@[i]),
//@loopstart 0
    let ghost at_ = it0.index@; let ghost was_ = oe@;
    proof { assert(*it0.seq()[it0.index@] == events@[it0.index@]); }
//@loopend 0
    proof { assert(rec_fixed(**md, project_id, events@[at_], oe@[at_])); assert forall|i: int| 0 <= i < at_ + 1 implies rec_fixed(**md, project_id, events@[i], #[trigger] oe@[i]) by { if i < at_ { assert(oe@[i] == was_[i]); } } }
//@loop 1 iter=it1
    invariant it1.seq().len() == filters@.len(), forall|i: int| 0 <= i < it1.seq().len() ==> #[trigger] *it1.seq()[i] == filters@[i], of@.len() == it1.index@, forall|i: int| 0 <= i < it1.index@ ==> fixed(**md, project_id, filters@[i], #[trigger] of@[i]),
//@loopstart 1
    proof { assert(*it1.seq()[it1.index@] == filters@[it1.index@]); }
//@loop 2 iter=it2
    invariant it2.seq().len() == filters@.len(), forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] *it2.seq()[i] == filters@[i], filters_out@.len() == it2.index@, forall|i: int| 0 <= i < it2.index@ ==> fixed(**md, project_id, filters@[i], #[trigger] filters_out@[i]),
//@loopstart 2
    proof { assert(*it2.seq()[it2.index@] == filters@[it2.index@]); }
//@end
//@fn src/query/src/group_records.rs fix_search_request | name=fix_groups ret=r block vis=keep
//@contract
    requires all_refs(**md, req.filters),
    ensures r is Ok ==> r->Ok_0.time == req.time && r->Ok_0.group_id == req.group_id && r->Ok_0.sort == req.sort && list_fixed(**md, project_id, req.filters, r->Ok_0.filters),
        named_in(**md, project_id, req.filters) ==> r is Ok,
//@loop 0 iter=it0
    invariant it0.seq().len() == filters@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> #[trigger] *it0.seq()[i] == filters@[i], of@.len() == it0.index@, forall|i: int| 0 <= i < it0.index@ ==> fixed(**md, project_id, filters@[i], #[trigger] of@[i]),
//@loopstart 0
    proof { assert(*it0.seq()[it0.index@] == filters@[it0.index@]); }
//@loop 1 iter=it1
    invariant it1.seq().len() == filters@.len(), forall|i: int| 0 <= i < it1.seq().len() ==> #[trigger] *it1.seq()[i] == filters@[i], filters_out@.len() == it1.index@, forall|i: int| 0 <= i < it1.index@ ==> fixed(**md, project_id, filters@[i], #[trigger] filters_out@[i]),
//@loopstart 1
    proof { assert(*it1.seq()[it1.index@] == filters@[it1.index@]); }
//@end

//@fn src/query/src/funnel.rs fix_request | name=fix_funnel ret=r block vis=keep
//@rule if let Some ( $e ) = & $~r && $f . is_empty ( ) { $$b } =>> if let Some($e) = &$r { if $f.is_empty() { $$b } }
//@contract
    requires forall|i: int| 0 <= i < req.steps@.len() ==> step_refs(**md, #[trigger] req.steps@[i]), req.exclude is Some ==> forall|i: int| 0 <= i < req.exclude->0@.len() ==> all_refs(**md, (#[trigger] req.exclude->0@[i]).filters), all_refs(**md, req.filters),
    ensures r is Ok ==> r->Ok_0.time == req.time && r->Ok_0.rest == req.rest && list_fixed(**md, project_id, req.filters, r->Ok_0.filters) && r->Ok_0.steps@.len() == req.steps@.len() && (forall|i: int| 0 <= i < req.steps@.len() ==> step_fixed(**md, project_id, req.steps@[i], #[trigger] r->Ok_0.steps@[i]))
        && (if req.exclude is Some && req.exclude->0@.len() > 0 { r->Ok_0.exclude is Some && r->Ok_0.exclude->0@.len() == req.exclude->0@.len() && forall|i: int| 0 <= i < req.exclude->0@.len() ==> ex_fixed(**md, project_id, req.exclude->0@[i], #[trigger] r->Ok_0.exclude->0@[i]) } else { r->Ok_0.exclude is None })
        && (if req.breakdowns is Some && req.breakdowns->0@.len() > 0 { r->Ok_0.breakdowns == req.breakdowns } else { r->Ok_0.breakdowns is None }) && (if req.holding_constants is Some && req.holding_constants->0@.len() > 0 { r->Ok_0.holding_constants == req.holding_constants } else { r->Ok_0.holding_constants is None }),
//@loop 0 iter=it0
    invariant it0.seq().len() == req.steps@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i]).0 == i && *it0.seq()[i].1 == req.steps@[i],
        out.steps@.len() == req.steps@.len(), out.time == req.time, out.rest == req.rest, out.filters == req.filters, out.exclude == req.exclude, out.breakdowns == req.breakdowns, out.holding_constants == req.holding_constants,
        forall|i: int| 0 <= i < it0.index@ ==> step_fixed(**md, project_id, req.steps@[i], #[trigger] out.steps@[i]), forall|i: int| it0.index@ <= i < req.steps@.len() ==> #[trigger] out.steps@[i] == req.steps@[i],
//@loopstart 0
    let ghost was0_ = out; let ghost at0_ = it0.index@; proof { assert(step_id == it0.seq()[at0_].0 && *step == *it0.seq()[at0_].1); assert(step_refs(**md, req.steps@[at0_])); }
//@loopend 0
    proof { assert(fevs_fixed(**md, project_id, req.steps@[at0_].events@, out.steps@[at0_].events@)); assert(step_fixed(**md, project_id, req.steps@[at0_], out.steps@[at0_])); assert forall|i: int| 0 <= i < at0_ + 1 implies step_fixed(**md, project_id, req.steps@[i], #[trigger] out.steps@[i]) by { if i < at0_ { assert(out.steps@[i] == was0_.steps@[i]); } }
        assert forall|i: int| at0_ + 1 <= i < req.steps@.len() implies #[trigger] out.steps@[i] == req.steps@[i] by { assert(out.steps@[i] == was0_.steps@[i]); } }
//@loop 1 iter=it1
    invariant it1.seq().len() == step.events@.len(), forall|i: int| 0 <= i < it1.seq().len() ==> (#[trigger] it1.seq()[i]).0 == i && *it1.seq()[i].1 == step.events@[i],
        out.steps@.len() == req.steps@.len(), out.time == req.time, out.rest == req.rest, out.filters == req.filters, out.exclude == req.exclude, out.breakdowns == req.breakdowns, out.holding_constants == req.holding_constants,
        forall|i: int| 0 <= i < req.steps@.len() && i != at0_ ==> #[trigger] out.steps@[i] == was0_.steps@[i], out.steps@[at0_].rest == step.rest, out.steps@[at0_].events@.len() == step.events@.len(),
        forall|i: int| 0 <= i < it1.index@ ==> fev_fixed(**md, project_id, step.events@[i], #[trigger] out.steps@[at0_].events@[i]), forall|i: int| it1.index@ <= i < step.events@.len() ==> #[trigger] out.steps@[at0_].events@[i] == step.events@[i],
//@loopstart 1
    let ghost was_ = out; let ghost at_ = it1.index@; proof { assert(event_id == it1.seq()[at_].0 && *event == *it1.seq()[at_].1); assert(list_of(event.filters).len() == 0 ==> list_fixed(**md, project_id, event.filters, None)); }
//@loopend 1
    proof { assert(fev_fixed(**md, project_id, step.events@[at_], out.steps@[at0_].events@[at_])); assert forall|i: int| 0 <= i < at_ + 1 implies fev_fixed(**md, project_id, step.events@[i], #[trigger] out.steps@[at0_].events@[i]) by { if i < at_ { assert(out.steps@[at0_].events@[i] == was_.steps@[at0_].events@[i]); } } }
//@loop 2 iter=it2
    invariant it2.seq().len() == filters@.len(), forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] *it2.seq()[i] == filters@[i], of@.len() == it2.index@, forall|i: int| 0 <= i < it2.index@ ==> fixed(**md, project_id, filters@[i], #[trigger] of@[i]),
//@loopstart 2
    proof { assert(*it2.seq()[it2.index@] == filters@[it2.index@]); }
//@loop 3 iter=it3
    invariant it3.seq().len() == all_@.len(), forall|i: int| 0 <= i < it3.seq().len() ==> (#[trigger] it3.seq()[i]).0 == i && *it3.seq()[i].1 == all_@[i],
        out_exclude@.len() == all_@.len(), forall|i: int| 0 <= i < it3.index@ ==> ex_fixed(**md, project_id, all_@[i], #[trigger] out_exclude@[i]), forall|i: int| it3.index@ <= i < all_@.len() ==> #[trigger] out_exclude@[i] == all_@[i],
//@loopstart 3
    let ghost was_ = out_exclude@; let ghost at_ = it3.index@; let ghost one_ = *exclude; proof { assert(exclude_id == it3.seq()[at_].0 && *exclude == *it3.seq()[at_].1); assert(list_of(exclude.filters).len() == 0 ==> list_fixed(**md, project_id, exclude.filters, None)); }
//@loopend 3
    proof { assert(ex_fixed(**md, project_id, all_@[at_], out_exclude@[at_])); assert forall|i: int| 0 <= i < at_ + 1 implies ex_fixed(**md, project_id, all_@[i], #[trigger] out_exclude@[i]) by { if i < at_ { assert(out_exclude@[i] == was_[i]); } } }
//@loop 4 iter=it4
    invariant it4.seq().len() == filters@.len(), forall|i: int| 0 <= i < it4.seq().len() ==> #[trigger] *it4.seq()[i] == filters@[i], of@.len() == it4.index@, forall|i: int| 0 <= i < it4.index@ ==> fixed(**md, project_id, filters@[i], #[trigger] of@[i]),
//@loopstart 4
    proof { assert(*it4.seq()[it4.index@] == filters@[it4.index@]); }
//@before let mut out_exclude
    let ghost all_ = *exclude;
//@loop 5 iter=it5
    invariant it5.seq().len() == filters@.len(), forall|i: int| 0 <= i < it5.seq().len() ==> #[trigger] *it5.seq()[i] == filters@[i], of@.len() == it5.index@, forall|i: int| 0 <= i < it5.index@ ==> fixed(**md, project_id, filters@[i], #[trigger] of@[i]),
//@loopstart 5
    proof { assert(*it5.seq()[it5.index@] == filters@[it5.index@]); }
//@end
}
} // verus!
fn main() {}
