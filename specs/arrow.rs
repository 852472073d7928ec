// Arrow arrays as sequences of optional values; batches and column expressions as opaque values.  All of it is assumed:
// evaluating a column or filter expression on a batch yields an array of the type the code downcasts to, one entry per row.
pub struct QueryError { pub e: int }
pub type Result<T> = core::result::Result<T, QueryError>;
#[verifier::external_body]
pub struct RecordBatch { x: u8 }
pub uninterp spec fn rows_of(b: RecordBatch) -> nat;
impl RecordBatch {
    #[verifier::external_body]
    pub fn num_rows(&self) -> (r: usize) ensures r == rows_of(*self) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Arr<T> { x: Vec<T> }
pub uninterp spec fn view_of<T>(a: Arr<T>) -> Seq<Option<T>>;
// what a slot holds whether or not it counts as null
pub uninterp spec fn raw<T>(a: Arr<T>, i: int) -> T;
impl<T> View for Arr<T> { type V = Seq<Option<T>>; open spec fn view(&self) -> Seq<Option<T>> { view_of(*self) } }
pub broadcast axiom fn axiom_arr_len<T>(a: Arr<T>) ensures #[trigger] view_of(a).len() <= usize::MAX;
impl<T: Copy> Arr<T> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn value(&self, i: usize) -> (r: T) requires i < self@.len() ensures r == raw(*self, i as int), self@[i as int] is Some ==> r == self@[i as int]->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_null(&self, i: usize) -> (r: bool) requires i < self@.len() ensures r == (self@[i as int] is None) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_valid(&self, i: usize) -> (r: bool) requires i < self@.len() ensures r == (self@[i as int] is Some) { unimplemented!() }
    #[verifier::external_body]
    pub fn slot(&self, i: usize) -> (r: Option<T>) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
}
#[verifier::external_body]
pub fn numbered<T: Copy>(a: &Arr<T>) -> (r: Vec<(usize, Option<T>)>)
    ensures r@.len() == a@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, a@[i])
{ unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Builder<T> { x: Vec<T> }
pub uninterp spec fn built<T>(a: Builder<T>) -> Seq<Option<T>>;
impl<T> View for Builder<T> { type V = Seq<Option<T>>; open spec fn view(&self) -> Seq<Option<T>> { built(*self) } }
impl<T> Builder<T> {
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Builder<T>) ensures r@ == Seq::<Option<T>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Builder<T>) ensures r@ == Seq::<Option<T>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn append_value(&mut self, v: T) ensures final(self)@ == old(self)@.push(Some(v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn append_null(&mut self) ensures final(self)@ == old(self)@.push(None) { unimplemented!() }
    #[verifier::external_body]
    pub fn append_option(&mut self, v: Option<T>) ensures final(self)@ == old(self)@.push(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self) -> (r: Arr<T>) ensures r@ == old(self)@, final(self)@ == Seq::<Option<T>>::empty() { unimplemented!() }
}
pub type BooleanArray = Arr<bool>;
pub type Int8Array = Arr<i8>; pub type Int16Array = Arr<i16>; pub type Int32Array = Arr<i32>; pub type Int64Array = Arr<i64>;
pub type UInt8Array = Arr<u8>; pub type UInt16Array = Arr<u16>; pub type UInt32Array = Arr<u32>; pub type UInt64Array = Arr<u64>;
pub type Decimal128Array = Arr<i128>; pub type TimestampMillisecondArray = Arr<i64>;
pub type Int64Builder = Builder<i64>; pub type DecimalBuilder = Builder<i128>; pub type Decimal128Builder = Builder<i128>;
pub type Int8Builder = Builder<i8>; pub type Int16Builder = Builder<i16>; pub type Int32Builder = Builder<i32>; pub type UInt64Builder = Builder<u64>;
#[verifier::external_body]
pub struct Column { x: u8 }
#[verifier::external_body]
pub struct PhysicalExprRef { x: u8 }
pub trait Evaluated: Sized {
    spec fn id(&self) -> int;
}
pub uninterp spec fn id_c(c: Column) -> int;
pub uninterp spec fn id_e(c: PhysicalExprRef) -> int;
impl Evaluated for Column { open spec fn id(&self) -> int { id_c(*self) } }
impl Evaluated for PhysicalExprRef { open spec fn id(&self) -> int { id_e(*self) } }
/// the values an expression takes on the rows of a batch
pub uninterp spec fn values<A>(expr: int, b: RecordBatch) -> A;
pub uninterp spec fn on<T>(expr: int, b: RecordBatch) -> Seq<Option<T>>;
#[verifier::external_body]
pub fn column<T, E: Evaluated>(e: &E, b: &RecordBatch) -> (r: Result<Arr<T>>)
    ensures r is Ok ==> r->Ok_0@ == on::<T>(e.id(), *b) && r->Ok_0@.len() == rows_of(*b)
{ unimplemented!() }
