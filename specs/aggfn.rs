// the number operations an aggregate uses are its type's own: nothing is assumed of them but that they are functions
pub uninterp spec fn zero_of<T>() -> T;
pub uninterp spec fn one_of<T>() -> T;
pub uninterp spec fn top_of<T>() -> T;
pub uninterp spec fn bottom_of<T>() -> T;
pub uninterp spec fn sum_of<T>(a: T, b: T) -> T;
pub uninterp spec fn ratio_of<T>(a: T, b: T) -> T;
pub uninterp spec fn less<T>(a: T, b: T) -> bool;
pub uninterp spec fn more<T>(a: T, b: T) -> bool;
#[verifier::external_body] pub fn zero_v<T>() -> (r: T) ensures r == zero_of::<T>() { unimplemented!() }
#[verifier::external_body] pub fn one_v<T>() -> (r: T) ensures r == one_of::<T>() { unimplemented!() }
#[verifier::external_body] pub fn max_v<T>() -> (r: T) ensures r == top_of::<T>() { unimplemented!() }
#[verifier::external_body] pub fn min_v<T>() -> (r: T) ensures r == bottom_of::<T>() { unimplemented!() }
#[verifier::external_body] pub fn sum_v<T>(a: T, b: T) -> (r: T) ensures r == sum_of(a, b) { unimplemented!() }
#[verifier::external_body] pub fn ratio_v<T>(a: T, b: T) -> (r: T) ensures r == ratio_of(a, b) { unimplemented!() }
#[verifier::external_body] pub fn less_v<T>(a: T, b: T) -> (r: bool) ensures r == less(a, b) { unimplemented!() }
#[verifier::external_body] pub fn more_v<T>(a: T, b: T) -> (r: bool) ensures r == more(a, b) { unimplemented!() }
#[verifier::external_body] pub fn cast_v<T>(a: T) -> (r: T) ensures r == a { unimplemented!() }
//@rule T : Copy + Num + Bounded + NumCast + PartialOrd + Clone + std :: fmt :: Display =>> T: Copy
//@rule OT : Copy + Num + Bounded + NumCast + PartialOrd + Clone + std :: fmt :: Display =>> OT: Copy
//@rule IT : Copy + Num + Bounded + NumCast + PartialOrd + Clone + std :: fmt :: Display =>> IT: Copy
//@rule T :: zero ( ) =>> zero_v()
//@rule T :: max_value ( ) =>> max_v()
//@rule T :: min_value ( ) =>> min_v()
//@rule * $a + T :: one ( ) =>> sum_v(*$a, one_v())
//@rule * $a + $b =>> sum_v(*$a, $b)
//@rule T :: from ( * s ) . unwrap ( ) =>> cast_v(*s)
//@item src/query/src/physical_plan/expressions/segmentation/aggregate.rs AggregateFunction | vis=keep
pub open spec fn fresh<T>(a: AggregateFunction<T>) -> AggregateFunction<T> where T: Copy { match a {
    AggregateFunction::Sum(_) => AggregateFunction::Sum(zero_of()), AggregateFunction::Min(_) => AggregateFunction::Min(top_of()), AggregateFunction::Max(_) => AggregateFunction::Max(bottom_of()),
    AggregateFunction::Avg(_, _) => AggregateFunction::Avg(zero_of(), zero_of()), AggregateFunction::Count(_) => AggregateFunction::Count(zero_of()) } }
pub open spec fn took<T>(a: AggregateFunction<T>, v: T) -> AggregateFunction<T> where T: Copy { match a {
    AggregateFunction::Sum(s) => AggregateFunction::Sum(sum_of(s, v)), AggregateFunction::Min(m) => AggregateFunction::Min(if less(v, m) { v } else { m }), AggregateFunction::Max(m) => AggregateFunction::Max(if more(v, m) { v } else { m }),
    AggregateFunction::Avg(s, c) => AggregateFunction::Avg(sum_of(s, v), sum_of(c, one_of())), AggregateFunction::Count(c) => AggregateFunction::Count(sum_of(c, one_of())) } }
pub open spec fn value_of<T>(a: AggregateFunction<T>) -> T where T: Copy { match a {
    AggregateFunction::Sum(s) => s, AggregateFunction::Min(m) => m, AggregateFunction::Max(m) => m, AggregateFunction::Avg(s, c) => ratio_of(s, c), AggregateFunction::Count(c) => c } }
/// the aggregate of a list of values: from empty, taking each in turn
pub open spec fn folded<T>(a: AggregateFunction<T>, vs: Seq<T>) -> AggregateFunction<T> where T: Copy decreases vs.len() { if vs.len() == 0 { fresh(a) } else { took(folded(a, vs.drop_last()), vs.last()) } }
pub open spec fn same_kind<T>(a: AggregateFunction<T>, b: AggregateFunction<T>) -> bool where T: Copy { fresh(a) == fresh(b) }
pub proof fn lemma_kind<T: Copy>(a: AggregateFunction<T>, vs: Seq<T>) ensures fresh(folded(a, vs)) == fresh(a), fresh(fresh(a)) == fresh(a) decreases vs.len() { if vs.len() > 0 { lemma_kind(a, vs.drop_last()); } }
pub proof fn lemma_took<T: Copy>(a: AggregateFunction<T>, vs: Seq<T>, v: T) ensures folded(a, vs.push(v)) == took(folded(a, vs), v), folded(a, Seq::<T>::empty()) == fresh(a) { assert(vs.push(v).drop_last() =~= vs); }
impl<T> AggregateFunction<T> where T: Copy {
//@fn src/query/src/physical_plan/expressions/segmentation/aggregate.rs AggregateFunction::new_sum | ret=r block vis=keep
//@contract
    ensures r == AggregateFunction::Sum(zero_of::<T>()),
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/aggregate.rs AggregateFunction::new_min | ret=r block vis=keep
//@contract
    ensures r == AggregateFunction::Min(top_of::<T>()),
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/aggregate.rs AggregateFunction::new_max | ret=r block vis=keep
//@contract
    ensures r == AggregateFunction::Max(bottom_of::<T>()),
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/aggregate.rs AggregateFunction::new_avg | ret=r block vis=keep
//@contract
    ensures r == AggregateFunction::Avg(zero_of::<T>(), zero_of::<T>()),
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/aggregate.rs AggregateFunction::new_count | ret=r block vis=keep
//@contract
    ensures r == AggregateFunction::Count(zero_of::<T>()),
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/aggregate.rs AggregateFunction::make_new | ret=r block vis=keep
//@contract
    ensures r == fresh(*self),
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/aggregate.rs AggregateFunction::accumulate | ret=r block vis=keep
//@rule * $a / * $b =>> ratio_v(*$a, *$b)
//@rule $a < * $b =>> less_v($a, *$b)
//@rule $a > * $b =>> more_v($a, *$b)
//@contract
    ensures *final(self) == took(*old(self), v), r == value_of(*final(self)),
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/aggregate.rs AggregateFunction::result | ret=r block vis=keep
//@rule * $a / * $b =>> ratio_v(*$a, *$b)
//@contract
    ensures r == value_of(*self),
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/aggregate.rs AggregateFunction::reset | block vis=keep
//@contract
    ensures *final(self) == fresh(*old(self)),
//@end
}
