// C04: a time chart has exactly one column per bucket from the one holding `from` to the one holding `to`
//@include base.rs
//@rule rule . with_end ( $$e ) . map ( | dt | $$f ) . collect ( ) =>> rule.with_end($e).format_all(|dt: DateTime<Utc>| -> (r: String) ensures r@ == stamp(dt) { $f })
use vstd::prelude::*;
verus! {
//@include chrono.rs
//@include relative.rs
//@item src/common/src/query.rs TimeIntervalUnit
//@include unitspec.rs
#[derive(Debug)] pub enum CommonError { General(String) }
type Result<T> = core::result::Result<T, CommonError>;
uninterp spec fn render(d: DateTime<Utc>, f: Seq<char>) -> Seq<char>;
spec fn stamp(d: DateTime<Utc>) -> Seq<char> { render(d, "%Y-%m-%dT%H:%M:%S"@) }
struct Naive { d: DateTime<Utc> }
struct Formatted { d: DateTime<Utc>, f: Ghost<Seq<char>> }
impl DateTime<Utc> { fn naive_utc(&self) -> (r: Naive) ensures r.d == *self { Naive { d: *self } } }
impl Naive { fn format(&self, f: &str) -> (r: Formatted) ensures r.d == self.d, r.f@ == f@ { Formatted { d: self.d, f: Ghost(f@) } } }
impl Formatted { #[verifier::external_body] fn to_string(&self) -> (r: String) ensures r@ == render(self.d, self.f@) { unimplemented!() } }
// the date_trunc contract is discharged in unit C03
uninterp spec fn start_of(u: TimeIntervalUnit, d: DateTime<Utc>) -> DateTime<Utc>;
#[verifier::external_body] fn date_trunc(u: &TimeIntervalUnit, d: DateTime<Utc>) -> (r: Result<DateTime<Utc>>) ensures r is Ok, r->Ok_0 == start_of(*u, d) { unimplemented!() }
impl TimeIntervalUnit {
//@fn src/common/src/query.rs TimeIntervalUnit::relative_duration | ret=r block
//@contract
    requires small(n as int),
    ensures r.months == n * months_of(*self), r.duration.nanos() == rel_nanos(*self, n as int),
//@end
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for DateTime<Utc> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &DateTime<Utc>) -> bool { *self == *o } }
impl PartialEq for DateTime<Utc> { #[verifier::external_body] fn eq(&self, o: &DateTime<Utc>) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for DateTime<Utc> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &DateTime<Utc>) -> Option<std::cmp::Ordering> { if nanos(*self) < nanos(*o) { Some(std::cmp::Ordering::Less) } else if nanos(*self) == nanos(*o) { Some(std::cmp::Ordering::Equal) } else { Some(std::cmp::Ordering::Greater) } } }
impl PartialOrd for DateTime<Utc> { #[verifier::external_body] fn partial_cmp(&self, o: &DateTime<Utc>) -> Option<std::cmp::Ordering> { unimplemented!() } }

spec fn nth(start: DateTime<Utc>, months: int, nanos: int, i: int) -> DateTime<Utc> { shifted(start, months * i, nanos * i) }
// chronoutil::DateRule: start, start + freq, start + 2 freq, ... strictly before end (for end >= start)
pub struct DateRule { pub start: DateTime<Utc>, pub months: i32, pub nanos: i128, pub end: Option<DateTime<Utc>> }
impl DateRule {
    spec fn at(self, i: int) -> DateTime<Utc> { nth(self.start, self.months as int, self.nanos as int, i) }
    #[verifier::external_body] fn hourly(from: DateTime<Utc>) -> (r: DateRule) ensures r.start == from, r.months == 0, r.nanos == 3600 * 1_000_000_000, r.end is None { unimplemented!() }
    #[verifier::external_body] fn daily(from: DateTime<Utc>) -> (r: DateRule) ensures r.start == from, r.months == 0, r.nanos == 86400 * 1_000_000_000, r.end is None { unimplemented!() }
    #[verifier::external_body] fn weekly(from: DateTime<Utc>) -> (r: DateRule) ensures r.start == from, r.months == 0, r.nanos == 604800 * 1_000_000_000, r.end is None { unimplemented!() }
    #[verifier::external_body] fn monthly(from: DateTime<Utc>) -> (r: DateRule) ensures r.start == from, r.months == 1, r.nanos == 0, r.end is None { unimplemented!() }
    #[verifier::external_body] fn yearly(from: DateTime<Utc>) -> (r: DateRule) ensures r.start == from, r.months == 12, r.nanos == 0, r.end is None { unimplemented!() }
    #[verifier::external_body] fn with_end(self, end: DateTime<Utc>) -> (r: DateRule) ensures r == (DateRule { end: Some(end), ..self }) { unimplemented!() }
    // `.map(f).collect()` over the rule
    #[verifier::external_body] fn format_all<F: Fn(DateTime<Utc>) -> String>(self, f: F) -> (r: Vec<String>)
        requires self.end is Some, nanos(self.end->0) >= nanos(self.start), forall|d: DateTime<Utc>| call_requires(f, (d,)),
        ensures forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (self.at(i),), #[trigger] r@[i]) && nanos(self.at(i)) < nanos(self.end->0), nanos(self.at(r@.len() as int)) >= nanos(self.end->0) { unimplemented!() }
}
// one unit later is later
#[verifier::external_body] proof fn axiom_later(d: DateTime<Utc>, m: int, ns: int) requires m >= 0, ns >= 0 ensures nanos(shifted(d, m, ns)) >= nanos(d) {}
spec fn bucket(u: TimeIntervalUnit, first: DateTime<Utc>, i: int) -> DateTime<Utc> { nth(first, months_of(u), rel_nanos(u, 1), i) }

//@fn src/common/src/query.rs time_columns | ret=r block
//@contract
    ensures ({ let a = start_of(*granularity, from); let b = start_of(*granularity, to); let end = shifted(b, months_of(*granularity), rel_nanos(*granularity, 1));
        if nanos(b) < nanos(a) { r@.len() == 0 } else {
            &&& forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == stamp(bucket(*granularity, a, i)) && nanos(bucket(*granularity, a, i)) < nanos(end)
            &&& nanos(bucket(*granularity, a, r@.len() as int)) >= nanos(end) } }),
//@before rule . with_end
    proof { axiom_later(to, months_of(*granularity), rel_nanos(*granularity, 1)); assert(rule.months == months_of(*granularity)); assert(rule.nanos == rel_nanos(*granularity, 1)); }
//@end
} // verus!
fn main() {}
