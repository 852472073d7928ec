// C03: date_trunc sends an instant to the start of its hour, day, ISO week, month or year
//@include base.rs
//@rule . and_then ( | d | d . $m ( $a ) ) =>> .and_then(|d: DateTime<Utc>| -> (r: Option<DateTime<Utc>>) requires wf(d) ensures call_ensures(DateTime::<Utc>::$m, (&d, $a), r) { d.$m($a) })
//@rule . map ( | d | d - $$e ) =>> .map(|d: DateTime<Utc>| -> (r: DateTime<Utc>) requires wf(d), -80_000_000 < d.day, midnight(d) ensures wf(r), r.day == d.day - weekday0(d.day as int), midnight(r) { proof { assert(0 <= weekday0(d.day as int) < 7); } d - $e })
use vstd::prelude::*;
verus! {
//@include chrono.rs
#[derive(Debug)] pub enum CommonError { General(String) }
type Result<T> = core::result::Result<T, CommonError>;
//@item src/common/src/query.rs TimeIntervalUnit

spec fn midnight(r: DateTime<Utc>) -> bool { r.h == 0 && r.m == 0 && r.s == 0 && r.nano == 0 }
spec fn truncated(u: TimeIntervalUnit, v: DateTime<Utc>, r: DateTime<Utc>) -> bool { match u {
    TimeIntervalUnit::Hour => r.day == v.day && r.h == v.h && r.m == 0 && r.s == 0 && r.nano == 0,
    TimeIntervalUnit::Day => r.day == v.day && midnight(r),
    TimeIntervalUnit::Week => midnight(r) && r.day <= v.day < r.day + 7 && weekday0(r.day as int) == 0,
    TimeIntervalUnit::Month => midnight(r) && year(r.day as int) == year(v.day as int) && month0(r.day as int) == month0(v.day as int) && day0(r.day as int) == 0,
    TimeIntervalUnit::Year => midnight(r) && year(r.day as int) == year(v.day as int) && month0(r.day as int) == 0 && day0(r.day as int) == 0 } }

//@fn src/common/src/query.rs date_trunc | ret=r block
//@contract
    requires wf(value), -80_000_000 < value.day < 80_000_000,
    ensures r is Ok, wf(r->Ok_0), truncated(*granularity, value, r->Ok_0),
//@end
// truncating twice changes nothing (hour, day and week; month and year because their fields are already first)
proof fn idempotent(u: TimeIntervalUnit, v: DateTime<Utc>, a: DateTime<Utc>, b: DateTime<Utc>)
    requires wf(v), wf(a), wf(b), truncated(u, v, a), truncated(u, a, b), u is Hour || u is Day || u is Week,
    ensures a.day == b.day, a.h == b.h, a.m == b.m, a.s == b.s, a.nano == b.nano,
{ }
} // verus!
fn main() {}
