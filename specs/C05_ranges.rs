// C05: query ranges and time units mean what they say
//@include base.rs
use vstd::prelude::*;
verus! {
//@include chrono.rs
//@include relative.rs
//@item src/common/src/query.rs TimeIntervalUnit
//@item src/common/src/query.rs QueryTime
//@item src/common/src/query.rs SegmentTime
//@item src/common/src/funnel.rs TimeIntervalUnitSession
//@include unitspec.rs
spec fn name_of(u: TimeIntervalUnit) -> Seq<char> { match u { TimeIntervalUnit::Hour => "hour"@, TimeIntervalUnit::Day => "day"@, TimeIntervalUnit::Week => "week"@, TimeIntervalUnit::Month => "month"@, TimeIntervalUnit::Year => "year"@ } }
spec fn plain(u: TimeIntervalUnitSession) -> Option<TimeIntervalUnit> { match u { TimeIntervalUnitSession::Hour => Some(TimeIntervalUnit::Hour), TimeIntervalUnitSession::Day => Some(TimeIntervalUnit::Day), TimeIntervalUnitSession::Week => Some(TimeIntervalUnit::Week), TimeIntervalUnitSession::Month => Some(TimeIntervalUnit::Month), TimeIntervalUnitSession::Year => Some(TimeIntervalUnit::Year), TimeIntervalUnitSession::Session => None } }

impl TimeIntervalUnit {
//@fn src/common/src/query.rs TimeIntervalUnit::duration | ret=r block
//@contract
    requires small(n as int),
    ensures r.secs == n * hours_of(*self) * 3600, r.ns == 0,
//@end
//@fn src/common/src/query.rs TimeIntervalUnit::relative_duration | ret=r block
//@contract
    requires small(n as int),
    ensures r.months == n * months_of(*self), r.duration.nanos() == rel_nanos(*self, n as int),
//@end
//@fn src/common/src/query.rs TimeIntervalUnit::as_str | ret=r block
//@contract
    ensures r@ == name_of(*self),
//@end
}
impl TimeIntervalUnitSession {
//@fn src/common/src/funnel.rs TimeIntervalUnitSession::duration | ret=r block
//@contract
    requires small(n as int), plain(*self) is Some,
    ensures r.secs == n * hours_of(plain(*self)->0) * 3600, r.ns == 0,
//@end
//@fn src/common/src/funnel.rs TimeIntervalUnitSession::relative_duration | ret=r block
//@contract
    requires small(n as int), plain(*self) is Some,
    ensures r.months == n * months_of(plain(*self)->0), r.duration.nanos() == rel_nanos(plain(*self)->0, n as int),
//@end
//@fn src/common/src/funnel.rs TimeIntervalUnitSession::as_str | ret=r block
//@contract
    ensures r@ == (match plain(*self) { Some(u) => name_of(u), None => "session"@ }),
//@end
}
impl SegmentTime {
//@fn src/common/src/query.rs SegmentTime::try_window | ret=r block
//@contract
    requires self is Each ==> small(self->Each_n as int),
    ensures self is Each ==> r is Some && r->0 == self->Each_n * hours_of(self->Each_unit) * 3600 * 1000, !(self is Each) ==> r is None,
//@end
}
impl QueryTime {
//@fn src/common/src/query.rs QueryTime::range | ret=r block
//@contract
    requires self is Last ==> small(self->last as int),
    ensures match *self { QueryTime::Between { from, to } => r == (from, to), QueryTime::From(from) => r == (from, cur_time),
        QueryTime::Last { last, unit } => r == (shifted(cur_time, -(last * months_of(unit)), -rel_nanos(unit, last as int)), cur_time) },
//@end
}
//@helpers
} // verus!
fn main() {}
