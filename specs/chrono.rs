// chrono as the code sees it: an instant is a day number (0 = 1970-01-01), a second of the day and a nanosecond.
// year/month0/day0 of a day number stay uninterpreted; the contracts below are chrono's documented field semantics.
#[derive(Clone, Copy)] pub struct Utc;
#[derive(Clone, Copy)] pub struct DateTime<T> { pub day: i64, pub h: u32, pub m: u32, pub s: u32, pub nano: u32, pub tz: T }
pub uninterp spec fn year(day: int) -> int;
pub uninterp spec fn month0(day: int) -> int;
pub uninterp spec fn day0(day: int) -> int;
pub open spec fn weekday0(day: int) -> int { (day + 3) % 7 }   // Monday = 0; 1970-01-01 was a Thursday
pub open spec fn wf(d: DateTime<Utc>) -> bool { -90_000_000 < d.day < 90_000_000 && d.h < 24 && d.m < 60 && d.s < 60 && d.nano < 1_000_000_000 }
pub open spec fn nanos(d: DateTime<Utc>) -> int { (d.day * 86400 + d.h * 3600 + d.m * 60 + d.s) * 1_000_000_000 + d.nano }
//@item reg:chrono-0.4.39/src/weekday.rs Weekday | vis=keep derive="Clone, Copy"
pub open spec fn wd0(w: Weekday) -> int { match w { Weekday::Mon => 0, Weekday::Tue => 1, Weekday::Wed => 2, Weekday::Thu => 3, Weekday::Fri => 4, Weekday::Sat => 5, Weekday::Sun => 6 } }
#[derive(Clone, Copy)] pub struct Duration { pub secs: i64, pub ns: i32 }
impl Duration { pub open spec fn nanos(self) -> int { self.secs * 1_000_000_000 + self.ns } }
pub open spec fn in_ms_range(s: int) -> bool { -9_223_372_036_854_775 <= s <= 9_223_372_036_854_775 }
impl Duration {
    #[verifier::external_body] pub fn seconds(n: i64) -> (r: Duration) requires in_ms_range(n as int) ensures r.secs == n, r.ns == 0 { unimplemented!() }
    #[verifier::external_body] pub fn hours(n: i64) -> (r: Duration) requires in_ms_range(n * 3600) ensures r.secs == n * 3600, r.ns == 0 { unimplemented!() }
    #[verifier::external_body] pub fn days(n: i64) -> (r: Duration) requires in_ms_range(n * 86400) ensures r.secs == n * 86400, r.ns == 0 { unimplemented!() }
    #[verifier::external_body] pub fn weeks(n: i64) -> (r: Duration) requires in_ms_range(n * 604800) ensures r.secs == n * 604800, r.ns == 0 { unimplemented!() }
    #[verifier::external_body] pub fn minutes(n: i64) -> (r: Duration) requires in_ms_range(n * 60) ensures r.secs == n * 60, r.ns == 0 { unimplemented!() }
    #[verifier::external_body] pub fn num_milliseconds(&self) -> (r: i64) ensures self.ns == 0 && in_ms_range(self.secs as int) ==> r == self.secs * 1000 { unimplemented!() }
}
impl DateTime<Utc> {
    #[verifier::external_body] pub fn with_nanosecond(&self, n: u32) -> (r: Option<DateTime<Utc>>) requires wf(*self) ensures n < 1_000_000_000 ==> r is Some && wf(r->0) && r->0.day == self.day && r->0.h == self.h && r->0.m == self.m && r->0.s == self.s && r->0.nano == n { unimplemented!() }
    #[verifier::external_body] pub fn with_second(&self, n: u32) -> (r: Option<DateTime<Utc>>) requires wf(*self) ensures n < 60 ==> r is Some && wf(r->0) && r->0.day == self.day && r->0.h == self.h && r->0.m == self.m && r->0.s == n && r->0.nano == self.nano { unimplemented!() }
    #[verifier::external_body] pub fn with_minute(&self, n: u32) -> (r: Option<DateTime<Utc>>) requires wf(*self) ensures n < 60 ==> r is Some && wf(r->0) && r->0.day == self.day && r->0.h == self.h && r->0.m == n && r->0.s == self.s && r->0.nano == self.nano { unimplemented!() }
    #[verifier::external_body] pub fn with_hour(&self, n: u32) -> (r: Option<DateTime<Utc>>) requires wf(*self) ensures n < 24 ==> r is Some && wf(r->0) && r->0.day == self.day && r->0.h == n && r->0.m == self.m && r->0.s == self.s && r->0.nano == self.nano { unimplemented!() }
    // the first day of every month exists
    #[verifier::external_body] pub fn with_day0(&self, n: u32) -> (r: Option<DateTime<Utc>>) requires wf(*self) ensures n == 0 ==> r is Some, r is Some ==> wf(r->0) && year(r->0.day as int) == year(self.day as int) && month0(r->0.day as int) == month0(self.day as int) && day0(r->0.day as int) == n && r->0.h == self.h && r->0.m == self.m && r->0.s == self.s && r->0.nano == self.nano { unimplemented!() }
    #[verifier::external_body] pub fn with_month0(&self, n: u32) -> (r: Option<DateTime<Utc>>) requires wf(*self) ensures n < 12 && day0(self.day as int) == 0 ==> r is Some, r is Some ==> wf(r->0) && year(r->0.day as int) == year(self.day as int) && month0(r->0.day as int) == n && day0(r->0.day as int) == day0(self.day as int) && r->0.h == self.h && r->0.m == self.m && r->0.s == self.s && r->0.nano == self.nano { unimplemented!() }
    #[verifier::external_body] pub fn weekday(&self) -> (r: Weekday) requires wf(*self) ensures wd0(r) == weekday0(self.day as int) { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<Duration> for DateTime<Utc> {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, d: Duration) -> bool { wf(self) && -7_000_000_000_000_000_000_000_000 < nanos(self) - d.nanos() < 7_000_000_000_000_000_000_000_000 }
    open spec fn sub_spec(self, d: Duration) -> DateTime<Utc> { arbitrary() }
}
impl std::ops::Sub<Duration> for DateTime<Utc> { type Output = DateTime<Utc>;
    #[verifier::external_body] fn sub(self, d: Duration) -> (r: DateTime<Utc>) ensures wf(r), nanos(r) == nanos(self) - d.nanos() { unimplemented!() } }
