// chronoutil: a relative duration is a number of calendar months and an exact duration
pub struct RelativeDuration { pub months: i32, pub duration: Duration }
impl RelativeDuration {
    #[verifier::external_body] pub fn hours(n: i64) -> (r: RelativeDuration) requires in_ms_range(n * 3600) ensures r.months == 0, r.duration.secs == n * 3600, r.duration.ns == 0 { unimplemented!() }
    #[verifier::external_body] pub fn days(n: i64) -> (r: RelativeDuration) requires in_ms_range(n * 86400) ensures r.months == 0, r.duration.secs == n * 86400, r.duration.ns == 0 { unimplemented!() }
    #[verifier::external_body] pub fn weeks(n: i64) -> (r: RelativeDuration) requires in_ms_range(n * 604800) ensures r.months == 0, r.duration.secs == n * 604800, r.duration.ns == 0 { unimplemented!() }
    #[verifier::external_body] pub fn months(n: i32) -> (r: RelativeDuration) ensures r.months == n, r.duration.secs == 0, r.duration.ns == 0 { unimplemented!() }
    #[verifier::external_body] pub fn years(n: i32) -> (r: RelativeDuration) requires -178_956_970 <= n <= 178_956_970 ensures r.months == n * 12, r.duration.secs == 0, r.duration.ns == 0 { unimplemented!() }
}
// the instant `months` calendar months and `ns` nanoseconds after d
pub uninterp spec fn shifted(d: DateTime<Utc>, months: int, ns: int) -> DateTime<Utc>;
impl vstd::std_specs::ops::SubSpecImpl<RelativeDuration> for DateTime<Utc> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, d: RelativeDuration) -> bool { true }
    open spec fn sub_spec(self, d: RelativeDuration) -> DateTime<Utc> { shifted(self, -d.months, -d.duration.nanos()) }
}
impl std::ops::Sub<RelativeDuration> for DateTime<Utc> { type Output = DateTime<Utc>;
    #[verifier::external_body] fn sub(self, d: RelativeDuration) -> DateTime<Utc> { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<RelativeDuration> for DateTime<Utc> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, d: RelativeDuration) -> bool { true }
    open spec fn add_spec(self, d: RelativeDuration) -> DateTime<Utc> { shifted(self, d.months as int, d.duration.nanos()) }
}
impl std::ops::Add<RelativeDuration> for DateTime<Utc> { type Output = DateTime<Utc>;
    #[verifier::external_body] fn add(self, d: RelativeDuration) -> DateTime<Utc> { unimplemented!() } }
