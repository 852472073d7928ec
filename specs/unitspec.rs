// what n units are: exact hours, days and weeks; calendar months and years when relative, 31-day months and 372-day years when exact
spec fn hours_of(u: TimeIntervalUnit) -> int { match u { TimeIntervalUnit::Hour => 1, TimeIntervalUnit::Day => 24, TimeIntervalUnit::Week => 168, TimeIntervalUnit::Month => 744, TimeIntervalUnit::Year => 8928 } }
spec fn months_of(u: TimeIntervalUnit) -> int { match u { TimeIntervalUnit::Month => 1, TimeIntervalUnit::Year => 12, _ => 0 } }
spec fn rel_nanos(u: TimeIntervalUnit, n: int) -> int { if months_of(u) == 0 { n * hours_of(u) * 3600 * 1_000_000_000 } else { 0 } }
spec fn small(n: int) -> bool { -178_956_970 <= n <= 178_956_970 }
