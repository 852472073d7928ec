//! Replay of the contracts of `common` against the compiled crate.
use chrono::{DateTime, Datelike, Duration, NaiveDate, TimeZone, Timelike, Utc};
use common::query::*;
use common::types::{DType, OptionalProperty};
use datafusion_common::ScalarValue;
use h_lib::{Rng, Run};
use std::cell::Cell;
use std::sync::Arc;

const DAY: i64 = 86400;
const UNITS: [TimeIntervalUnit; 5] = [TimeIntervalUnit::Hour, TimeIntervalUnit::Day, TimeIntervalUnit::Week, TimeIntervalUnit::Month, TimeIntervalUnit::Year];

// ---- an independent calendar (days from civil), used as the oracle for chrono-based code
fn days_from_civil(y: i64, m: i64, d: i64) -> i64 { let y = if m <= 2 { y - 1 } else { y }; let era = y.div_euclid(400); let yoe = y - era * 400; let mp = (m + 9) % 12; let doy = (153 * mp + 2) / 5 + d - 1; let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; era * 146097 + doe - 719468 }
fn civil_from_days(z: i64) -> (i64, i64, i64) { let z = z + 719468; let era = z.div_euclid(146097); let doe = z - era * 146097; let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; let y = yoe + era * 400; let doy = doe - (365 * yoe + yoe / 4 - yoe / 100); let mp = (5 * doy + 2) / 153; let d = doy - (153 * mp + 2) / 5 + 1; let m = if mp < 10 { mp + 3 } else { mp - 9 }; (if m <= 2 { y + 1 } else { y }, m, d) }
fn trunc(u: &TimeIntervalUnit, secs: i64) -> i64 {
    let day = secs.div_euclid(DAY);
    match u { TimeIntervalUnit::Hour => secs.div_euclid(3600) * 3600, TimeIntervalUnit::Day => day * DAY, TimeIntervalUnit::Week => (day - (day + 3).rem_euclid(7)) * DAY,
        TimeIntervalUnit::Month => { let (y, m, _) = civil_from_days(day); days_from_civil(y, m, 1) * DAY } TimeIntervalUnit::Year => { let (y, _, _) = civil_from_days(day); days_from_civil(y, 1, 1) * DAY } }
}
/// start of the bucket after the one starting at `secs`
fn next(u: &TimeIntervalUnit, secs: i64) -> i64 {
    let day = secs.div_euclid(DAY);
    match u { TimeIntervalUnit::Hour => secs + 3600, TimeIntervalUnit::Day => secs + DAY, TimeIntervalUnit::Week => secs + 7 * DAY,
        TimeIntervalUnit::Month => { let (y, m, _) = civil_from_days(day); let (y, m) = if m == 12 { (y + 1, 1) } else { (y, m + 1) }; days_from_civil(y, m, 1) * DAY } TimeIntervalUnit::Year => { let (y, _, _) = civil_from_days(day); days_from_civil(y + 1, 1, 1) * DAY } }
}
fn fmt(secs: i64) -> String { let d = secs.div_euclid(DAY); let s = secs.rem_euclid(DAY); let (y, m, dd) = civil_from_days(d); format!("{y:04}-{m:02}-{dd:02}T{:02}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60) }
fn add_months(secs: i64, n: i64) -> i64 { let day = secs.div_euclid(DAY); let s = secs.rem_euclid(DAY); let (y, m, d) = civil_from_days(day); let t = y * 12 + m - 1 + n; let (y2, m2) = (t.div_euclid(12), t.rem_euclid(12) + 1); let len = { let (y3, m3) = if m2 == 12 { (y2 + 1, 1) } else { (y2, m2 + 1) }; days_from_civil(y3, m3, 1) - days_from_civil(y2, m2, 1) }; days_from_civil(y2, m2, d.min(len)) * DAY + s }
fn instant(r: &mut Rng) -> DateTime<Utc> {
    let secs = match r.below(5) { 0 => r.range(-2_208_988_800, 4_102_444_800), 1 => r.range(-30_000_000_000, 100_000_000_000), 2 => { let y = r.range(1900, 2100); let m = r.range(1, 12); days_from_civil(y, m, 1) * DAY + *r.pick(&[-1i64, 0, 1, 3599, 3600, DAY - 1, DAY, 27 * DAY, 28 * DAY, 29 * DAY, 30 * DAY]) } 3 => r.range(1_500_000_000, 1_900_000_000), _ => r.range(-400, 400) * DAY + *r.pick(&[-1i64, 0, 1, 43200]) };
    let ns = *r.pick(&[0u32, 1, 999_999_999, 500_000_000, 123_456_789]);
    Utc.timestamp_opt(secs, ns).unwrap()
}
fn c03(r: &mut Run) {
    r.rule("date_trunc on (unit, instant): instants random and on month/year/leap/epoch borders with sub-second parts; distinct by unit and instant");
    while r.time_left() {
        let t = instant(&mut r.rng); let u = UNITS[r.rng.below(5) as usize].clone();
        let want = Utc.timestamp_opt(trunc(&u, t.timestamp()), 0).unwrap();
        r.eq("date_trunc", format!("{u:?} {t:?}"), || date_trunc(&u, t).unwrap(), want);
        let t2 = want; r.eq("date_trunc_idempotent", format!("{u:?} {t2:?}"), || date_trunc(&u, t2).unwrap(), t2);
    }
}
fn c04(r: &mut Run) {
    r.rule("time_columns on (unit, from, to): spans of up to 60 buckets and of negative length; distinct by arguments");
    while r.time_left() {
        let from = instant(&mut r.rng); let u = UNITS[r.rng.below(5) as usize].clone(); let k = r.rng.range(-2, if r.thorough { 200 } else { 60 });
        let len = match u { TimeIntervalUnit::Hour => 3600, TimeIntervalUnit::Day => DAY, TimeIntervalUnit::Week => 7 * DAY, TimeIntervalUnit::Month => 30 * DAY, TimeIntervalUnit::Year => 365 * DAY };
        let to = from + Duration::seconds(k * len + r.rng.range(-len, len));
        let (a, b) = (trunc(&u, from.timestamp()), trunc(&u, to.timestamp()));
        let mut want = vec![]; let mut c = a; while c <= b { want.push(fmt(c)); c = next(&u, c); }
        if from.year() < 1000 || to.year() > 9999 { continue; }
        r.eq("time_columns", format!("{u:?} {from:?} {to:?}"), || time_columns(from, to, &u), want);
    }
}
fn c05(r: &mut Run) {
    r.rule("durations and ranges over (unit, n, now)");
    while r.time_left() {
        let u = UNITS[r.rng.below(5) as usize].clone(); let n = match r.rng.below(3) { 0 => r.rng.range(-5, 5), 1 => r.rng.range(0, 400), _ => r.rng.range(-3000, 3000) };
        let day_ms = DAY * 1000;
        let ms = n * match u { TimeIntervalUnit::Hour => 3_600_000, TimeIntervalUnit::Day => day_ms, TimeIntervalUnit::Week => 7 * day_ms, TimeIntervalUnit::Month => 31 * day_ms, TimeIntervalUnit::Year => 372 * day_ms };
        r.eq("duration", format!("{u:?} {n}"), || u.duration(n).num_milliseconds(), ms);
        { use common::funnel::TimeIntervalUnitSession as S; let s = match u { TimeIntervalUnit::Hour => S::Hour, TimeIntervalUnit::Day => S::Day, TimeIntervalUnit::Week => S::Week, TimeIntervalUnit::Month => S::Month, TimeIntervalUnit::Year => S::Year };
          r.eq("funnel_duration", format!("{u:?} {n}"), || s.duration(n).num_milliseconds(), ms);
          let t = instant(&mut r.rng);
          let want = rel(&u, t, n); let s2 = s.clone();
          r.eq("funnel_relative_duration", format!("{u:?} {n} {t:?}"), || t + s2.relative_duration(n), want);
          let (a, b) = (s.as_str().to_string(), u.as_str().to_string()); let w = match u { TimeIntervalUnit::Hour => "hour", TimeIntervalUnit::Day => "day", TimeIntervalUnit::Week => "week", TimeIntervalUnit::Month => "month", TimeIntervalUnit::Year => "year" }.to_string();
          r.eq("as_str", format!("{u:?}"), || (a, b), (w.clone(), w)); }
        { let u2 = u.clone(); r.eq("try_window", format!("Each {u:?} {n}"), || SegmentTime::Each { n, unit: u2 }.try_window(), Some(ms)); }
        let (a, b, now) = (instant(&mut r.rng), instant(&mut r.rng), instant(&mut r.rng));
        for s in [SegmentTime::Between { from: a, to: b }, SegmentTime::From(a), SegmentTime::Last { n, unit: u.clone() }, SegmentTime::AfterFirstUse { within: n, unit: u.clone() }] { r.eq("try_window", format!("{s:?}"), || s.try_window(), None); }
        r.eq("range_between", format!("{a:?} {b:?} now {now:?}"), || QueryTime::Between { from: a, to: b }.range(now), (a, b));
        r.eq("range_from", format!("{a:?} now {now:?}"), || QueryTime::From(a).range(now), (a, now));
        let want = rel(&u, now, -n); let u2 = u.clone();
        r.eq("range_last", format!("last {n} {u:?} now {now:?}"), || QueryTime::Last { last: n, unit: u2 }.range(now), (want, now));
    }
}
fn rel(u: &TimeIntervalUnit, t: DateTime<Utc>, n: i64) -> DateTime<Utc> { let s = t.timestamp(); let r = match u { TimeIntervalUnit::Hour => s + n * 3600, TimeIntervalUnit::Day => s + n * DAY, TimeIntervalUnit::Week => s + n * 7 * DAY, TimeIntervalUnit::Month => add_months(s, n), TimeIntervalUnit::Year => add_months(s, 12 * n) }; Utc.timestamp_opt(r, t.nanosecond()).unwrap() }

fn c02(r: &mut Run) {
    r.rule("OptionalProperty operations over absent, present and nested-null values, and JSON decoding of structs carrying them");
    #[derive(serde::Deserialize, Debug, PartialEq)] struct P { #[serde(default)] a: OptionalProperty<Option<i64>>, #[serde(default)] b: OptionalProperty<String>, #[serde(default)] c: OptionalProperty<Option<Vec<i64>>> }
    while r.time_left() {
        let x = r.rng.int(); let y = r.rng.int();
        for o in [OptionalProperty::None, OptionalProperty::Some(x)] {
            let some = matches!(o, OptionalProperty::Some(_));
            r.eq("is_none", format!("{o:?}"), || o.is_none(), !some);
            let mut p = o.clone(); r.eq("insert", format!("{o:?} {y}"), || { p.insert(y); p }, OptionalProperty::Some(y));
            let q = o.clone(); r.eq("into", format!("{o:?}"), || q.into::<i128>(), if some { OptionalProperty::Some(x as i128) } else { OptionalProperty::None });
            let q = o.clone(); let calls = Cell::new(0); r.eq("map", format!("{o:?}"), || { let v = q.map(|v| { calls.set(calls.get() + 1); (v, y) }); (v, calls.get()) }, if some { (OptionalProperty::Some((x, y)), 1) } else { (OptionalProperty::None, 0) });
            let q = o.clone(); let want: Result<OptionalProperty<i8>, ()> = if !some { Ok(OptionalProperty::None) } else { i8::try_from(x).map(OptionalProperty::Some).map_err(|_| ()) };
            r.eq("try_into", format!("{o:?}"), || q.try_into::<i8>().map_err(|_| ()), want);
        }
        let s = r.rng.string(6);
        let (ka, kb, kc) = (r.rng.below(3), r.rng.below(2), r.rng.below(3)); let mut m = serde_json::Map::new();
        if ka == 1 { m.insert("a".into(), serde_json::Value::Null); } if ka == 2 { m.insert("a".into(), x.into()); }
        if kb == 1 { m.insert("b".into(), s.clone().into()); }
        if kc == 1 { m.insert("c".into(), serde_json::Value::Null); } if kc == 2 { m.insert("c".into(), vec![x, y].into()); }
        let j = serde_json::Value::Object(m).to_string();
        let want = P { a: match ka { 0 => OptionalProperty::None, 1 => OptionalProperty::Some(None), _ => OptionalProperty::Some(Some(x)) }, b: if kb == 0 { OptionalProperty::None } else { OptionalProperty::Some(s.clone()) }, c: match kc { 0 => OptionalProperty::None, 1 => OptionalProperty::Some(None), _ => OptionalProperty::Some(Some(vec![x, y])) } };
        r.eq("deserialize", j.clone(), || serde_json::from_str::<P>(&j).unwrap(), want);
        r.check("null_rejected", "{\"b\":null}", || if serde_json::from_str::<P>("{\"b\":null}").is_err() { Ok(()) } else { Err("null accepted for a non-nullable property".into()) });
        for o in [OptionalProperty::Some(Some(x)), OptionalProperty::Some(None)] { r.check("serde_round_trip", format!("{o:?}"), || { let j = serde_json::to_string(&o).map_err(|e| e.to_string())?; let b: OptionalProperty<Option<i64>> = serde_json::from_str(&j).map_err(|e| e.to_string())?; if b == o { Ok(()) } else { Err(format!("{j} -> {b:?}")) } }); }
    }
}
fn c06(r: &mut Run) {
    use datafusion_expr::Operator as D; use PropValueOperation as P;
    r.rule("every operator, unit and type, each direction (finite, enumerated completely)");
    let t = [(D::Eq, Operator::Eq, P::Eq), (D::NotEq, Operator::NotEq, P::Neq), (D::Lt, Operator::Lt, P::Lt), (D::LtEq, Operator::LtEq, P::Lte), (D::Gt, Operator::Gt, P::Gt), (D::GtEq, Operator::GtEq, P::Gte), (D::RegexMatch, Operator::RegexMatch, P::Regex), (D::RegexNotMatch, Operator::RegexNotMatch, P::NotRegex)];
    for (d, o, p) in t {
        r.eq("operator_from_df", format!("{d:?}"), || Operator::from(d), o); r.eq("df_from_operator", format!("{o:?}"), || D::from(o), d);
        let p1 = p.clone(); r.eq("operator_from_prop_op", format!("{p:?}"), || Operator::from(p1), o);
        let p1 = p.clone(); r.eq("df_from_prop_op", format!("{p:?}"), || { let x: D = p1.try_into().unwrap(); x }, d);
        let p1 = p.clone(); r.eq("is_without_value", format!("{p:?}"), || p1.is_without_value(), false);
    }
    for p in [P::True, P::False, P::Exists, P::Empty] { r.eq("is_without_value", format!("{p:?}"), || p.is_without_value(), true); }
    for p in [P::Like, P::NotLike] { r.eq("is_without_value", format!("{p:?}"), || p.is_without_value(), false); }
    use arrow_schema::TimeUnit as A; for (a, u) in [(A::Second, TimeUnit::Second), (A::Millisecond, TimeUnit::Millisecond), (A::Microsecond, TimeUnit::Microsecond), (A::Nanosecond, TimeUnit::Nanosecond)] {
        r.eq("unit_from_arrow", format!("{a:?}"), || { let x: TimeUnit = a.try_into().unwrap(); x }, u.clone()); let u2 = u.clone(); r.eq("unit_to_arrow", format!("{u:?}"), || { let x: A = u2.try_into().unwrap(); x }, a);
    }
    for (q, a) in [(QueryAggregate::Min, AggregateFunction::Min), (QueryAggregate::Max, AggregateFunction::Max), (QueryAggregate::Sum, AggregateFunction::Sum), (QueryAggregate::Avg, AggregateFunction::Avg)] { r.eq("aggregate_function", format!("{q:?}"), || q.aggregate_function(), a); }
    use datafusion::physical_plan::aggregates::AggregateFunction as DA; for (d, a) in [(DA::Count, AggregateFunction::Count), (DA::Min, AggregateFunction::Min), (DA::Max, AggregateFunction::Max), (DA::Avg, AggregateFunction::Avg)] { let d2 = d.clone(); r.eq("agg_from_df", format!("{d:?}"), || AggregateFunction::from(d2), a.clone()); let a2 = a.clone(); r.eq("agg_to_df", format!("{a:?}"), || DA::from(a2), d); }
    // column types: arrow, arrow2 and back; Timestamp is milliseconds, Decimal keeps precision and scale
    use arrow_schema::DataType as T; use arrow2::datatypes::DataType as T2; let (pr, sc) = (common::DECIMAL_PRECISION, common::DECIMAL_SCALE);
    let tt: Vec<(DType, T, T2, &str)> = vec![(DType::String, T::Utf8, T2::Utf8, "str"), (DType::Int8, T::Int8, T2::Int8, "i8"), (DType::Int16, T::Int16, T2::Int16, "i16"), (DType::Int32, T::Int32, T2::Int32, "i32"), (DType::Int64, T::Int64, T2::Int64, "i64"), (DType::Decimal, T::Decimal128(pr, sc), T2::Decimal(pr as usize, sc as usize), "d"), (DType::Boolean, T::Boolean, T2::Boolean, "b"), (DType::Timestamp, T::Timestamp(arrow_schema::TimeUnit::Millisecond, None), T2::Timestamp(arrow2::datatypes::TimeUnit::Millisecond, None), "ts")];
    for (d, a, b, s) in tt {
        let d1 = d.clone(); r.eq("dtype_to_arrow", format!("{d:?}"), || T::from(d1), a.clone()); let a1 = a.clone(); r.eq("dtype_from_arrow", format!("{a:?}"), || DType::from(a1), d.clone());
        let d1 = d.clone(); r.eq("dtype_to_arrow2", format!("{d:?}"), || T2::try_from(d1).unwrap(), b.clone()); let b1 = b.clone(); r.eq("dtype_from_arrow2", format!("{b:?}"), || DType::try_from(b1).unwrap(), d.clone());
        r.eq("short_name", format!("{d:?}"), || d.short_name(), s.to_string());
        let l = DType::List(Box::new(d.clone())); let l1 = l.clone(); r.eq("list_to_arrow", format!("{l:?}"), || T::from(l1), a.clone()); let l1 = l.clone(); r.eq("list_to_arrow2", format!("{l:?}"), || T2::try_from(l1).unwrap(), b.clone()); r.eq("short_name", format!("{l:?}"), || l.short_name(), format!("l_{s}"));
        let la = T::List(Arc::new(arrow_schema::Field::new("item", a.clone(), true))); let la1 = la.clone(); r.eq("list_from_arrow", format!("{la:?}"), || DType::from(la1), d.clone());
    }
    for i in 0..8usize { r.eq("group_col", format!("{i}"), || common::group_col(i), format!("group_{i}")); }
}
fn scalars(r: &mut Rng) -> Vec<ScalarValue> {
    use ScalarValue::*; let n = r.int(); let o = |b: bool, v: i64| if b { Some(v) } else { None }; let b = r.chance(80); let s = r.string(8); let bytes: Vec<u8> = (0..r.below(6)).map(|_| r.u64() as u8).collect(); let tz: Option<Arc<str>> = if r.bool() { Some(Arc::from("+02:00")) } else { None }; let z = |v: i64| o(b, v);
    vec![Null, Boolean(z(n).map(|v| v & 1 == 1)), Float32(z(n).map(|v| v as f32)), Float64(z(n).map(|v| v as f64 / 3.0)), Decimal128(z(n).map(|v| v as i128 * 1_000_003), 28, 10), Decimal128(z(n).map(|v| v as i128), 38, 0), Int8(z(n).map(|v| v as i8)), Int16(z(n).map(|v| v as i16)), Int32(z(n).map(|v| v as i32)), Int64(z(n)), UInt8(z(n).map(|v| v as u8)), UInt16(z(n).map(|v| v as u16)), UInt32(z(n).map(|v| v as u32)), UInt64(z(n).map(|v| v as u64)), Utf8(b.then(|| s.clone())), LargeUtf8(b.then(|| s.clone())), Binary(b.then(|| bytes.clone())), LargeBinary(b.then(|| bytes.clone())), FixedSizeBinary(bytes.len() as i32, b.then(|| bytes.clone())), Date32(z(n % 1_000_000).map(|v| v as i32)), Date64(z(n % 4_000_000_000_000)), Time32Second(z(n).map(|v| v as i32)), Time32Millisecond(z(n).map(|v| v as i32)), Time64Microsecond(z(n)), Time64Nanosecond(z(n)), TimestampSecond(z(n), tz.clone()), TimestampMillisecond(z(n), tz.clone()), TimestampMicrosecond(z(n), tz.clone()), TimestampNanosecond(z(n), tz), IntervalYearMonth(z(n).map(|v| v as i32))]
}
fn c07(r: &mut Run) {
    use common::scalar::ScalarValueRef as R;
    r.rule("every persistable scalar kind with null and non-null values; distinct by kind and value");
    #[serde_with::serde_as] #[derive(serde::Serialize, serde::Deserialize)] struct W { #[serde_as(as = "R")] v: ScalarValue }
    while r.time_left() {
        for v in scalars(&mut r.rng) {
            let k = format!("{:?}", v.data_type()).split('(').next().unwrap().to_string();
            let nm = |x: &ScalarValue| format!("{x:?} : {:?}", x.data_type());
            let w = nm(&v);
            r.check(&format!("ref_round_trip:{k}"), w.clone(), || { let b: ScalarValue = R::from(&v).into(); if nm(&b) == w && b == v { Ok(()) } else { Err(format!("came back as {}", nm(&b))) } });
            // JSON cannot carry non-finite or 128-bit values exactly; those kinds are covered by the direct conversion
            if !matches!(v, ScalarValue::Float32(_) | ScalarValue::Float64(_) | ScalarValue::Decimal128(..)) { r.check(&format!("json_round_trip:{k}"), w.clone(), || { let j = serde_json::to_string(&W { v: v.clone() }).map_err(|e| e.to_string())?; let b: W = serde_json::from_str(&j).map_err(|e| e.to_string())?; if nm(&b.v) == w { Ok(()) } else { Err(format!("came back as {}", nm(&b.v))) } }); }
        }
    }
}
fn main() { let _ = NaiveDate::from_ymd_opt(2000, 1, 1); h_lib::main(&[("C02", c02), ("C03", c03), ("C04", c04), ("C05", c05), ("C06", c06), ("C07", c07)]); }
