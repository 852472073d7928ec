//! Q03: funnels against a reading of each user's rows in order.
use arrow::array::*;
use arrow::datatypes::{DataType, Field, Schema, TimeUnit};
use arrow::record_batch::RecordBatch;
use arrow::row::SortField;
use chrono::{DateTime, Datelike, Duration, Timelike, Utc};
use common::query::TimeIntervalUnit;
use datafusion::physical_expr::expressions::{BinaryExpr, Column, Literal};
use datafusion::physical_expr::PhysicalExprRef;
use datafusion_common::ScalarValue;
use datafusion_expr::Operator;
use h_lib::Run;
use query::physical_plan::expressions::aggregate::partitioned::funnel::{funnel::{Funnel, Options}, Count, ExcludeExpr, ExcludeSteps, Filter, StepOrder};
use std::collections::BTreeMap;
use std::sync::Arc;

type Row = (i64, i64, i64, i64); // user, time, event, group
type Out = BTreeMap<(i64, i64), Vec<(i64, i64, i64, i64)>>;
fn schema() -> Arc<Schema> { Arc::new(Schema::new(vec![Field::new("u", DataType::Int64, false), Field::new("t", DataType::Timestamp(TimeUnit::Millisecond, None), false), Field::new("e", DataType::Int64, false), Field::new("g", DataType::Int64, false)])) }
fn batch(r: &[Row]) -> RecordBatch { RecordBatch::try_new(schema(), vec![Arc::new(r.iter().map(|x| Some(x.0)).collect::<Int64Array>()), Arc::new(r.iter().map(|x| Some(x.1)).collect::<TimestampMillisecondArray>()), Arc::new(r.iter().map(|x| Some(x.2)).collect::<Int64Array>()), Arc::new(r.iter().map(|x| Some(x.3)).collect::<Int64Array>())]).unwrap() }
fn col(n: &str) -> PhysicalExprRef { Arc::new(Column::new_with_schema(n, &schema()).unwrap()) }
fn is(k: i64) -> PhysicalExprRef { Arc::new(BinaryExpr::new(col("e"), Operator::Eq, Arc::new(Literal::new(ScalarValue::Int64(Some(k)))))) }
fn start(u: &Option<TimeIntervalUnit>, from: i64, t: i64) -> i64 {
    let d = DateTime::<Utc>::from_timestamp_millis(t).unwrap(); let day = t.div_euclid(86_400_000) * 86_400_000;
    match u { None => from, Some(TimeIntervalUnit::Hour) => day + d.hour() as i64 * 3_600_000, Some(TimeIntervalUnit::Day) => day, Some(_) => day - d.weekday().num_days_from_monday() as i64 * 86_400_000 }
}
pub fn q03(r: &mut Run) {
    r.rule("funnels of 1 to 4 steps over rows of up to 4 users in random batches, with exclusions, windows, groups and time buckets; distinct by request, rows and batching");
    let h = 3_600_000i64; let from0 = DateTime::parse_from_rfc3339("2024-02-28T00:00:00Z").unwrap().timestamp_millis();
    while r.time_left() {
        let n = 1 + r.rng.below(4) as usize; let unit = r.rng.pick(&[None, None, Some(TimeIntervalUnit::Hour), Some(TimeIntervalUnit::Day), Some(TimeIntervalUnit::Week)]).clone(); let step = if unit.is_none() { 1 } else { h * 7 };
        let orders: Vec<StepOrder> = (0..n).map(|_| if r.rng.chance(80) { StepOrder::Exact } else { let a = r.rng.below(n as u64) as usize; StepOrder::Any(vec![(a, a + r.rng.below((n - a) as u64) as usize)]) }).collect();
        let events: Vec<i64> = (0..n).map(|i| if r.rng.chance(85) { i as i64 } else { r.rng.range(0, 3) }).collect();
        let excl: Vec<(i64, Option<(usize, usize)>)> = (0..r.rng.below(3)).map(|_| (r.rng.range(3, 5), if r.rng.chance(40) { None } else { let a = r.rng.below(n as u64 + 1) as usize; Some((a, a + r.rng.below(3) as usize)) })).collect();
        let window = step * r.rng.range(1, 8); let grouped = r.rng.chance(35);
        let mut rows: Vec<Row> = vec![]; for u in 1..=r.rng.below(5) as i64 { let mut t = from0 + r.rng.range(0, 5) * step; for _ in 0..=r.rng.below(8) { t += r.rng.range(0, 3) * step; rows.push((u * 2, t, r.rng.range(0, 5), r.rng.range(1, 2))); } }
        if rows.is_empty() { continue; }
        let filter = r.rng.pick(&[None, Some(Filter::DropOffOnAnyStep), Some(Filter::DropOffOnStep(0)), Some(Filter::TimeToConvert(Duration::milliseconds(0), Duration::milliseconds(3)))]).clone();
        let to = rows.iter().map(|x| x.1).max().unwrap();
        let mut want: Out = BTreeMap::new();
        for g in if grouped { vec![1, 2] } else { vec![0] } {
            let mut at: Vec<i64> = vec![]; let mut user = None;
            let mut push = |at: &mut Vec<i64>| { if let Some(t0) = at.first() { let b = want.entry((g, start(&unit, from0, *t0))).or_insert(vec![(0, 0, 0, 0); n]); for (i, t) in at.iter().enumerate() { b[i].0 += 1; if i > 0 { b[i].2 += t - at[i - 1]; b[i].3 += t - t0; } } for i in 1..n { b[i].1 = b[i - 1].0 - b[i].0; } } at.clear(); };
            for x in rows.iter().filter(|x| !grouped || x.3 == g) {
                if user != Some(x.0) { push(&mut at); user = Some(x.0); }
                if !at.is_empty() && excl.iter().any(|(e, s)| *e == x.2 && s.map_or(true, |(a, b)| a <= at.len() && at.len() <= b)) { at.clear(); }
                if !at.is_empty() && x.1 - at[0] > window { push(&mut at); }
                let hit = match &orders[at.len()] { StepOrder::Exact => events[at.len()] == x.2, StepOrder::Any(p) => p.iter().any(|(a, b)| (*a..=*b).any(|i| events[i] == x.2)) };
                if hit { at.push(x.1); if at.len() == n { push(&mut at); } }
            }
            push(&mut at);
        }
        let mut bs = vec![]; let mut i = 0; while i < rows.len() { let k = (1 + r.rng.below(7) as usize).min(rows.len() - i); bs.push(batch(&rows[i..i + k])); i += k; }
        let input = format!("steps {:?}, exclusions {excl:?}, window {window} ms, by {unit:?}, grouped {grouped}, filter {filter:?}, batches {:?}, rows (user, ms, event, group) {:?}", events.iter().zip(&orders).collect::<Vec<_>>(), bs.iter().map(|b| b.num_rows()).collect::<Vec<_>>(), rows.iter().map(|x| (x.0, x.1 - from0, x.2, x.3)).collect::<Vec<_>>());
        let ask = || Options { schema: schema(), ts_col: col("t"), from: DateTime::from_timestamp_millis(from0).unwrap(), to: DateTime::from_timestamp_millis(to).unwrap(), time_interval: unit.clone(), window: Duration::milliseconds(window), steps: events.iter().zip(&orders).map(|(e, o)| (is(*e), o.clone())).collect(), exclude: Some(excl.iter().map(|(e, s)| ExcludeExpr { expr: is(*e), steps: s.map(|(a, b)| ExcludeSteps::new(a, b)) }).collect()), constants: None, count: Count::NonUnique, filter: filter.clone(), touch: None, partition_col: col("u"), groups: if grouped { Some(vec![(col("g"), "g".to_string(), SortField::new(DataType::Int64))]) } else { None } };
        let fresh = r.rng.chance(20);
        r.eq(if excl.is_empty() { "attempts" } else { "exclusions" }, input, || {
            let mut f = Funnel::try_new(ask()).unwrap(); if fresh { f.evaluate(&bs[0], None).unwrap(); f = f.make_new().unwrap(); }
            for b in &bs { f.evaluate(b, None).unwrap(); }
            let c = f.finalize().unwrap(); let g = grouped as usize; let int = |i: usize, k: usize| c[i].as_any().downcast_ref::<Int64Array>().unwrap().value(k);
            let mut out: Out = BTreeMap::new();
            for k in 0..c[0].len() { let key = (if grouped { int(0, k) } else { 0 }, c[g].as_any().downcast_ref::<TimestampMillisecondArray>().unwrap().value(k)); let v = (0..n).map(|s| { let b = g + 1 + 8 * s; (int(b, k), int(b + 4, k), int(b + 6, k), int(b + 7, k)) }).collect(); assert!(out.insert(key, v).is_none(), "two lines for {key:?}"); }
            out
        }, want);
    }
}
