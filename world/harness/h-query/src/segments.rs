//! Q01: segment conditions against a per-user reading of the rows.
use crate::data::*;
use arrow::array::*;
use arrow::datatypes::DataType;
use datafusion::physical_expr::expressions::Column;
use datafusion::physical_plan::{common::collect, memory::MemoryExec, ExecutionPlan};
use datafusion::prelude::SessionContext;
use h_lib::{Rng, Run};
use query::physical_plan::expressions::segmentation::{aggregate::{Aggregate, AggregateFunction}, boolean_op, comparison::{And, Or}, count::Count, time_range::TimeRange, SegmentExpr};
use query::physical_plan::segment::SegmentExec;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Cond { Count { op: usize, right: i64, time: Time }, Agg { f: usize, op: usize, right: i64, time: Time }, And(Box<Cond>, Box<Cond>), Or(Box<Cond>, Box<Cond>) }
#[derive(Clone, Debug)]
pub enum Time { Between(i64, i64), From(i64), Last(i64, i64), Any }
const OPS: [&str; 6] = ["=", "!=", "<", "<=", ">", ">="];
const FNS: [&str; 5] = ["sum", "min", "max", "avg", "count"];
fn col(n: &str, t: &DataType) -> Column { Column::new_with_schema(n, &schema(t)).unwrap() }
fn time(t: &Time) -> TimeRange { match t { Time::Between(a, b) => TimeRange::new_between_milli(*a, *b), Time::From(a) => TimeRange::new_from_milli(*a), Time::Last(s, a) => TimeRange::new_last_milli(*s, *a), Time::Any => TimeRange::None } }
fn within(t: &Time, ts: i64) -> bool { match t { Time::Between(a, b) => *a <= ts && ts <= *b, Time::From(a) => *a <= ts, Time::Last(s, a) => a - s <= ts, Time::Any => true } }
fn cmp<T: PartialOrd>(op: usize, l: T, r: T) -> bool { match op { 0 => l == r, 1 => l != r, 2 => l < r, 3 => l <= r, 4 => l > r, _ => l >= r } }
macro_rules! with_op { ($op:expr, $O:ident => $e:expr) => { match $op { 0 => { type $O = boolean_op::Eq; $e } 1 => { type $O = boolean_op::NotEq; $e } 2 => { type $O = boolean_op::Lt; $e } 3 => { type $O = boolean_op::LtEq; $e } 4 => { type $O = boolean_op::Gt; $e } _ => { type $O = boolean_op::GtEq; $e } } } }
macro_rules! with_f { ($f:expr, $T:ty) => { match $f { 0 => AggregateFunction::<$T>::new_sum(), 1 => AggregateFunction::<$T>::new_min(), 2 => AggregateFunction::<$T>::new_max(), 3 => AggregateFunction::<$T>::new_avg(), _ => AggregateFunction::<$T>::new_count() } } }
macro_rules! agg { ($T:ty, $O:ty, $f:expr, $op:expr, $right:expr, $tr:expr, $t:expr) => { with_op!($op, P => Arc::new(Aggregate::<$T, $O, P>::new(Arc::new(col("take", $t)), col("ts", $t), col("user_id", $t), col("v", $t), with_f!($f, $O), $right as $O, time($tr))) as Arc<dyn SegmentExpr>) } }
pub fn build(c: &Cond, t: &DataType) -> Arc<dyn SegmentExpr> {
    match c {
        Cond::Count { op, right, time: tr } => with_op!(*op, P => Arc::new(Count::<P>::new(Arc::new(col("take", t)), col("ts", t), col("user_id", t), *right, time(tr))) as Arc<dyn SegmentExpr>),
        Cond::Agg { f, op, right, time: tr } => match t {
            DataType::Int8 => agg!(i8, i64, *f, *op, *right, tr, t), DataType::Int16 => agg!(i16, i64, *f, *op, *right, tr, t), DataType::Int32 => agg!(i32, i64, *f, *op, *right, tr, t), DataType::Int64 => agg!(i64, i128, *f, *op, *right, tr, t),
            DataType::UInt8 => agg!(u8, i64, *f, *op, *right, tr, t), DataType::UInt16 => agg!(u16, i64, *f, *op, *right, tr, t), DataType::UInt32 => agg!(u32, i64, *f, *op, *right, tr, t), DataType::UInt64 => agg!(u64, i128, *f, *op, *right, tr, t),
            _ => agg!(Decimal128Array, i128, *f, *op, *right, tr, t) },
        Cond::And(a, b) => Arc::new(And::new(build(a, t), build(b, t))), Cond::Or(a, b) => Arc::new(Or::new(build(a, t), build(b, t))),
    }
}
fn holds(c: &Cond, mine: &[&Row]) -> bool {
    let taken = |tr: &Time| mine.iter().filter(|r| r.take == Some(true) && within(tr, r.ts)).copied().collect::<Vec<_>>();
    match c {
        Cond::Count { op, right, time } => cmp(*op, taken(time).len() as i64, *right),
        Cond::Agg { f, op, right, time } => { let vs: Vec<i64> = taken(time).iter().filter_map(|r| r.v).collect(); if vs.is_empty() { return false; } let s: i64 = vs.iter().sum(); let a = match f { 0 => s, 1 => *vs.iter().min().unwrap(), 2 => *vs.iter().max().unwrap(), 3 => s / vs.len() as i64, _ => vs.len() as i64 }; cmp(*op, a, *right) }
        Cond::And(a, b) => holds(a, mine) && holds(b, mine), Cond::Or(a, b) => holds(a, mine) || holds(b, mine),
    }
}
fn text(c: &Cond) -> String { match c { Cond::Count { op, right, time } => format!("count{}{right} {time:?}", OPS[*op]), Cond::Agg { f, op, right, time } => format!("{}(v){}{right} {time:?}", FNS[*f], OPS[*op]), Cond::And(a, b) => format!("({} and {})", text(a), text(b)), Cond::Or(a, b) => format!("({} or {})", text(a), text(b)) } }
fn leaf(r: &mut Rng) -> Cond { let time = match r.below(5) { 0 => { let a = r.range(0, 8); Time::Between(a, a + r.range(0, 5)) } 1 => Time::From(r.range(0, 10)), 2 => Time::Last(r.range(0, 6), r.range(4, 12)), _ => Time::Any }; let op = r.below(6) as usize; if r.chance(40) { Cond::Count { op, right: r.range(0, 4), time } } else { Cond::Agg { f: r.below(5) as usize, op, right: r.range(0, 12), time } } }
fn cond(r: &mut Rng, depth: u64) -> Cond { if depth == 0 || r.chance(60) { leaf(r) } else if r.bool() { Cond::And(Box::new(cond(r, depth - 1)), Box::new(cond(r, depth - 1))) } else { Cond::Or(Box::new(cond(r, depth - 1)), Box::new(cond(r, depth - 1))) } }
pub fn oracle(c: &Cond, rows: &[Row]) -> Vec<Option<i64>> { let mut us = vec![]; for r in rows { if us.last() != Some(&r.user) { us.push(r.user); } } us.into_iter().map(|u| { let mine: Vec<&Row> = rows.iter().filter(|r| r.user == u).collect(); if holds(c, &mine) { Some(u) } else { None } }).collect() }

pub fn q01(r: &mut Run) {
    r.rule("segment conditions (count, aggregates over every column type, and/or trees, the segment step of a plan) over rows of up to 5 users in random batches; distinct by condition, rows and batching");
    let types = [DataType::Int64, DataType::Int8, DataType::Int16, DataType::Int32, DataType::UInt8, DataType::UInt16, DataType::UInt32, DataType::UInt64, decimal()];
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    while r.time_left() {
        let t = r.rng.pick(&types).clone(); let c = cond(&mut r.rng, 2); let rs = rows(&mut r.rng, 5, 6); let bs = batches(&mut r.rng, &rs, &t);
        let want = oracle(&c, &rs);
        let key = match &c { Cond::Count { .. } => "count", Cond::Agg { .. } => "aggregate", _ => "and_or" };
        let input = format!("{} over {t:?} in batches {:?}: {}", text(&c), bs.iter().map(|b| b.num_rows()).collect::<Vec<_>>(), show(&rs));
        let ok = r.eq(key, input.clone(), || { let e = build(&c, &t); for b in &bs { e.evaluate(b).unwrap(); } e.finalize().unwrap().iter().collect::<Vec<_>>() }, want.clone());
        if ok && r.rng.chance(5) {
            r.eq("exec", input, || rt.block_on(async {
                let input: Arc<dyn ExecutionPlan> = Arc::new(MemoryExec::try_new(&[bs.clone()], schema(&t), None).unwrap());
                let e = SegmentExec::try_new(input, build(&c, &t), col("user_id", &t)).unwrap();
                let out = collect(e.execute(0, SessionContext::new().task_ctx()).unwrap()).await.unwrap();
                out.iter().flat_map(|b| b.column(0).as_any().downcast_ref::<Int64Array>().unwrap().iter().collect::<Vec<_>>()).collect::<Vec<_>>()
            }), want);
        }
    }
}
