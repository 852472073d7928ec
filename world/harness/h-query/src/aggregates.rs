//! Q02: aggregate metrics against a per-group reading of the rows.
use crate::data::*;
use ahash::RandomState;
use arrow::array::*;
use arrow::datatypes::DataType;
use arrow::row::SortField;
use common::DECIMAL_MULTIPLIER;
use datafusion::physical_expr::expressions::Column;
use datafusion::physical_expr::PhysicalExprRef;
use h_lib::{Rng, Run};
use query::physical_plan::expressions::aggregate::{count::Count, partitioned::{aggregate::Aggregate as Per, count::PartitionedCount}, Aggregate, PartitionedAggregateExpr};
use query::physical_plan::expressions::segmentation::aggregate::AggregateFunction as F;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

type Key = (Option<i64>, Option<String>);
#[derive(Clone, Debug)]
struct Ask { filter: bool, groups: Vec<&'static str>, exist: Option<Vec<i64>>, kind: Kind }
#[derive(Clone, Copy, Debug)]
enum Kind { Count, Agg(usize, Out), PerCount(usize, bool, Out), Per(usize, usize, In, Out) }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Out { Same, I64, F64, Dec }
#[derive(Clone, Copy, Debug, PartialEq)]
enum In { Same, I64 }
const FNS: [&str; 5] = ["sum", "min", "max", "avg", "count"];
type B = Box<dyn PartitionedAggregateExpr>;
type E = std::result::Result<B, query::error::QueryError>;
fn col(n: &str, t: &DataType) -> Column { Column::new_with_schema(n, &schema(t)).unwrap() }
macro_rules! f { ($f:expr, $T:ty) => { match $f { 0 => F::<$T>::new_sum(), 1 => F::<$T>::new_min(), 2 => F::<$T>::new_max(), 3 => F::<$T>::new_avg(), _ => F::<$T>::new_count() } } }
fn by(a: &Ask, t: &DataType) -> Option<Vec<(PhysicalExprRef, String, SortField)>> { if a.groups.is_empty() { None } else { Some(a.groups.iter().map(|g| (Arc::new(col(g, t)) as PhysicalExprRef, g.to_string(), SortField::new(schema(t).field_with_name(g).unwrap().data_type().clone()))).collect()) } }
fn filter(a: &Ask, t: &DataType) -> Option<PhysicalExprRef> { a.filter.then(|| Arc::new(col("take", t)) as PhysicalExprRef) }
macro_rules! plain { ($T:ty, $O:ty, $f:expr, $a:expr, $t:expr) => { Aggregate::<$T, $O>::try_new(filter($a, $t), by($a, $t), col("user_id", $t), col("v", $t), f!($f, $O)).map(|x| Box::new(x) as B) } }
macro_rules! per { ($T:ty, $I:ty, $O:ty, $f:expr, $g:expr, $a:expr, $t:expr) => { Per::<$T, $I, $O>::try_new(filter($a, $t), f!($f, $I), f!($g, $O), col("v", $t), by($a, $t), col("user_id", $t)).map(|x| Box::new(x) as B) } }
macro_rules! cnt { ($T:ty, $a:expr, $t:expr) => { Count::<$T>::try_new(filter($a, $t), by($a, $t), col("v", $t), col("user_id", $t), false).map(|x| Box::new(x) as B) } }
fn build(a: &Ask, t: &DataType) -> Option<B> {
    use DataType::*;
    let e: E = match a.kind {
        Kind::Count => match t { Int8 => cnt!(i8, a, t), Int16 => cnt!(i16, a, t), Int32 => cnt!(i32, a, t), Int64 => cnt!(i64, a, t), UInt8 => cnt!(u8, a, t), UInt16 => cnt!(u16, a, t), UInt32 => cnt!(u32, a, t), UInt64 => cnt!(u64, a, t), Float32 => cnt!(f32, a, t), Float64 => cnt!(f64, a, t), _ => cnt!(i128, a, t) },
        Kind::Agg(f, o) => match (t, o) {
            (Int8, Out::Same) => plain!(i8, i8, f, a, t), (Int8, Out::I64) => plain!(i8, i64, f, a, t), (Int8, Out::F64) => plain!(i8, f64, f, a, t),
            (Int16, Out::Same) => plain!(i16, i16, f, a, t), (Int16, Out::I64) => plain!(i16, i64, f, a, t), (Int16, Out::F64) => plain!(i16, f64, f, a, t),
            (Int32, Out::Same) => plain!(i32, i32, f, a, t), (Int32, Out::I64) => plain!(i32, i64, f, a, t), (Int32, Out::F64) => plain!(i32, f64, f, a, t),
            (Int64, Out::Same | Out::I64) => plain!(i64, i64, f, a, t), (Int64, Out::F64) => plain!(i64, f64, f, a, t), (Int64, Out::Dec) => plain!(i64, i128, f, a, t),
            (UInt8, Out::Same) => plain!(u8, u8, f, a, t), (UInt8, Out::I64) => plain!(u8, i64, f, a, t), (UInt8, Out::F64) => plain!(u8, f64, f, a, t),
            (UInt16, Out::Same) => plain!(u16, u16, f, a, t), (UInt16, Out::I64) => plain!(u16, i64, f, a, t), (UInt16, Out::F64) => plain!(u16, f64, f, a, t),
            (UInt32, Out::Same) => plain!(u32, u32, f, a, t), (UInt32, Out::I64) => plain!(u32, i64, f, a, t), (UInt32, Out::F64) => plain!(u32, f64, f, a, t),
            (UInt64, Out::Same) => plain!(u64, u64, f, a, t), (UInt64, Out::I64) => plain!(u64, i64, f, a, t), (UInt64, Out::F64) => plain!(u64, f64, f, a, t), (UInt64, Out::Dec) => plain!(u64, i128, f, a, t),
            (Float32, Out::Same) => plain!(f32, f32, f, a, t), (Float32, Out::F64) => plain!(f32, f64, f, a, t), (Float32, Out::I64) => plain!(f32, i64, f, a, t),
            (Float64, Out::Same | Out::F64) => plain!(f64, f64, f, a, t), (Float64, Out::I64) => plain!(f64, i64, f, a, t),
            (Decimal128(_, _), Out::Same | Out::Dec) => plain!(i128, i128, f, a, t), (Decimal128(_, _), Out::I64) => plain!(i128, i64, f, a, t), (Decimal128(_, _), Out::F64) => plain!(i128, f64, f, a, t),
            _ => return None },
        Kind::PerCount(f, d, o) => match o {
            Out::F64 => PartitionedCount::<f64>::try_new(filter(a, t), f!(f, f64), by(a, t), col("user_id", t), d).map(|x| Box::new(x) as B),
            Out::Dec => PartitionedCount::<i128>::try_new(filter(a, t), f!(f, i128), by(a, t), col("user_id", t), d).map(|x| Box::new(x) as B),
            _ => PartitionedCount::<i64>::try_new(filter(a, t), f!(f, i64), by(a, t), col("user_id", t), d).map(|x| Box::new(x) as B) },
        Kind::Per(f, g, i, o) => match (t, i, o) {
            (Int8, In::Same, Out::Same) => per!(i8, i8, i8, f, g, a, t), (Int8, In::Same, Out::F64) => per!(i8, i8, f64, f, g, a, t), (Int8, In::I64, Out::I64) => per!(i8, i64, i64, f, g, a, t), (Int8, In::I64, Out::Dec) => per!(i8, i64, i128, f, g, a, t),
            (Int16, In::Same, Out::Same) => per!(i16, i16, i16, f, g, a, t), (Int16, In::Same, Out::I64) => per!(i16, i16, i64, f, g, a, t), (Int16, In::I64, Out::F64) => per!(i16, i64, f64, f, g, a, t),
            (Int32, In::Same, Out::Same) => per!(i32, i32, i32, f, g, a, t), (Int32, In::I64, Out::I64) => per!(i32, i64, i64, f, g, a, t), (Int32, In::I64, Out::Dec) => per!(i32, i64, i128, f, g, a, t),
            (Int64, _, Out::Same | Out::I64) => per!(i64, i64, i64, f, g, a, t), (Int64, _, Out::F64) => per!(i64, i64, f64, f, g, a, t), (Int64, In::Same, Out::Dec) => per!(i64, i64, i128, f, g, a, t), (Int64, In::I64, Out::Dec) => per!(i64, i128, i128, f, g, a, t),
            (UInt8, In::Same, Out::Same) => per!(u8, u8, u8, f, g, a, t), (UInt16, In::Same, Out::I64) => per!(u16, u16, i64, f, g, a, t), (UInt32, In::Same, Out::Same) => per!(u32, u32, u32, f, g, a, t), (UInt64, In::Same, Out::Same) => per!(u64, u64, u64, f, g, a, t), (UInt64, In::I64, Out::Dec) => per!(u64, i128, i128, f, g, a, t), (UInt64, In::Same, Out::F64) => per!(u64, u64, f64, f, g, a, t),
            (Float32, In::Same, Out::Same) => per!(f32, f32, f32, f, g, a, t), (Float64, In::Same, Out::Same | Out::F64) => per!(f64, f64, f64, f, g, a, t), (Float64, In::I64, Out::I64) => per!(f64, i64, i64, f, g, a, t),
            (Decimal128(_, _), In::Same, Out::Same | Out::Dec) => per!(i128, i128, i128, f, g, a, t),
            _ => return None },
    };
    Some(e.unwrap())
}
/// whole numbers (scaled where the result is a decimal) or fractions, as the result's type has them
#[derive(Clone, Copy)]
enum Num { Whole, Real }
fn fold(f: usize, vs: &[f64], n: Num) -> f64 { match f { 0 => vs.iter().sum(), 1 => vs.iter().copied().fold(f64::MAX, f64::min), 2 => vs.iter().copied().fold(f64::MIN, f64::max), 3 => { let x = vs.iter().sum::<f64>() / vs.len() as f64; match n { Num::Whole => x.trunc(), Num::Real => x } } _ => vs.len() as f64 } }
fn out_of(t: &DataType, o: Out) -> Out { match (t, o) { (DataType::Decimal128(_, _), Out::Same) => Out::Dec, (DataType::Float32 | DataType::Float64, Out::Same) => Out::F64, (_, Out::Same) => Out::I64, (_, o) => o } }
fn num(o: Out) -> Num { if o == Out::F64 { Num::Real } else { Num::Whole } }
/// what a group's rows should come to; None where the answer is not defined (an average, least or greatest of nothing)
fn answer(a: &Ask, t: &DataType, rs: &[&Row]) -> Option<f64> {
    let dec = matches!(t, DataType::Decimal128(_, _));
    let m = DECIMAL_MULTIPLIER as f64;
    match a.kind {
        Kind::Count => Some(rs.iter().filter(|r| r.v.is_some()).count() as f64),
        Kind::Agg(f, o) => { let o = out_of(t, o); let vs: Vec<f64> = rs.iter().filter_map(|r| r.v).map(|v| v as f64).map(|v| match (dec, o) { (true, Out::I64) => (v / m).trunc(), (true, Out::F64) => v / m, (false, Out::Dec) => v * m, _ => v }).collect(); if vs.is_empty() && matches!(f, 1 | 2 | 3) { None } else { Some(fold(f, &vs, num(o))) } }
        Kind::PerCount(f, d, o) => { let m = if o == Out::Dec { m } else { 1. }; let mut us: Vec<i64> = rs.iter().map(|r| r.user).collect(); us.dedup(); let vs: Vec<f64> = us.iter().map(|u| if d { 1. } else { rs.iter().filter(|r| r.user == *u).count() as f64 } * m).collect(); if vs.is_empty() { None } else { Some(fold(f, &vs, num(o))) } }
        Kind::Per(f, g, i, o) => { let o = out_of(t, o); let i = match i { In::Same => num(out_of(t, Out::Same)), In::I64 => Num::Whole }; let mut us: Vec<i64> = rs.iter().filter(|r| r.v.is_some()).map(|r| r.user).collect(); us.dedup();
            let vs: Vec<f64> = us.iter().map(|u| fold(f, &rs.iter().filter(|r| r.user == *u).filter_map(|r| r.v).map(|v| v as f64).collect::<Vec<_>>(), i) * if o == Out::Dec && !dec { m } else { 1. }).collect(); if vs.is_empty() { None } else { Some(fold(g, &vs, num(o))) } }
    }
}
fn key(a: &Ask, r: &Row) -> Key { (if a.groups.contains(&"g") { r.g } else { None }, if a.groups.contains(&"h") { r.h.clone() } else { None }) }
fn wanted(a: &Ask, t: &DataType, rs: &[Row]) -> BTreeMap<Key, Option<f64>> {
    let counts = |r: &&Row| (!a.filter || r.take == Some(true)) && a.exist.as_ref().map_or(true, |e| e.contains(&r.user)) && (matches!(a.kind, Kind::PerCount(..)) || r.v.is_some());
    let mut m: BTreeMap<Key, Vec<&Row>> = BTreeMap::new(); if a.groups.is_empty() { m.insert((None, None), vec![]); }
    for r in rs.iter().filter(counts) { m.entry(key(a, r)).or_default().push(r); }
    m.into_iter().map(|(k, v)| { let x = answer(a, t, &v); (k, x) }).collect()
}
fn number(c: &ArrayRef, i: usize) -> f64 {
    macro_rules! n { ($($A:ty),*) => { $(if let Some(x) = c.as_any().downcast_ref::<$A>() { return x.value(i) as f64; })* } }
    n!(Int8Array, Int16Array, Int32Array, Int64Array, UInt8Array, UInt16Array, UInt32Array, UInt64Array, Float32Array, Float64Array, Decimal128Array); panic!("a result of type {:?}", c.data_type())
}
fn results(a: &Ask, e: &mut B) -> Result<BTreeMap<Key, f64>, String> {
    let cols = e.finalize().map_err(|e| e.to_string())?; let mut m = BTreeMap::new();
    if cols.len() != a.groups.len() + 1 { return Err(format!("{} columns", cols.len())); }
    for i in 0..cols[0].len() {
        let mut k: Key = (None, None);
        for (n, c) in a.groups.iter().zip(&cols) { if c.is_null(i) { continue; } if *n == "g" { k.0 = Some(c.as_any().downcast_ref::<Int64Array>().ok_or("group type")?.value(i)) } else { k.1 = Some(c.as_any().downcast_ref::<StringArray>().ok_or("group type")?.value(i).to_string()) } }
        if m.insert(k.clone(), number(cols.last().unwrap(), i)).is_some() { return Err(format!("group {k:?} twice")); }
    }
    Ok(m)
}
fn verdict(got: &BTreeMap<Key, f64>, want: &BTreeMap<Key, Option<f64>>) -> Result<(), String> {
    let same = got.len() == want.len() && want.iter().all(|(k, w)| got.get(k).map_or(false, |g| w.map_or(true, |w| (g - w).abs() <= 1e-6 * w.abs().max(1.))));
    if same { Ok(()) } else { Err(format!("got {got:?}, expected {want:?}")) }
}
fn ask(r: &mut Rng, rs: &[Row]) -> Ask {
    let kind = match r.below(4) { 0 => Kind::Count, 1 => Kind::Agg(r.below(5) as usize, *r.pick(&[Out::Same, Out::I64, Out::F64, Out::Dec])), 2 => Kind::PerCount(r.below(5) as usize, r.chance(30), *r.pick(&[Out::I64, Out::F64, Out::Dec])), _ => Kind::Per(r.below(5) as usize, r.below(5) as usize, *r.pick(&[In::Same, In::I64]), *r.pick(&[Out::Same, Out::I64, Out::F64, Out::Dec])) };
    let mut us: Vec<i64> = rs.iter().map(|r| r.user).collect(); us.dedup();
    Ask { filter: r.chance(60), groups: match r.below(4) { 0 => vec![], 1 => vec!["g"], 2 => vec!["h"], _ => if r.bool() { vec!["g", "h"] } else { vec!["h", "g"] } }, exist: r.chance(50).then(|| us.into_iter().filter(|_| r.chance(60)).collect()), kind }
}
pub fn q02(r: &mut Run) {
    r.rule("count, plain and per-user aggregates over every column type, grouped by up to two columns, filtered, restricted to users, over rows of up to 5 users in random batches; distinct by aggregate, grouping, rows and batching");
    let types = [DataType::Int64, DataType::Int8, DataType::Int16, DataType::Int32, DataType::UInt8, DataType::UInt16, DataType::UInt32, DataType::UInt64, DataType::Float32, DataType::Float64, decimal()];
    while r.time_left() {
        let t = r.rng.pick(&types).clone(); let mut rs = rows(&mut r.rng, 5, 6);
        if matches!(t, DataType::Decimal128(_, _)) { for x in &mut rs { x.v = x.v.map(|v| v * DECIMAL_MULTIPLIER as i64 / if v == 3 { 2 } else { 1 }); } }
        let a = ask(&mut r.rng, &rs); let Some(mut e) = build(&a, &t) else { continue };
        let want = wanted(&a, &t, &rs);
        // an average of no whole numbers, or any figure per user where no user counts, has no answer at all
        let avg = match a.kind { Kind::Agg(3, _) => true, Kind::Per(..) => true, Kind::PerCount(3, ..) => true, _ => false };
        if avg && want.values().any(|w| w.is_none()) { continue; }
        // sums over narrow types stay in range
        let narrow = matches!(t, DataType::Int8 | DataType::UInt8); if narrow && rs.len() > 15 { continue; }
        let bs = batches(&mut r.rng, &rs, &t);
        let name = match a.kind { Kind::Count => "count", Kind::Agg(..) => "aggregate", Kind::PerCount(..) => "per_user_count", Kind::Per(..) => "per_user_aggregate" };
        let what = match a.kind { Kind::Count => "count(v)".to_string(), Kind::Agg(f, o) => format!("{}(v) as {o:?}", FNS[f]), Kind::PerCount(f, d, o) => format!("{} of each user's {} as {o:?}", FNS[f], if d { "presence" } else { "rows" }), Kind::Per(f, g, i, o) => format!("{} of each user's {}(v) {i:?}->{o:?}", FNS[g], FNS[f]) };
        let input = format!("{what}{} by {:?} for {} over {t:?} in batches {:?}: {}", if a.filter { " where take" } else { "" }, a.groups, a.exist.as_ref().map_or("all users".to_string(), |e| format!("users {e:?}")), bs.iter().map(|b| b.num_rows()).collect::<Vec<_>>(), show(&rs));
        let exist: Option<HashMap<i64, (), RandomState>> = a.exist.as_ref().map(|e| e.iter().map(|u| (*u, ())).collect());
        let feed = |e: &mut B| for b in &bs { e.evaluate(b, exist.as_ref()).unwrap(); };
        let fresh = r.rng.chance(30);
        r.check(name, input, || {
            feed(&mut e);
            // a copy made afterwards starts from nothing
            let mut c = if fresh { Some(e.make_new().map_err(|e| e.to_string())?) } else { None };
            verdict(&results(&a, &mut e)?, &want)?;
            if let Some(c) = &mut c { feed(c); verdict(&results(&a, c)?, &want).map_err(|e| format!("a new one like it: {e}"))?; }
            Ok(())
        });
    }
}
