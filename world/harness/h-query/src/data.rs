//! Random event rows, and the Arrow batches that hold them.
use arrow::array::*;
use arrow::datatypes::{DataType, Field, Schema, TimeUnit};
use arrow::record_batch::RecordBatch;
use common::{DECIMAL_PRECISION, DECIMAL_SCALE};
use h_lib::Rng;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Row { pub user: i64, pub ts: i64, pub take: Option<bool>, pub v: Option<i64>, pub g: Option<i64>, pub h: Option<String> }

/// rows of a few users, each user's rows together; users are not in order and values are sometimes missing
pub fn rows(r: &mut Rng, max_users: u64, max_rows: u64) -> Vec<Row> {
    let mut us: Vec<i64> = (0..r.below(max_users + 1) as i64).map(|i| i * 3 - 2).collect();
    for i in (1..us.len()).rev() { let j = r.below(i as u64 + 1) as usize; us.swap(i, j); }
    let mut out = vec![];
    for u in us { for _ in 0..=r.below(max_rows) { out.push(Row { user: u, ts: r.range(0, 12), take: *r.pick(&[Some(true), Some(true), Some(true), Some(false), None]), v: if r.chance(20) { None } else { Some(r.range(0, 6)) }, g: if r.chance(15) { None } else { Some(r.range(0, 2)) }, h: if r.chance(15) { None } else { Some(r.pick(&["x", "y"]).to_string()) } }) } }
    out
}
/// the rows in batches of random sizes, some of them empty
pub fn batches(r: &mut Rng, rows: &[Row], v: &DataType) -> Vec<RecordBatch> {
    let mut out = vec![]; let mut i = 0;
    while i < rows.len() { if r.chance(10) { out.push(batch(&rows[i..i], v)); } let n = (1 + r.below(6) as usize).min(rows.len() - i); out.push(batch(&rows[i..i + n], v)); i += n; }
    if out.is_empty() || r.chance(10) { out.push(batch(&[], v)); }
    out
}
pub fn schema(v: &DataType) -> Arc<Schema> {
    Arc::new(Schema::new(vec![Field::new("project_id", DataType::Int64, false), Field::new("user_id", DataType::Int64, false), Field::new("ts", DataType::Timestamp(TimeUnit::Millisecond, None), false), Field::new("take", DataType::Boolean, true), Field::new("v", v.clone(), true), Field::new("g", DataType::Int64, true), Field::new("h", DataType::Utf8, true)]))
}
pub fn column(v: &[Option<i64>], t: &DataType) -> ArrayRef {
    match t {
        DataType::Int8 => Arc::new(v.iter().map(|x| x.map(|x| x as i8)).collect::<Int8Array>()), DataType::Int16 => Arc::new(v.iter().map(|x| x.map(|x| x as i16)).collect::<Int16Array>()), DataType::Int32 => Arc::new(v.iter().map(|x| x.map(|x| x as i32)).collect::<Int32Array>()), DataType::Int64 => Arc::new(v.iter().copied().collect::<Int64Array>()),
        DataType::UInt8 => Arc::new(v.iter().map(|x| x.map(|x| x as u8)).collect::<UInt8Array>()), DataType::UInt16 => Arc::new(v.iter().map(|x| x.map(|x| x as u16)).collect::<UInt16Array>()), DataType::UInt32 => Arc::new(v.iter().map(|x| x.map(|x| x as u32)).collect::<UInt32Array>()), DataType::UInt64 => Arc::new(v.iter().map(|x| x.map(|x| x as u64)).collect::<UInt64Array>()),
        DataType::Float32 => Arc::new(v.iter().map(|x| x.map(|x| x as f32)).collect::<Float32Array>()), DataType::Float64 => Arc::new(v.iter().map(|x| x.map(|x| x as f64)).collect::<Float64Array>()),
        DataType::Decimal128(_, _) => Arc::new(v.iter().map(|x| x.map(|x| x as i128)).collect::<Decimal128Array>().with_precision_and_scale(DECIMAL_PRECISION, DECIMAL_SCALE).unwrap()),
        _ => panic!("no column of {t:?}"),
    }
}
pub fn decimal() -> DataType { DataType::Decimal128(DECIMAL_PRECISION, DECIMAL_SCALE) }
pub fn batch(rows: &[Row], v: &DataType) -> RecordBatch {
    RecordBatch::try_new(schema(v), vec![
        Arc::new(rows.iter().map(|_| Some(1)).collect::<Int64Array>()), Arc::new(rows.iter().map(|r| Some(r.user)).collect::<Int64Array>()), Arc::new(rows.iter().map(|r| Some(r.ts)).collect::<TimestampMillisecondArray>()),
        Arc::new(rows.iter().map(|r| r.take).collect::<BooleanArray>()), column(&rows.iter().map(|r| r.v).collect::<Vec<_>>(), v), Arc::new(rows.iter().map(|r| r.g).collect::<Int64Array>()), Arc::new(rows.iter().map(|r| r.h.clone()).collect::<StringArray>())]).unwrap()
}
pub fn show(rows: &[Row]) -> String { rows.iter().map(|r| format!("(u{} t{} {} v={} g={} h={})", r.user, r.ts, match r.take { Some(true) => "take", Some(false) => "skip", None => "null" }, r.v.map_or("-".into(), |v| v.to_string()), r.g.map_or("-".into(), |v| v.to_string()), r.h.clone().unwrap_or("-".into()))).collect::<Vec<_>>().join(" ") }
