//! Histories of one table, stopped and started again, compared with the columns and rows they should leave.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
use arrow2::array::Cell;
use arrow2::datatypes::{DataType, Schema};
use arrow2::io::parquet::read;
use common::types::DType;
use h_lib::{Rng, Run};
use storage::db::{OptiDBImpl, Options};
use storage::error::StoreError;
use storage::{table, NamedValue, Value};
use crate::faults;

#[derive(Clone, Debug, PartialEq)] pub struct Col { name: String, dt: DType, nullable: bool }
type Row = BTreeMap<String, String>;
#[derive(Clone, Debug)] pub struct Model { cols: Vec<Col>, rows: Vec<Row>, ic: usize }

fn cell(c: &Cell) -> String { match c { Cell::I(v) => format!("{v}"), Cell::F(v) => format!("{v}"), Cell::B(v) => format!("{v}"), Cell::S(v) => format!("{v:?}") } }
fn shown(v: &Value) -> Option<String> {
    match v {
        Value::Int8(Some(v)) => Some(format!("{v}")), Value::Int16(Some(v)) => Some(format!("{v}")), Value::Int32(Some(v)) => Some(format!("{v}")), Value::Int64(Some(v)) => Some(format!("{v}")),
        Value::Timestamp(Some(v)) => Some(format!("{v}")), Value::Decimal(Some(v)) => Some(format!("{v}")), Value::Boolean(Some(v)) => Some(format!("{v}")), Value::String(Some(v)) => Some(format!("{v:?}")),
        _ => None,
    }
}
fn fits(dt: &DType, a: &DataType) -> bool { matches!((dt, a), (DType::String, DataType::Utf8) | (DType::Int8, DataType::Int8) | (DType::Int16, DataType::Int16) | (DType::Int32, DataType::Int32) | (DType::Int64, DataType::Int64) | (DType::Decimal, DataType::Decimal(_, _)) | (DType::Boolean, DataType::Boolean) | (DType::Timestamp, DataType::Timestamp(_, _))) }
const TYPES: [DType; 8] = [DType::String, DType::Int8, DType::Int16, DType::Int32, DType::Int64, DType::Decimal, DType::Boolean, DType::Timestamp];
fn value(r: &mut Rng, dt: &DType, null: bool) -> Value {
    let i = r.int();
    match dt {
        DType::String => Value::String((!null).then(|| r.string(12))), DType::Int8 => Value::Int8((!null).then_some(i as i8)), DType::Int16 => Value::Int16((!null).then_some(i as i16)), DType::Int32 => Value::Int32((!null).then_some(i as i32)),
        DType::Int64 => Value::Int64((!null).then_some(i)), DType::Decimal => Value::Decimal((!null).then_some(i as i128 * 1000003)), DType::Boolean => Value::Boolean((!null).then_some(i & 1 == 1)), DType::Timestamp => Value::Timestamp((!null).then_some(i)),
        _ => unreachable!(),
    }
}
pub fn options(ic: usize, max_log: usize) -> table::Options {
    table::Options { index_cols: ic, is_replacing: false, levels: 3, l0_max_parts: 100000, l1_max_size_bytes: 1 << 30, level_size_multiplier: 10, max_log_length_bytes: max_log, merge_max_l1_part_size_bytes: 1 << 20, merge_part_size_multiplier: 10, merge_data_page_size_limit_bytes: Some(1 << 20), merge_row_group_values_limit: 1000, merge_array_size: 100, merge_chunk_size: 100, merge_array_page_size: 100, merge_max_page_size: 1 << 20 }
}
fn missing(schema: &Schema, m: &Model) -> Result<(), String> {
    let got: Vec<_> = schema.fields.iter().map(|f| (f.name.clone(), f.is_nullable)).collect();
    let want: Vec<_> = m.cols.iter().map(|c| (c.name.clone(), c.nullable)).collect();
    if got != want { return Err(format!("columns {got:?}, want {want:?}")); }
    for (f, c) in schema.fields.iter().zip(&m.cols) { if !fits(&c.dt, &f.data_type) { return Err(format!("column {} has type {:?}, want {:?}", c.name, f.data_type, c.dt)); } }
    Ok(())
}
/// the rows of the table, read from its parts once everything in memory is flushed
fn rows(db: &OptiDBImpl, tbl: &str) -> Result<Vec<Row>, String> {
    db.flush(tbl).map_err(|e| format!("flush: {e:?}"))?;
    let mut out = vec![];
    for p in db.parts_path(tbl).map_err(|e| format!("{e:?}"))? {
        let mut f = std::fs::File::open(&p).map_err(|e| format!("part {p}: {e}"))?;
        let md = read::read_metadata(&mut f).map_err(|e| format!("part {p}: {e:?}"))?;
        for g in &md.row_groups {
            let n = g.cols.first().map_or(0, |c| c.1.len());
            for i in 0..n { out.push(md.schema.fields.iter().zip(&g.cols).filter_map(|(f, c)| c.1[i].as_ref().map(|v| (f.name.clone(), cell(v)))).collect()); }
        }
    }
    out.sort();
    Ok(out)
}
fn same(got: &[Row], m: &Model) -> Result<(), String> {
    let mut want = m.rows.clone(); want.sort();
    if got == want { return Ok(()); }
    let lost: Vec<_> = want.iter().filter(|r| got.iter().filter(|x| x == r).count() < want.iter().filter(|x| x == r).count()).take(3).collect();
    let extra: Vec<_> = got.iter().filter(|r| want.iter().filter(|x| x == r).count() < got.iter().filter(|x| x == r).count()).take(3).collect();
    Err(format!("{} rows, want {}; lost {lost:?}; not inserted {extra:?}", got.len(), want.len()))
}
fn copy(a: &Path, b: &Path) { std::fs::create_dir_all(b).unwrap(); for f in std::fs::read_dir(a).unwrap() { let f = f.unwrap(); let t = b.join(f.file_name()); if f.file_type().unwrap().is_dir() { copy(&f.path(), &t) } else { std::fs::copy(f.path(), t).unwrap(); } } }
pub struct Place { root: PathBuf, n: u64, opens: u64, since: Instant }
impl Place {
    pub fn new() -> Self { let root = std::env::temp_dir().join(format!("h-storage-{}", std::process::id())); std::fs::create_dir_all(&root).unwrap(); Place { root, n: 0, opens: 0, since: Instant::now() } }
    pub fn fresh(&mut self) -> PathBuf { self.n += 1; let p = self.root.join(self.n.to_string()); std::fs::create_dir_all(&p).unwrap(); p }
    pub fn open(&mut self, p: &Path) -> Result<OptiDBImpl, StoreError> { self.opens += 1; self.since = Instant::now(); OptiDBImpl::open(p.into(), Options {}) }
    pub fn stop(&self, db: OptiDBImpl, dir: Option<PathBuf>) { std::thread::spawn(move || { drop(db); if let Some(d) = dir { let _ = std::fs::remove_dir_all(d); } }); }
    /// the background workers sleep for a second first; what they do is not part of these histories
    pub fn alone(&self) -> bool { self.since.elapsed() < Duration::from_millis(600) }
    pub fn more(&self) -> bool { self.opens < 4000 }
}
impl Drop for Place { fn drop(&mut self) { std::thread::sleep(Duration::from_millis(1200)); let _ = std::fs::remove_dir_all(&self.root); } }

#[derive(Clone, Debug)] enum Op { Insert(Vec<(String, Value)>), Add(Col), Flush }
fn names(r: &mut Rng) -> String { if r.chance(12) { return r.pick(&["C1", "C2", "C3", "c1 ", " c2", "c", "c10 ", "K0", "k", "k00"]).to_string(); } if r.chance(10) { r.string(4) + "col" } else { format!("c{}", r.below(12)) } }
/// an operation the table must accept
fn good(r: &mut Rng, m: &Model) -> Op {
    let full = m.cols.len() > m.ic + 6;
    match r.below(10) {
        0..=5 => {
            let mut v: Vec<(String, Value)> = m.cols[..m.ic].iter().map(|c| (c.name.clone(), value(r, &c.dt, false))).collect();
            let mut rest: Vec<(String, Value)> = vec![];
            for c in &m.cols[m.ic..] { if r.chance(75) { let null = r.chance(15); rest.push((c.name.clone(), value(r, &c.dt, null))); } }
            for i in (1..rest.len()).rev() { let j = r.below(i as u64 + 1) as usize; rest.swap(i, j); }
            v.extend(rest);
            Op::Insert(v)
        }
        6 | 7 if !full => loop { let name = names(r); if m.cols.iter().all(|c| c.name != name) { break Op::Add(Col { name, dt: r.pick(&TYPES).clone(), nullable: r.chance(80) }); } },
        _ => Op::Flush,
    }
}
/// an operation the table must refuse
fn bad(r: &mut Rng, m: &Model) -> Op {
    let mut v = match loop { if let Op::Insert(v) = good(r, m) { break v } } { v => v };
    match r.below(3) {
        0 => { let i = m.ic + r.below((v.len() - m.ic) as u64 + 1) as usize; let mut name = names(r); while m.cols.iter().any(|c| c.name == name) { name.push('_'); } let dt = r.pick(&TYPES).clone(); let x = value(r, &dt, false); v.insert(i, (name, x)); Op::Insert(v) }
        1 if v.len() > m.ic => { let i = m.ic + r.below((v.len() - m.ic) as u64) as usize; let c = m.cols.iter().find(|c| c.name == v[i].0).unwrap(); let dt = loop { let d = r.pick(&TYPES).clone(); if d != c.dt { break d; } }; let null = r.chance(20); v[i].1 = if r.chance(10) { Value::ListInt64(Some(vec![Some(1)])) } else { value(r, &dt, null) }; Op::Insert(v) }
        _ => { let c = r.pick(&m.cols).clone(); Op::Add(Col { name: c.name, dt: r.pick(&TYPES).clone(), nullable: r.bool() }) }
    }
}
fn apply(db: &OptiDBImpl, o: &Op) -> Result<(), StoreError> {
    match o { Op::Insert(v) => db.insert("t", v.iter().map(|(n, v)| NamedValue::new(n.clone(), v.clone())).collect()), Op::Add(c) => db.add_field("t", &c.name, c.dt.clone(), c.nullable), Op::Flush => db.flush("t") }
}
fn after(m: &Model, o: &Op) -> Model {
    let mut m = m.clone();
    match o { Op::Insert(v) => m.rows.push(v.iter().filter_map(|(n, v)| shown(v).map(|s| (n.clone(), s))).collect()), Op::Add(c) => m.cols.push(c.clone()), Op::Flush => {} }
    m
}
fn start(run: &mut Run, place: &mut Place, log: &mut Vec<String>) -> (PathBuf, OptiDBImpl, Model) {
    let ic = 1 + run.rng.below(2) as usize;
    let max = *run.rng.pick(&[1usize, 150, 400, 1 << 30, 1 << 30]);
    log.push(format!("create_table index_cols {ic} max_log_length_bytes {max}"));
    let dir = place.fresh();
    let db = place.open(&dir).unwrap();
    db.create_table("t".into(), options(ic, max)).unwrap();
    let mut m = Model { cols: vec![], rows: vec![], ic };
    for i in 0..ic { let c = Col { name: format!("k{i}"), dt: DType::Int64, nullable: false }; db.add_field("t", &c.name, c.dt.clone(), c.nullable).unwrap(); m.cols.push(c); }
    (dir, db, m)
}
fn judge(db: &OptiDBImpl, before: &Model, then: &Model) -> Result<bool, String> {
    let s = db.schema("t").map_err(|e| format!("{e:?}"))?;
    let got = rows(db, "t")?;
    match missing(&s, then).and_then(|_| same(&got, then)) { Ok(()) => Ok(true), Err(e) => missing(&s, before).and_then(|_| same(&got, before)).map(|_| false).map_err(|e2| if before.rows == then.rows && before.cols == then.cols { e2 } else { format!("neither as before the operation ({e2}) nor as after it ({e})") }) }
}
pub fn s01(run: &mut Run) {
    run.rule("a table's history of inserts, column additions and flushes on the compiled storage crate, with the process stopped at a random file-changing call (or between operations) and started again; non-null values per row, expected from the acknowledged operations");
    let mut place = Place::new();
    while run.time_left() && place.more() && !run.failed("acknowledged") {
        let mut log = vec![];
        let (mut dir, mut db, mut m) = start(run, &mut place, &mut log);
        for _ in 0..1 + run.rng.below(4) {
            let n = run.rng.below(9);
            let mut done = true;
            for _ in 0..n { let o = good(&mut run.rng, &m); log.push(format!("{o:?}")); match h_lib::silence(|| apply(&db, &o)) { Ok(Ok(())) => m = after(&m, &o), r => { if place.alone() { run.check("acknowledged", log.join("; "), || Err(format!("refused: {r:?}"))); } done = false; break } } }
            if !done { break; }
            // the last operation, cut short
            let o = good(&mut run.rng, &m);
            let at = run.rng.below(7);
            let tear = if run.rng.bool() { 0 } else { 1 + run.rng.below(999) };
            let then = after(&m, &o);
            let cut = run.rng.chance(80);
            if cut { log.push(format!("{o:?} stopped at file change {at}, {tear}/1000 of it written")); faults::arm(at, tear); } else { log.push("stopped".into()); }
            let r = if cut { h_lib::silence(|| apply(&db, &o)) } else { Ok(Err(StoreError::Internal("not run".into()))) };
            let hit = faults::disarm();
            let acked = cut && matches!(r, Ok(Ok(())));
            if !place.alone() { break; }
            let next = place.fresh();
            copy(&dir, &next);
            if !place.alone() { let _ = std::fs::remove_dir_all(&next); break; }
            place.stop(db, Some(dir));
            dir = next;
            let before = if acked || !cut { if acked { then.clone() } else { m.clone() } } else { m.clone() };
            let then = if cut { then } else { m.clone() };
            let opened = place.open(&dir);
            let mut now = None;
            let mut keep = None;
            run.check("acknowledged", format!("{}; {}started again", log.join("; "), if hit { "" } else { "completed; " }), || {
                if cut && !hit && !acked { return Err(format!("failed without a file change failing: {r:?}")); }
                let d = opened.map_err(|e| format!("the store does not open: {e:?}"))?;
                // a second start, from the log as recovery left it
                let j = { let mut t = PathBuf::from(&dir); t.set_extension("j"); copy(&dir, &t); let e = OptiDBImpl::open(t.clone(), Options {}).map_err(|e| format!("{e:?}"))?; let j = judge(&e, &before, &then); place.stop(e, Some(t)); j? };
                now = Some(if j { then.clone() } else { before.clone() });
                keep = Some(d);
                Ok(())
            });
            place.opens += 1;
            let (Some(d), Some(n)) = (keep, now) else { return };
            db = d; m = n;
            log.push(format!("started again with {} columns, {} rows", m.cols.len(), m.rows.len()));
        }
        if dir.exists() { place.stop(db, Some(dir)); }
    }
}
pub fn s05(run: &mut Run) {
    run.rule("a table's history of inserts and column additions on the compiled storage crate, some of which it must refuse; columns and rows read back afterwards");
    let mut place = Place::new();
    while run.time_left() && place.more() && !run.failed("schema") {
        let mut log = vec![];
        let (dir, db, mut m) = start(run, &mut place, &mut log);
        let n = run.rng.below(14);
        let mut fine = true;
        for _ in 0..n {
            let refuse = run.rng.chance(40);
            let o = if refuse { bad(&mut run.rng, &m) } else { good(&mut run.rng, &m) };
            log.push(format!("{o:?}"));
            let r = h_lib::silence(|| apply(&db, &o));
            if !place.alone() { break; }
            fine &= run.check("schema", log.join("; "), || match (&o, r) {
                (_, Ok(Ok(()))) if !refuse => Ok(()), (Op::Add(_), Ok(Err(StoreError::AlreadyExists(_)))) if refuse => Ok(()), (Op::Insert(_), Ok(Err(_))) if refuse => Ok(()),
                (_, r) => Err(format!("{}: {r:?}", if refuse { "must be refused" } else { "must be accepted" })) });
            if !fine { return; }
            if !refuse { m = after(&m, &o); }
        }
        if run.rng.chance(30) { let ic = 1 + run.rng.below(2) as usize; log.push("create_table t again".into()); run.check("schema", log.join("; "), || match db.create_table("t".into(), options(ic, 7)) { Err(StoreError::AlreadyExists(_)) => Ok(()), r => Err(format!("must be refused: {r:?}")) }); }
        if !place.alone() { place.stop(db, Some(dir)); continue; }
        let again = run.rng.bool();
        let db = if again { let next = place.fresh(); copy(&dir, &next); place.stop(db, Some(dir.clone())); log.push("started again".into()); match place.open(&next) { Ok(d) => { run.check("schema", log.join("; "), || judge(&d, &m, &m).map(|_| ())); place.stop(d, Some(next)); continue; } Err(e) => { run.check("schema", log.join("; "), || Err(format!("the store does not open: {e:?}"))); return; } } } else { db };
        run.check("schema", log.join("; "), || judge(&db, &m, &m).map(|_| ()));
        place.stop(db, Some(dir));
    }
}
