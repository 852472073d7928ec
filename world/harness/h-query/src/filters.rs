//! Q04, Q05: the condition a query puts on its rows, evaluated on random rows and compared with the request read by hand.
use std::collections::BTreeMap; use std::sync::Arc;
use arrow::array::*; use arrow::datatypes::{DataType, Field, Schema, TimeUnit};
use chrono::{DateTime, Utc};
use common::funnel; use common::query::*; use common::types::*; use common::event_segmentation as es;
use datafusion::prelude::SessionContext; use datafusion_common::{DFSchema, ScalarValue, ToDFSchema}; use datafusion_expr::{EmptyRelation, Expr, LogicalPlan};
use h_lib::{Rng, Run}; use metadata::properties::*; use metadata::MetadataProvider; use query::context::{Context, Format}; use query::expr::*;

const TEXTS: [&str; 6] = ["red", "green", "blue", "dark red", "Red", "greenish"];
/// the properties of every project: name, type, dictionary, group
#[derive(Clone, Copy, PartialEq, Debug)] enum K { Text, Plain, Num, Dec, Flag, When }
const PROPS: [(&str, K, Option<DictionaryType>, Option<usize>); 10] = [("Colour", K::Text, Some(DictionaryType::Int8), None), ("Shade", K::Text, Some(DictionaryType::Int32), None), ("Note", K::Plain, None, None), ("Count", K::Num, None, None), ("Price", K::Dec, None, None), ("Paid", K::Flag, None, None), ("Due", K::When, None, None), ("City", K::Text, Some(DictionaryType::Int16), Some(0)), ("Age", K::Num, None, Some(1)), ("Tier", K::Text, Some(DictionaryType::Int8), Some(2))];
#[derive(Clone, PartialEq, Debug)] enum V { S(String), N(i64), D(i128), B(bool), T(i64) }
#[derive(Clone, Debug)] struct Row { project: i64, event: i64, at: i64, v: Vec<Option<V>> }
struct Plot { md: Arc<MetadataProvider>, cols: BTreeMap<(u64, usize), String>, events: Vec<(String, u64)>, custom: Vec<(u64, Vec<(EventRef, Option<Vec<PropValueFilter>>)>)>, keys: BTreeMap<(u64, usize, String), u64>, project: u64 }
pub struct World { opti: Arc<storage::db::OptiDBImpl>, dir: std::path::PathBuf }
impl World { pub fn new() -> Self {
    let dir = std::env::temp_dir().join(format!("h-query-{}", std::process::id())); let _ = std::fs::remove_dir_all(&dir); std::fs::create_dir_all(&dir).unwrap();
    let o = Arc::new(storage::db::OptiDBImpl::open(dir.join("db"), storage::db::Options {}).unwrap());
    o.create_table(TABLE_EVENTS.to_string(), storage::table::Options::test(false)).unwrap();
    for g in 0..common::GROUPS_COUNT { o.create_table(common::group_col(g), storage::table::Options::test(true)).unwrap(); }
    World { opti: o, dir } } }
impl Drop for World { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.dir); } }
fn pref(i: usize) -> PropertyRef { match PROPS[i].3 { Some(g) => PropertyRef::Group(PROPS[i].0.into(), g), None => PropertyRef::Event(PROPS[i].0.into()) } }
fn table(i: usize) -> String { match PROPS[i].3 { Some(g) => common::group_col(g), None => TABLE_EVENTS.to_string() } }
impl World { fn plot(&self, r: &mut Rng) -> Plot {
    let md = Arc::new(MetadataProvider::try_new(Arc::new(rocksdb::TransactionDB::in_memory()), self.opti.clone()).unwrap());
    let mut cols = BTreeMap::new(); let mut keys = BTreeMap::new(); let mut events = vec![]; let project = 1 + r.below(2);
    for p in [1u64, 2] {
        let mut order: Vec<usize> = (0..PROPS.len()).collect(); for i in (1..order.len()).rev() { let j = r.below(i as u64 + 1) as usize; order.swap(i, j); }
        for i in order { let (name, k, dict, g) = PROPS[i].clone();
            let dt = match k { K::Text | K::Plain => DType::String, K::Num => DType::Int64, K::Dec => DType::Decimal, K::Flag => DType::Boolean, K::When => DType::Timestamp };
            let q = CreatePropertyRequest { created_by: 0, tags: None, name: name.into(), description: None, display_name: None, typ: match g { Some(g) => Type::Group(g), None => Type::Event }, data_type: dt, status: Status::Enabled, hidden: false, is_system: false, nullable: true, is_array: false, is_dictionary: dict.is_some(), dictionary_type: dict };
            let pr = match g { Some(g) => md.group_properties[g].create(p, q), None => md.event_properties.create(p, q) }.unwrap(); cols.insert((p, i), pr.column_name());
            if k == K::Text { let mut t: Vec<&str> = TEXTS.to_vec(); for x in (1..t.len()).rev() { let j = r.below(x as u64 + 1) as usize; t.swap(x, j); } t.truncate(5); for s in t { let key = md.dictionaries.get_key_or_create(p, &table(i), &pr.column_name(), s).unwrap(); keys.insert((p, i, s.to_string()), key); } } }
        for n in ["Open", "Buy", "Close"] { let e = md.events.create(p, metadata::events::CreateEventRequest { created_by: 0, tags: None, name: n.into(), display_name: None, description: None, status: metadata::events::Status::Enabled, is_system: false, event_properties: None, user_properties: None, custom_properties: None }).unwrap(); if p == project { events.push((n.to_string(), e.id)); } }
    }
    let mut w = Plot { md, cols, events, custom: vec![], keys, project };
    for n in 0..2 + r.below(2) {
        let mut parts = vec![]; for _ in 0..1 + r.below(3) { let e = if n > 0 && r.chance(40) { let (id, _) = r.pick(&w.custom); EventRef::Custom(*id) } else { EventRef::RegularName(r.pick(&w.events).0.clone()) }; let f = if r.chance(50) { Some((0..1 + r.below(2)).map(|_| stored(w.filter(r, None, false))).collect()) } else { None }; parts.push((e, f)); }
        let q = metadata::custom_events::CreateCustomEventRequest { created_by: 0, tags: None, name: format!("custom {n}"), description: None, status: metadata::custom_events::Status::Enabled, is_system: false, events: parts.iter().map(|(e, f): &(EventRef, Option<Vec<PropValueFilter>>)| metadata::custom_events::Event { event: e.clone(), filters: f.clone() }).collect() };
        if let Ok(Ok(c)) = h_lib::silence(|| w.md.custom_events.create(w.project, q)) { w.custom.push((c.id, parts)); }
    }
    w } }
/// decimals as the store of custom events keeps them
fn stored(f: PropValueFilter) -> PropValueFilter { let PropValueFilter::Property { property, operation, value } = f; PropValueFilter::Property { property, operation, value: value.map(|v| v.into_iter().map(|s| match s { ScalarValue::Decimal128(Some(n), p, 0) => ScalarValue::Decimal128(Some(n * 10i128.pow(common::DECIMAL_SCALE as u32)), p, common::DECIMAL_SCALE), s => s }).collect()) } }
fn scalar(r: &mut Rng, k: K) -> ScalarValue { match k {
    K::Text | K::Plain => ScalarValue::Utf8(Some(r.pick(&TEXTS).to_string())), K::Num => if r.bool() { ScalarValue::Int64(Some(r.range(-2, 3))) } else { ScalarValue::Decimal128(Some(r.range(-2, 3) as i128), common::DECIMAL_PRECISION, 0) },
    K::Dec => ScalarValue::Decimal128(Some(r.range(-2, 3) as i128), common::DECIMAL_PRECISION, 0), K::Flag => ScalarValue::Boolean(Some(r.bool())), K::When => ScalarValue::TimestampMillisecond(Some(1_700_000_000_000 + r.range(-2, 2)), None) } }
/// the pattern filters used: literal text, perhaps after and before anything
fn pattern(r: &mut Rng) -> (String, String) { let t = *r.pick(&["red", "green", "e", "blue", "Red"]); match r.below(4) { 0 => (t.into(), t.into()), 1 => (format!("{t}%"), t.into()), 2 => (format!("%{t}"), t.into()), _ => (format!("%{t}%"), t.into()) } }
fn like(s: &str, p: &str) -> bool { let (a, b) = (p.starts_with('%'), p.ends_with('%')); let t = p.trim_matches('%'); match (a, b) { (false, false) => s == t, (false, true) => s.starts_with(t), (true, false) => s.ends_with(t), _ => s.contains(t) } }
impl Plot {
    fn filter(&self, r: &mut Rng, only: Option<usize>, textual: bool) -> PropValueFilter {
        let i = only.unwrap_or_else(|| r.below(PROPS.len() as u64) as usize); let k = PROPS[i].1;
        let text = k == K::Plain || (k == K::Text && textual);
        let op = loop { let o = r.pick(&[PropValueOperation::Eq, PropValueOperation::Neq, PropValueOperation::Gt, PropValueOperation::Gte, PropValueOperation::Lt, PropValueOperation::Lte, PropValueOperation::True, PropValueOperation::False, PropValueOperation::Exists, PropValueOperation::Empty, PropValueOperation::Like, PropValueOperation::NotLike, PropValueOperation::Regex, PropValueOperation::NotRegex]).clone();
            let ok = match o { PropValueOperation::Like | PropValueOperation::NotLike | PropValueOperation::Regex | PropValueOperation::NotRegex => text, PropValueOperation::True | PropValueOperation::False => k == K::Flag, PropValueOperation::Gt | PropValueOperation::Gte | PropValueOperation::Lt | PropValueOperation::Lte => !matches!(k, K::Flag | K::Text | K::Plain), _ => true };
            if ok { break o; } };
        let pat = matches!(op, PropValueOperation::Like | PropValueOperation::NotLike); let reg = matches!(op, PropValueOperation::Regex | PropValueOperation::NotRegex);
        let one = |r: &mut Rng| if pat { ScalarValue::Utf8(Some(pattern(r).0)) } else if reg { ScalarValue::Utf8(Some(pattern(r).1)) } else { loop { let s = scalar(r, k); if let (K::Text, ScalarValue::Utf8(Some(t))) = (k, &s) { if !self.keys.contains_key(&(self.project, i, t.clone())) && !r.chance(3) { continue; } } break s; } };
        let value = if op.is_without_value() { if r.chance(80) { None } else { Some(vec![]) } } else { Some((0..1 + r.below(3)).map(|_| one(r)).collect()) };
        PropValueFilter::Property { property: pref(i), operation: op, value }
    }
    fn index(&self, p: &PropertyRef) -> usize { (0..PROPS.len()).find(|i| pref(*i) == *p).unwrap() }
    /// can the condition be built at all: every text named is known
    fn known(&self, f: &PropValueFilter) -> bool { let PropValueFilter::Property { property, operation, value } = f; let i = self.index(property); if operation.is_without_value() { return true; } let Some(vs) = value else { return false }; if vs.is_empty() { return false; }
        PROPS[i].1 != K::Text || matches!(operation, PropValueOperation::Like | PropValueOperation::NotLike | PropValueOperation::Regex | PropValueOperation::NotRegex) || vs.iter().all(|v| matches!(v, ScalarValue::Utf8(Some(t)) if self.keys.contains_key(&(self.project, i, t.clone())))) }
    fn knows(&self, e: &EventRef) -> bool { match e { EventRef::RegularName(n) => self.events.iter().any(|x| x.0 == *n), EventRef::Regular(_) => true, EventRef::Custom(id) => match self.custom.iter().find(|c| c.0 == *id) { Some(c) => c.1.iter().all(|(e, f)| self.knows(e) && f.iter().flatten().all(|f| self.known(f))), None => false } } }
    fn passes(&self, f: &PropValueFilter, row: &Row) -> Option<bool> { let PropValueFilter::Property { property, operation, value } = f; let v = &row.v[self.index(property)];
        match operation { PropValueOperation::Exists => return Some(v.is_some()), PropValueOperation::Empty => return Some(v.is_none()), PropValueOperation::True => return Some(*v == Some(V::B(true))), PropValueOperation::False => return Some(*v == Some(V::B(false))), _ => {} }
        let v = v.as_ref()?; let vs = value.as_ref().unwrap();
        let ord = |s: &ScalarValue| -> std::cmp::Ordering { match (v, s) { (V::S(a), ScalarValue::Utf8(Some(b))) => a.cmp(b), (V::N(a), ScalarValue::Int64(Some(b))) => a.cmp(b), (V::N(a), ScalarValue::Decimal128(Some(b), _, s)) => (*a as i128 * 10i128.pow(*s as u32)).cmp(b), (V::D(a), ScalarValue::Decimal128(Some(b), _, s)) => a.cmp(&(b * 10i128.pow((common::DECIMAL_SCALE - *s) as u32))), (V::B(a), ScalarValue::Boolean(Some(b))) => a.cmp(b), (V::T(a), ScalarValue::TimestampMillisecond(Some(b), _)) => a.cmp(b), x => panic!("{x:?}") } };
        let text = |s: &ScalarValue| match (v, s) { (V::S(a), ScalarValue::Utf8(Some(p))) => (a.clone(), p.clone()), x => panic!("{x:?}") };
        use std::cmp::Ordering::*;
        Some(match operation { PropValueOperation::Eq => vs.iter().any(|s| ord(s) == Equal), PropValueOperation::Neq => vs.iter().all(|s| ord(s) != Equal), PropValueOperation::Gt => vs.iter().any(|s| ord(s) == Greater), PropValueOperation::Gte => vs.iter().any(|s| ord(s) != Less), PropValueOperation::Lt => vs.iter().any(|s| ord(s) == Less), PropValueOperation::Lte => vs.iter().any(|s| ord(s) != Greater),
            PropValueOperation::Like => vs.iter().any(|s| { let (a, p) = text(s); like(&a, &p) }), PropValueOperation::NotLike => vs.iter().all(|s| { let (a, p) = text(s); !like(&a, &p) }), PropValueOperation::Regex => vs.iter().any(|s| { let (a, p) = text(s); a.contains(&p) }), _ => vs.iter().all(|s| { let (a, p) = text(s); !a.contains(&p) }) }) }
    fn all(&self, fs: &Option<Vec<PropValueFilter>>, row: &Row) -> bool { fs.iter().flatten().all(|f| self.passes(f, row) == Some(true)) }
    fn is(&self, e: &EventRef, row: &Row) -> bool { match e { EventRef::RegularName(n) => self.events.iter().any(|x| x.0 == *n && x.1 as i64 == row.event), EventRef::Regular(id) => *id as i64 == row.event, EventRef::Custom(id) => self.custom.iter().find(|c| c.0 == *id).unwrap().1.iter().any(|(e, f)| self.is(e, row) && self.all(f, row)) } }
    fn event(&self, r: &mut Rng) -> EventRef { match r.below(6) { 0 | 1 => EventRef::RegularName(r.pick(&self.events).0.clone()), 2 => EventRef::Regular(r.pick(&self.events).1), 3 => EventRef::Regular(r.pick(&self.events).1 + (1 << *r.pick(&[16, 32]))), 4 if r.chance(5) => EventRef::RegularName("Nothing".into()), _ => match self.custom.len() { 0 => EventRef::RegularName(r.pick(&self.events).0.clone()), n => EventRef::Custom(self.custom[r.below(n as u64) as usize].0) } } }
    fn rows(&self, r: &mut Rng, n: usize, centre: i64) -> Vec<Row> { (0..n).map(|_| Row { project: if r.chance(70) { self.project as i64 } else { *r.pick(&[1, 2, 3]) }, event: { let e = r.pick(&self.events).1 as i64; if r.chance(15) { e + (1 << *r.pick(&[16, 32])) } else { e } }, at: centre + *r.pick(&[-1i64, 0, 1, 500, 1000, 86_400_000, -86_400_000, 3_600_000, -3_600_000]),
        v: (0..PROPS.len()).map(|i| if r.chance(20) { None } else { Some(match PROPS[i].1 { K::Text => { let t: Vec<&String> = self.keys.keys().filter(|k| k.0 == self.project && k.1 == i).map(|k| &k.2).collect(); V::S((*r.pick(&t)).clone()) } K::Plain => V::S(r.pick(&TEXTS).to_string()), K::Num => V::N(r.range(-2, 3)), K::Dec => V::D(r.range(-2, 3) as i128 * 10i128.pow(common::DECIMAL_SCALE as u32) + if r.chance(30) { 1 } else { 0 }), K::Flag => V::B(r.bool()), K::When => V::T(1_700_000_000_000 + r.range(-2, 2)) }) }).collect() }).collect() }
    fn kind(&self, i: usize) -> DataType { match PROPS[i].1 { K::Text => match PROPS[i].2.as_ref().unwrap() { DictionaryType::Int8 => DataType::Int8, DictionaryType::Int16 => DataType::Int16, DictionaryType::Int32 => DataType::Int32, DictionaryType::Int64 => DataType::Int64 }, K::Plain => DataType::Utf8, K::Num => DataType::Int64, K::Dec => DataType::Decimal128(common::DECIMAL_PRECISION, common::DECIMAL_SCALE), K::Flag => DataType::Boolean, K::When => DataType::Timestamp(TimeUnit::Millisecond, None) } }
    fn schema(&self) -> Schema { let mut f = vec![Field::new(COLUMN_PROJECT_ID, DataType::Int64, false), Field::new(COLUMN_EVENT, DataType::Int64, false), Field::new(COLUMN_CREATED_AT, DataType::Timestamp(TimeUnit::Millisecond, None), false), Field::new(COLUMN_EVENT_ID, DataType::Int64, false)]; for g in 0..common::GROUPS_COUNT { f.push(Field::new(common::group_col(g), DataType::Int64, true)); } for i in 0..PROPS.len() { f.push(Field::new(&self.cols[&(self.project, i)], self.kind(i), true)); } Schema::new(f) }
    /// the rows as a batch of the given schema: a dictionary column holds codes, or text where the plan has decoded it
    fn batch(&self, s: &Schema, rows: &[Row]) -> RecordBatch {
        let cols: Vec<ArrayRef> = s.fields().iter().map(|f| { let n = f.name().as_str();
            let ints = |v: Vec<i64>| -> ArrayRef { Arc::new(Int64Array::from(v)) };
            if n == COLUMN_PROJECT_ID { return ints(rows.iter().map(|r| r.project).collect()); } if n == COLUMN_EVENT { return ints(rows.iter().map(|r| r.event).collect()); }
            if n == COLUMN_CREATED_AT { let t: Vec<i64> = rows.iter().map(|r| r.at).collect(); return Arc::new(TimestampMillisecondArray::from(t)); }
            let Some(i) = (0..PROPS.len()).find(|i| self.cols[&(self.project, *i)] == n) else { return ints((0..rows.len() as i64).collect()) };
            let vs: Vec<&Option<V>> = rows.iter().map(|r| &r.v[i]).collect();
            match PROPS[i].1 { K::Num => Arc::new(Int64Array::from_iter(vs.iter().map(|v| match v { Some(V::N(x)) => Some(*x), _ => None }))), K::Flag => Arc::new(BooleanArray::from_iter(vs.iter().map(|v| match v { Some(V::B(x)) => Some(*x), _ => None }))), K::When => Arc::new(TimestampMillisecondArray::from_iter(vs.iter().map(|v| match v { Some(V::T(x)) => Some(*x), _ => None }))),
                K::Dec => Arc::new(Decimal128Array::from_iter(vs.iter().map(|v| match v { Some(V::D(x)) => Some(*x), _ => None })).with_precision_and_scale(common::DECIMAL_PRECISION, common::DECIMAL_SCALE).unwrap()),
                K::Text if f.data_type() != &DataType::Utf8 => { let k: Vec<Option<i64>> = vs.iter().map(|v| match v { Some(V::S(x)) => Some(self.keys[&(self.project, i, x.clone())] as i64), _ => None }).collect(); arrow::compute::cast(&(Arc::new(Int64Array::from(k)) as ArrayRef), f.data_type()).unwrap() }
                _ => Arc::new(StringArray::from_iter(vs.iter().map(|v| match v { Some(V::S(x)) => Some(x.clone()), _ => None }))) } }).collect();
        RecordBatch::try_new(Arc::new(s.clone()), cols).unwrap()
    }
    fn ctx(&self, now: DateTime<Utc>) -> Context { Context { project_id: self.project, format: Format::Compact, cur_time: now } }
    /// which rows a condition keeps
    fn kept(&self, e: &Expr, s: &DFSchema, rows: &[Row]) -> Result<Vec<bool>, String> {
        let a: Schema = s.as_arrow().clone(); let b = self.batch(&a, rows);
        let p = SessionContext::new().create_physical_expr(e.clone(), s).map_err(|x| format!("{e}: {x}"))?;
        let v = p.evaluate(&b).and_then(|v| v.into_array(rows.len())).map_err(|x| format!("{e}: {x}"))?; let v = v.as_any().downcast_ref::<BooleanArray>().ok_or("not a condition")?.clone();
        Ok((0..rows.len()).map(|i| v.is_valid(i) && v.value(i)).collect()) }
}
fn compare(rows: &[Row], got: Vec<bool>, want: Vec<bool>, e: &str) -> Result<(), String> { for i in 0..rows.len() { if got[i] != want[i] { return Err(format!("row {:?} is {}, by {e}", rows[i], if got[i] { "kept but does not meet it" } else { "dropped but meets it" })); } } Ok(()) }
/// every row condition of a plan, from the outermost in
fn conditions(p: &LogicalPlan, out: &mut Vec<(Expr, Arc<DFSchema>)>) { if let LogicalPlan::Filter(f) = p { out.push((f.predicate.clone(), f.input.schema().clone())); } for i in p.inputs() { conditions(i, out); } }
fn time(r: &mut Rng, now: DateTime<Utc>) -> (QueryTime, i64, i64) { let n = now.timestamp_millis(); let ago = *r.pick(&[0i64, 1, 500, 1000, 86_400_000]); match r.below(3) {
    0 => { let (a, b) = (now - chrono::Duration::milliseconds(ago), now + chrono::Duration::milliseconds(*r.pick(&[0, 1, 500, 1000]))); (QueryTime::Between { from: a, to: b }, n - ago, b.timestamp_millis()) } 1 => (QueryTime::From(now - chrono::Duration::milliseconds(ago)), n - ago, n),
    _ => { let (u, l) = if r.bool() { (TimeIntervalUnit::Hour, 3_600_000) } else { (TimeIntervalUnit::Day, 86_400_000) }; (QueryTime::Last { last: 1, unit: u }, n - l, n) } } }

pub fn q05(t: &mut Run) {
    t.rule("random properties (coded and plain text, numbers, decimals, flags, instants, two groups), custom events, dictionaries and rows: the conditions built for random filters, events, time ranges and lists of them are evaluated by DataFusion and compared row by row with the request read directly");
    let world = World::new();
    while t.time_left() { let w = world.plot(&mut t.rng); let now = DateTime::from_timestamp_millis(1_700_000_000_000 + t.rng.range(0, 10) * 250).unwrap(); let ctx = w.ctx(now);
        let schema = w.schema(); let df = schema.clone().to_dfschema().unwrap();
        for _ in 0..40 { if !t.time_left() { break; }
            let rows = w.rows(&mut t.rng, 12, now.timestamp_millis());
            match t.rng.below(6) {
                0 | 1 => { let f = w.filter(&mut t.rng, None, false); let PropValueFilter::Property { property, operation, value } = f.clone(); let i = w.index(&property);
                    t.check("filter", format!("{f:?}"), || { let r = property_expression(&ctx, &w.md, &table(i), &property, &operation, value.clone());
                        match (r, w.known(&f)) { (Ok(e), true) => compare(&rows, w.kept(&e, &df, &rows)?, rows.iter().map(|x| w.passes(&f, x) == Some(true)).collect(), &e.to_string()), (Err(_), false) => Ok(()), (Ok(e), false) => Err(format!("names an unknown value but gives {e}")), (Err(e), true) => Err(format!("failed: {e:?}")) } }); }
                2 => { let fs: Vec<_> = (0..1 + t.rng.below(4)).map(|_| w.filter(&mut t.rng, None, false)).collect();
                    t.check("filters", format!("{fs:?}"), || { let r = event_filters_expression(&ctx, &w.md, &fs); match (r, fs.iter().all(|f| w.known(f))) { (Ok(e), true) => compare(&rows, w.kept(&e, &df, &rows)?, rows.iter().map(|x| w.all(&Some(fs.clone()), x)).collect(), &e.to_string()), (Err(_), false) => Ok(()), (Ok(e), false) => Err(format!("names an unknown value but gives {e}")), (Err(e), true) => Err(format!("failed: {e:?}")) } }); }
                3 => { let e = w.event(&mut t.rng); let shown = match &e { EventRef::Custom(id) => format!("{e:?} {:?}", w.custom.iter().find(|c| c.0 == *id).unwrap().1), _ => format!("{e:?} of {:?}", w.events) };
                    t.check("event", shown, || { let r = event_expression(&ctx, &w.md, &e); match (r, w.knows(&e)) { (Ok(x), true) => compare(&rows, w.kept(&x, &df, &rows)?, rows.iter().map(|r| w.is(&e, r)).collect(), &x.to_string()), (Err(_), false) => Ok(()), (Ok(x), false) => Err(format!("is unknown but gives {x}")), (Err(x), true) => Err(format!("failed: {x:?}")) } }); }
                4 => { let (q, from, to) = time(&mut t.rng, now); let unit = t.rng.pick(&[TimeUnit::Second, TimeUnit::Millisecond, TimeUnit::Microsecond, TimeUnit::Nanosecond]).clone();
                    let s = Schema::new(vec![Field::new("at", DataType::Timestamp(unit.clone(), None), false)]); let d = s.clone().to_dfschema().unwrap();
                    t.check("time", format!("{q:?} at {now:?}, a column of {unit:?}s"), || { let e = time_expression("at", &d, &q, now).map_err(|e| format!("failed: {e:?}"))?;
                        // instants around both ends, in the unit of the column
                        let per = |ms: i64| match unit { TimeUnit::Second => ms.div_euclid(1000), TimeUnit::Millisecond => ms, TimeUnit::Microsecond => ms * 1000, TimeUnit::Nanosecond => ms * 1_000_000 };
                        let v: Vec<i64> = [from, to].iter().flat_map(|x| (-1..=1).map(|d| per(*x) + d)).collect(); let a = arrow::compute::cast(&(Arc::new(Int64Array::from(v.clone())) as ArrayRef), &DataType::Timestamp(unit.clone(), None)).unwrap();
                        let b = RecordBatch::try_new(Arc::new(s.clone()), vec![a]).unwrap(); let p = SessionContext::new().create_physical_expr(e.clone(), &d).map_err(|x| x.to_string())?; let g = p.evaluate(&b).unwrap().into_array(v.len()).unwrap(); let g = g.as_any().downcast_ref::<BooleanArray>().unwrap();
                        for i in 0..v.len() { let want = per(from) <= v[i] && v[i] <= per(to); if g.value(i) != want { return Err(format!("instant {} is {}", v[i], if want { "dropped" } else { "kept" })); } } Ok(()) }); }
                _ => { let i = t.rng.below(PROPS.len() as u64) as usize; t.check("column", format!("{:?}", pref(i)), || { let want = Expr::Column(datafusion_common::Column::from_name(&w.cols[&(w.project, i)])); let a = property_col(&ctx, &w.md, &pref(i)).map_err(|e| format!("{e:?}"))?; let b = breakdown_expr(&ctx, &w.md, &Breakdown::Property(pref(i))).map_err(|e| format!("{e:?}"))?; if a != want || b != want { return Err(format!("reads {a} and {b}, want {want}")); } Ok(()) }); }
            }
            // a pattern on plain text, several values; a value that is missing
            let i = 2; let f = w.filter(&mut t.rng, Some(i), true); let PropValueFilter::Property { operation, .. } = &f;
            if !operation.is_without_value() { let none = if t.rng.bool() { None } else { Some(vec![]) }; t.check("no value", format!("{operation:?} with {none:?}"), || match property_expression(&ctx, &w.md, TABLE_EVENTS, &pref(i), operation, none.clone()) { Ok(e) => Err(format!("gives {e}")), Err(_) => Ok(()) }); }
            // instants given as numbers
            let n = 1 + t.rng.below(3); let f = PropValueFilter::Property { property: pref(6), operation: PropValueOperation::Eq, value: Some((0..n).map(|_| ScalarValue::Decimal128(Some(1_700_000_000_000 + t.rng.range(-2, 2) as i128), common::DECIMAL_PRECISION, 0)).collect()) };
            let mixed = PropValueFilter::Property { property: pref(6), operation: PropValueOperation::Eq, value: Some(vec![ScalarValue::Utf8(Some("x".into())), ScalarValue::Decimal128(Some(5), common::DECIMAL_PRECISION, 0)]) };
            t.check("instants", format!("{f:?}"), || { let _ = query::fix_filter(&w.md, w.project, &mixed); let g = query::fix_filter(&w.md, w.project, &f).map_err(|e| format!("{e:?}"))?; let PropValueFilter::Property { property, operation, value } = &f; let PropValueFilter::Property { property: p, operation: o, value: v } = &g; let set = |v: &Option<Vec<ScalarValue>>| { let mut x: Vec<i128> = v.iter().flatten().map(|s| match s { ScalarValue::Decimal128(Some(n), _, _) => *n, ScalarValue::TimestampMillisecond(Some(n), None) => *n as i128, x => panic!("{x:?}") }).collect(); x.sort(); x.dedup(); x }; if p != property || o != operation || set(v) != set(value) || v.iter().flatten().any(|s| !matches!(s, ScalarValue::TimestampMillisecond(_, _))) { return Err(format!("becomes {g:?}")); } Ok(()) });
        }
    }
}

/// filters that may be used together: a coded property is asked for by pattern only, or by value only
fn filters(w: &Plot, r: &mut Rng, max: u64, by: &mut BTreeMap<usize, bool>) -> Option<Vec<PropValueFilter>> {
    if r.chance(30) { return if r.chance(70) { None } else { Some(vec![]) }; }
    Some((0..1 + r.below(max)).map(|_| { let i = r.below(PROPS.len() as u64) as usize; let textual = if PROPS[i].1 == K::Text { by.contains_key(&i).then(|| false).unwrap_or_else(|| { let t = r.bool(); by.insert(i, t); t }) && true } else { false };
        if PROPS[i].1 == K::Text && by.get(&i) == Some(&true) && !textual { return w.filter(r, Some(3), false); }
        if textual { return PropValueFilter::Property { property: pref(i), operation: r.pick(&[PropValueOperation::Like, PropValueOperation::NotLike]).clone(), value: Some((0..1 + r.below(2)).map(|_| ScalarValue::Utf8(Some(pattern(r).0))).collect()) }; }
        w.filter(r, Some(i), false) }).collect())
}
fn events_for(w: &Plot, r: &mut Rng, by: &mut BTreeMap<usize, bool>) -> Vec<(EventRef, Option<Vec<PropValueFilter>>)> { (0..1 + r.below(3)).map(|_| { let e = if r.chance(70) { EventRef::RegularName(r.pick(&w.events).0.clone()) } else { EventRef::Regular(r.pick(&w.events).1) }; (e, filters(w, r, 2, by)) }).collect() }
fn input(w: &Plot) -> LogicalPlan { LogicalPlan::EmptyRelation(EmptyRelation { produce_one_row: false, schema: Arc::new(w.schema().to_dfschema().unwrap()) }) }

pub fn q04(t: &mut Run) {
    t.rule("random metadata, rows of several projects and requests of every kind (event segmentation, funnel, event records, group records, property values): the row conditions of the plan the real builder makes are evaluated on the rows and compared with the request read directly");
    let world = World::new();
    while t.time_left() { let w = world.plot(&mut t.rng); let now = DateTime::from_timestamp_millis(1_700_000_000_000 + t.rng.range(0, 10) * 250).unwrap(); let ctx = w.ctx(now);
        for _ in 0..20 { if !t.time_left() { break; }
            let rows = w.rows(&mut t.rng, 16, now.timestamp_millis()); let (q, from, to) = time(&mut t.rng, now); let mut by = BTreeMap::new();
            let within = |r: &Row| r.project == w.project as i64 && from <= r.at && r.at <= to;
            let ev = events_for(&w, &mut t.rng, &mut by); let fs = filters(&w, &mut t.rng, 2, &mut by);
            let known = ev.iter().all(|(e, f)| w.knows(e) && f.iter().flatten().all(|f| w.known(f))) && fs.iter().flatten().all(|f| w.known(f));
            if !known { continue; }
            let one = |p: &LogicalPlan, n: usize| -> Result<Vec<(Expr, Arc<DFSchema>)>, String> { let mut c = vec![]; conditions(p, &mut c); if c.len() == n { Ok(c) } else { Err(format!("the plan has {} row conditions, want {n}", c.len())) } };
            match t.rng.below(5) {
                0 => { let req = es::EventSegmentationRequest { time: q, group_id: 0, interval_unit: TimeIntervalUnit::Day, chart_type: es::ChartType::Line, analysis: es::Analysis::Linear, compare: None, events: ev.iter().map(|(e, f)| es::Event { event: e.clone(), filters: f.clone(), breakdowns: None, queries: vec![es::NamedQuery::new(es::Query::CountEvents, None)] }).collect(), filters: fs.clone(), breakdowns: None, segments: None };
                    t.check("event segmentation", format!("project {}: {req:?}", w.project), || { let r = query::event_segmentation::fix_request(&w.md, w.project, req.clone()).map_err(|e| format!("{e:?}"))?; let p = query::event_segmentation::LogicalPlanBuilder::build(ctx.clone(), w.md.clone(), input(&w), r).map_err(|e| format!("failed: {e:?}"))?;
                        let c = one(&p, ev.len())?; let mut want: Vec<Vec<bool>> = ev.iter().map(|(e, f)| rows.iter().map(|x| within(x) && w.is(e, x) && w.all(f, x) && w.all(&fs, x)).collect()).collect(); let mut got = vec![]; for (e, s) in &c { got.push(w.kept(e, s, &rows)?); }
                        if got.len() == 1 { return compare(&rows, got.remove(0), want.remove(0), &c[0].0.to_string()); } got.sort(); want.sort(); if got == want { Ok(()) } else { Err(format!("rows kept per event {got:?}, want {want:?} of {rows:?}; {}", c.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(" / "))) } }); }
                1 => { let none = None; let req = funnel::Funnel { time: q, group_id: 0, steps: ev.iter().map(|(e, f)| funnel::Step { events: vec![funnel::Event { event: e.clone(), filters: f.clone() }], order: funnel::StepOrder::Exact }).collect(), time_window: funnel::TimeWindow { n: 1, unit: funnel::TimeIntervalUnitSession::Day }, chart_type: funnel::ChartType::Steps, count: funnel::Count::Unique, filter: None, touch: None, holding_constants: None, exclude: None, breakdowns: none, segments: None, filters: fs.clone() };
                    t.check("funnel", format!("project {}: {req:?}", w.project), || { let r = query::funnel::fix_request(&w.md, w.project, req.clone()).map_err(|e| format!("{e:?}"))?; let p = query::funnel::build(ctx.clone(), w.md.clone(), input(&w), r).map_err(|e| format!("failed: {e:?}"))?; let c = one(&p, 1)?; compare(&rows, w.kept(&c[0].0, &c[0].1, &rows)?, rows.iter().map(|x| within(x) && w.all(&fs, x)).collect(), &c[0].0.to_string()) }); }
                2 => { let evs = if t.rng.chance(70) { Some(ev.clone()) } else if t.rng.bool() { None } else { Some(vec![]) }; let req = query::event_records::EventRecordsSearchRequest { time: q, events: evs.clone().map(|v| v.iter().map(|(e, f)| query::event_records::Event { event: e.clone(), filters: f.clone() }).collect()), filters: fs.clone(), properties: Some(vec![pref(3)]) };
                    t.check("event records", format!("project {}: {req:?}", w.project), || { let r = query::event_records::fix_search_request(&w.md, w.project, req.clone()).map_err(|e| format!("{e:?}"))?; let (p, _) = query::event_records::build_search_plan(ctx.clone(), w.md.clone(), input(&w), r).map_err(|e| format!("failed: {e:?}"))?; let c = one(&p, 1)?;
                        compare(&rows, w.kept(&c[0].0, &c[0].1, &rows)?, rows.iter().map(|x| within(x) && w.all(&fs, x) && match &evs { Some(v) if !v.is_empty() => v.iter().any(|(e, f)| w.is(e, x) && w.all(f, x)), _ => true }).collect(), &c[0].0.to_string()) }); }
                3 => { let timed = t.rng.chance(70); let req = query::group_records::GroupRecordsSearchRequest { time: timed.then(|| q), group_id: 0, filters: fs.clone(), properties: Some(vec![pref(7)]), sort: None };
                    t.check("group records", format!("project {}: {req:?}", w.project), || { let r = query::group_records::fix_search_request(&w.md, w.project, req.clone()).map_err(|e| format!("{e:?}"))?; let (p, _) = query::group_records::build_search_plan(ctx.clone(), w.md.clone(), input(&w), r).map_err(|e| format!("failed: {e:?}"))?; let c = one(&p, 1)?; compare(&rows, w.kept(&c[0].0, &c[0].1, &rows)?, rows.iter().map(|x| if timed { within(x) } else { x.project == w.project as i64 } && w.all(&fs, x)).collect(), &c[0].0.to_string()) }); }
                _ => { let i = t.rng.below(PROPS.len() as u64) as usize; let e = t.rng.chance(60).then(|| ev[0].0.clone()); let PropValueFilter::Property { operation, value, .. } = w.filter(&mut t.rng, Some(i), true); if !w.known(&PropValueFilter::Property { property: pref(i), operation: operation.clone(), value: value.clone() }) { continue; } let f = t.rng.chance(70).then(|| query::properties::Filter { operation: operation.clone(), value: value.clone() });
                    let req = query::properties::PropertyValues { property: pref(i), event: e.clone(), filter: f.clone() };
                    t.check("property values", format!("project {}: {req:?}", w.project), || { let p = query::properties::LogicalPlanBuilder::build(ctx.clone(), w.md.clone(), input(&w), req.clone()).map_err(|e| format!("failed: {e:?}"))?; let c = one(&p, if f.is_some() { 2 } else { 1 })?; let inner = c.last().unwrap();
                        compare(&rows, w.kept(&inner.0, &inner.1, &rows)?, rows.iter().map(|x| x.project == w.project as i64 && e.iter().all(|e| w.is(e, x))).collect(), &inner.0.to_string())?;
                        if f.is_some() { let f = PropValueFilter::Property { property: pref(i), operation: operation.clone(), value: value.clone() }; compare(&rows, w.kept(&c[0].0, &c[0].1, &rows)?, rows.iter().map(|x| w.passes(&f, x) == Some(true)).collect(), &c[0].0.to_string())?; } Ok(()) }); }
            } }
    }
}
