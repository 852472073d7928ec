//! Requests sent to the real ingestion routes; the rows they leave are compared with what was sent.
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use std::sync::Arc;
use arrow2::array::Cell;
use arrow2::io::parquet::read;
use axum::body::Body;
use axum::extract::ConnectInfo;
use axum::http::{Request, StatusCode};
use common::types::*;
use common::{group_col, GROUPS_COUNT};
use h_lib::{Rng, Run};
use ingester::executor::Executor;
use metadata::properties::{CreatePropertyRequest, DictionaryType, Properties, Property, Status, Type};
use metadata::MetadataProvider;
use rocksdb::TransactionDB;
use storage::db::{OptiDBImpl, Options};
use tower_service::Service;

type Row = BTreeMap<String, Cell>;
pub struct World { md: Arc<MetadataProvider>, db: Arc<OptiDBImpl>, app: axum::Router, rt: tokio::runtime::Runtime, tokens: Vec<(u64, String)> }
fn opts(r: bool) -> storage::table::Options { storage::table::Options { index_cols: 2, is_replacing: r, levels: 3, l0_max_parts: 100000, l1_max_size_bytes: 1 << 30, level_size_multiplier: 10, max_log_length_bytes: 1 << 30, merge_max_l1_part_size_bytes: 1 << 20, merge_part_size_multiplier: 10, merge_data_page_size_limit_bytes: Some(1 << 20), merge_row_group_values_limit: 1000, merge_array_size: 100, merge_chunk_size: 100, merge_array_page_size: 100, merge_max_page_size: 1 << 20 } }
fn column(p: &Arc<Properties>, proj: u64, name: &str, typ: Type, data_type: DType, dict: bool, sys: bool) {
    p.create(proj, CreatePropertyRequest { created_by: 1, tags: None, name: name.into(), description: None, display_name: None, typ, data_type, status: Status::Enabled, hidden: false, is_system: sys, nullable: true, is_array: false, is_dictionary: dict, dictionary_type: dict.then_some(DictionaryType::Int64) }).unwrap();
}
const GEO: [(&str, Option<&str>, Option<&str>); 3] = [("10.0.0.1", Some("Chile"), Some("Arica")), ("10.0.0.2", Some("Peru"), None), ("10.0.0.3", None, None)];
const AGENT: [&str; 12] = [EVENT_PROPERTY_CLIENT_FAMILY, EVENT_PROPERTY_CLIENT_VERSION_MAJOR, EVENT_PROPERTY_CLIENT_VERSION_MINOR, EVENT_PROPERTY_DEVICE_FAMILY, EVENT_PROPERTY_DEVICE_BRAND, EVENT_PROPERTY_DEVICE_MODEL, EVENT_PROPERTY_OS, EVENT_PROPERTY_OS_VERSION_MAJOR, EVENT_PROPERTY_OS_VERSION_MINOR, EVENT_PROPERTY_OS_VERSION_PATCH, EVENT_PROPERTY_OS_VERSION_PATCH_MINOR, EVENT_PROPERTY_OS_FAMILY];
const UTM: [&str; 5] = [EVENT_PROPERTY_UTM_SOURCE, EVENT_PROPERTY_UTM_MEDIUM, EVENT_PROPERTY_UTM_CAMPAIGN, EVENT_PROPERTY_UTM_TERM, EVENT_PROPERTY_UTM_CONTENT];
const CAMPAIGN: [&str; 5] = ["source", "medium", "campaign", "term", "content"];
impl World {
    fn new(dir: &std::path::Path) -> Self {
        let _ = std::fs::remove_dir_all(dir); std::fs::create_dir_all(dir).unwrap();
        let db = Arc::new(OptiDBImpl::open(dir.join("db"), Options {}).unwrap());
        db.create_table(TABLE_EVENTS.to_string(), opts(false)).unwrap();
        for g in 0..GROUPS_COUNT { db.create_table(group_col(g), opts(true)).unwrap(); }
        let md = Arc::new(MetadataProvider::try_new(Arc::new(TransactionDB::in_memory()), db.clone()).unwrap());
        let mut tokens = vec![];
        for i in 0..2 {
            let token = format!("token{i}");
            let p = md.projects.create(metadata::projects::CreateProjectRequest { created_by: 1, organization_id: 1, name: format!("project {i}"), description: None, tags: None, token: token.clone(), session_duration_seconds: 1800 }).unwrap().id;
            let e = &md.event_properties;
            column(e, p, COLUMN_PROJECT_ID, Type::Event, DType::String, true, true);
            for g in 0..GROUPS_COUNT { column(e, p, &group_col(g), Type::Event, DType::String, true, true); }
            column(e, p, COLUMN_CREATED_AT, Type::Event, DType::Timestamp, false, true); column(e, p, COLUMN_EVENT_ID, Type::Event, DType::Int64, false, true);
            column(e, p, COLUMN_EVENT, Type::Event, DType::String, true, true); column(e, p, COLUMN_IP, Type::Event, DType::String, false, true);
            for n in AGENT.iter().chain(&UTM).chain(&[EVENT_PROPERTY_COUNTRY, EVENT_PROPERTY_CITY]) { column(e, p, n, Type::Event, DType::String, true, false); }
            column(e, p, "small", Type::Event, DType::Int8, false, false); column(e, p, "plain", Type::Event, DType::String, false, false);
            for g in 0..GROUPS_COUNT { let q = &md.group_properties[g]; column(q, p, GROUP_COLUMN_PROJECT_ID, Type::Group(g), DType::String, true, true); column(q, p, GROUP_COLUMN_ID, Type::Group(g), DType::String, true, true); column(q, p, GROUP_COLUMN_VERSION, Type::Group(g), DType::Int64, false, true); column(q, p, GROUP_COLUMN_CREATED_AT, Type::Group(g), DType::Timestamp, false, true); }
            md.events.create(p, metadata::events::CreateEventRequest { created_by: 1, tags: None, name: EVENT_SESSION_BEGIN.into(), description: None, display_name: None, status: metadata::events::Status::Enabled, is_system: true, event_properties: None, user_properties: None, custom_properties: None }).unwrap();
            md.groups.get_or_create_group(p, "user".into(), "user".into()).unwrap();
            tokens.push((p, token));
        }
        let rdr = maxminddb::Reader { t: None, tab: GEO.iter().map(|(a, b, c)| (a.parse().unwrap(), (*b, *c))).collect() };
        let track = Executor::<ingester::Track>::new(vec![Arc::new(ingester::transformers::user_agent::track::UserAgent::try_new(md.event_properties.clone(), uaparser::UserAgentParser::stub()).unwrap()), Arc::new(ingester::transformers::geo::track::Geo::try_new(md.event_properties.clone(), rdr).unwrap())], vec![Arc::new(ingester::destinations::local::track::Local::new(db.clone(), md.clone()))], db.clone(), md.clone());
        let identify = Executor::<ingester::Identify>::new(vec![], vec![Arc::new(ingester::destinations::local::identify::Local::new(db.clone(), md.clone()))], db.clone(), md.clone());
        let app = ingester::sources::http::attach_routes(axum::Router::new(), track, identify);
        World { md, db, app, tokens, rt: tokio::runtime::Builder::new_current_thread().build().unwrap() }
    }
    fn post(&self, token: &str, what: &str, body: &str, from: &str) -> Result<StatusCode, String> {
        let mut q = Request::post(format!("/api/v1/ingest/{token}/{what}")).body(Body::from(body.to_string())).unwrap();
        q.extensions_mut().insert(ConnectInfo(SocketAddr::new(from.parse().unwrap(), 4000)));
        let mut app = self.app.clone();
        h_lib::silence(std::panic::AssertUnwindSafe(|| self.rt.block_on(async { app.call(q).await.unwrap().status() }))).map_err(|_| "the request panicked".to_string())
    }
    fn rows(&self, tbl: &str) -> Result<Vec<Row>, String> {
        self.db.flush(tbl).map_err(|e| format!("flush: {e:?}"))?;
        let mut out = vec![];
        for p in self.db.parts_path(tbl).map_err(|e| format!("{e:?}"))? {
            let mut f = std::fs::File::open(&p).map_err(|e| format!("{p}: {e}"))?; let m = read::read_metadata(&mut f).map_err(|e| format!("{p}: {e:?}"))?;
            for g in &m.row_groups { let n = g.cols.first().map_or(0, |c| c.1.len()); for i in 0..n { out.push(m.schema.fields.iter().zip(&g.cols).filter_map(|(f, c)| c.1[i].clone().map(|v| (f.name.clone(), v))).collect()); } }
        }
        Ok(out)
    }
}
#[derive(Clone, Debug, PartialEq)] enum V { S(String), N(i128), B(bool), D(i64) }
fn json(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c => o.push(c) } } o.push('"'); o }
/// a value of the type its property has (the first letter of the name), or of another one; as JSON and as meant
fn value(r: &mut Rng, name: &str, messy: bool) -> (String, V) {
    let k = if messy && r.chance(8) { *r.pick(&['s', 'n', 'b', 'd']) } else { name.chars().next().unwrap() };
    if name == "small" { let n = if messy && r.chance(20) { 300 } else { r.range(-128, 127) }; return (format!("{n}"), V::N(n as i128)); }
    match k {
        'n' => { if messy && r.chance(8) { return ("4000000000000000".into(), V::N(i128::MAX)); } let s = r.below(7) as u32; let m = match r.below(3) { 0 => r.range(-99, 99), 1 => r.range(-999999999, 999999999), _ => r.range(0, 20) }; let a = m.unsigned_abs(); let p = 10u64.pow(s); let t = if s == 0 { format!("{a}") } else { format!("{}.{:0>w$}", a / p, a % p, w = s as usize) }; (if m < 0 { format!("-{t}") } else { t }, V::N(m as i128 * 10i128.pow(DECIMAL_SCALE as u32 - s))) }
        'b' => { let b = r.bool(); (format!("{b}"), V::B(b)) }
        'd' => { let ms = r.range(-1_000_000_000_000, 2_000_000_000_000); (format!("\"{}\"", chrono::DateTime::from_timestamp_millis(ms).unwrap().to_rfc3339_opts(chrono::SecondsFormat::Millis, true)), V::D(ms)) }
        _ => { let s = if r.chance(40) { r.pick(&["a", "b", "", "Ab", "日"]).to_string() } else { r.string(6) }; (json(&s), V::S(s)) }
    }
}
fn fits(name: &str, v: &V) -> bool {
    if name == "small" { return matches!(v, V::N(n) if (-128..=127).contains(n)); }
    match (name.chars().next().unwrap(), v) { ('n', V::N(m)) => *m != i128::MAX, ('b', V::B(_)) | ('d', V::D(_)) | ('s', V::S(_)) | ('p', V::S(_)) => true, _ => false }
}
fn int(c: Option<&Cell>) -> Option<i128> { match c { Some(Cell::I(v)) => Some(*v as i128), _ => None } }
/// what the row holds in the property's column, decoded as a query would
fn held(w: &World, p: u64, tbl: &str, prop: &Property, row: &Row) -> Result<Option<V>, String> {
    let c = prop.column_name(); let Some(v) = row.get(&c) else { return Ok(None) };
    if prop.is_dictionary { let k = int(Some(v)).ok_or(format!("{c} holds {v:?}"))?; return w.md.dictionaries.get_value(p, tbl, &c, k as u64).map(|s| Some(V::S(s))).map_err(|e| format!("{} ({c}) holds {k} which stands for nothing: {e:?}", prop.name)); }
    Ok(Some(match (&prop.data_type, v) { (DType::Boolean, Cell::B(b)) => V::B(*b), (DType::Timestamp, Cell::I(t)) => V::D(*t as i64), (DType::Decimal | DType::Int8, Cell::I(t)) => V::N(*t as i128), (DType::String, Cell::S(s)) => V::S(s.clone()), (t, v) => return Err(format!("{} ({c}) of type {t:?} holds {v:?}", prop.name)) }))
}
#[derive(Clone, Debug)] struct Sent { p: u64, user: Option<String>, anon: Option<String>, event: String, ts: i64, props: Vec<(String, V)>, groups: Vec<(String, String)>, extra: Vec<(String, String)>, utm: Vec<(String, String)>, ip: String, log: String, known: Vec<((u64, String), BTreeMap<String, V>)> }
#[derive(Clone, Debug)] struct Named { p: u64, group: String, id: String, ts: i64, props: BTreeMap<String, V>, log: String }
const TS: i64 = 1_600_000_000_000;
pub fn run(t: &mut Run, only: &str) {
    t.rule("one evaluation is one request answered, or the row one request left compared with what it sent, over two projects, the users, groups and property types of random histories, through the real routes");
    let mut n = 0u64; let base = std::env::temp_dir().join(format!("h-ingest-{}", std::process::id()));
    while t.time_left() { n += 1; let dir = base.join(n.to_string()); let w = World::new(&dir); history(t, only, &w); drop(w); let _ = std::fs::remove_dir_all(&dir); }
    let _ = std::fs::remove_dir_all(&base);
}
fn history(t: &mut Run, only: &str, w: &World) {
    let mut log: Vec<String> = vec![]; let mut sent: Vec<Sent> = vec![]; let mut named: Vec<Named> = vec![]; let mut gnames: BTreeMap<u64, Vec<String>> = w.tokens.iter().map(|x| (x.0, vec!["user".to_string()])).collect();
    let mut profiles: BTreeMap<(u64, String, String), BTreeMap<String, V>> = BTreeMap::new(); let mut typed: BTreeSet<(u64, String)> = BTreeSet::new();
    let mut c = |t: &mut Run, prop: &str, key: &str, log: String, r: Result<(), String>| { if prop == only { t.check(key, log, || r); } };
    let messy = t.rng.chance(30); // requests refused half way have already named users, groups and properties
    for i in 0..8 + t.rng.below(14) {
        let (p, token) = w.tokens[t.rng.below(2) as usize].clone(); let ts = TS + i as i64 * 86_400_123 + t.rng.range(0, 999); let when = chrono::DateTime::from_timestamp_millis(ts).unwrap().to_rfc3339_opts(chrono::SecondsFormat::Millis, true);
        let bad_token = t.rng.chance(3); let tok = if bad_token { "token9".to_string() } else { token };
        let mut props: Vec<(String, String, V)> = vec![]; for nm in ["s1", "s2", "n1", "n2", "b1", "d1"] { if t.rng.chance(35) { let (j, v) = value(&mut t.rng, nm, messy); props.push((nm.into(), j, v)); } }
        let pj = |x: &Vec<(String, String, V)>| format!("{{{}}}", x.iter().map(|(n, j, _)| format!("{}:{j}", json(n))).collect::<Vec<_>>().join(","));
        if t.rng.chance(70) {
            if t.rng.chance(20) { let nm = *t.rng.pick(&["small", "plain"]); let (j, v) = value(&mut t.rng, nm, messy); props.push((nm.into(), j, v)); }
            let user = t.rng.chance(60).then(|| t.rng.pick(&["u1", "u2", "x", "1"]).to_string()); let anon = (t.rng.chance(40)).then(|| t.rng.pick(&["a1", "a2", "x", "u1"]).to_string());
            let mut groups: Vec<(String, String)> = vec![]; if t.rng.chance(50) { for g in ["company", "plan", "team", "city", "country"] { if t.rng.chance(30) { groups.push((g.into(), t.rng.pick(&["acme", "1", "u1", "x"]).to_string())); } } }
            let own_ip = t.rng.bool(); let ip = t.rng.pick(&["10.0.0.1", "10.0.0.2", "10.0.0.3", "10.0.0.9"]).to_string(); let from = if own_ip { "10.9.9.9".to_string() } else { ip.clone() };
            let ua = t.rng.chance(30).then(|| { let r = &mut t.rng; (0..11).map(|_| if r.chance(60) { format!("v{}", r.below(5)) } else { String::new() }).collect::<Vec<_>>() });
            let camp: Option<Vec<Option<String>>> = t.rng.chance(30).then(|| { let r = &mut t.rng; (0..5).map(|k| (k == 0 || r.bool()).then(|| format!("m{}", r.below(4)))).collect() });
            let mut ctx = vec![]; if own_ip { ctx.push(format!("\"ip\":\"{ip}\"")); } if let Some(u) = &ua { ctx.push(format!("\"userAgent\":{}", json(&u.join("|")))); } if let Some(k) = &camp { ctx.push(format!("\"campaign\":{{{}}}", k.iter().zip(CAMPAIGN).filter_map(|(v, n)| v.as_ref().map(|v| format!("\"{n}\":\"{v}\""))).collect::<Vec<_>>().join(","))); }
            let event = t.rng.pick(&["Order", "View", "Order "]).to_string(); let mut b = vec![format!("\"event\":\"{event}\""), format!("\"timestamp\":\"{when}\""), format!("\"context\":{{{}}}", ctx.join(","))];
            if let Some(u) = &user { b.push(format!("\"userId\":\"{u}\"")); } if let Some(u) = &anon { b.push(format!("\"anonymousId\":\"{u}\"")); }
            if !props.is_empty() { b.push(format!("\"properties\":{}", pj(&props))); } if !groups.is_empty() { b.push(format!("\"groups\":{{{}}}", groups.iter().map(|(a, b)| format!("\"{a}\":\"{b}\"")).collect::<Vec<_>>().join(","))); }
            let body = format!("{{{}}}", b.join(",")); log.push(format!("track {tok} {body} from {from}")); let st = w.post(&tok, "track", &body, &from);
            let mine = &gnames[&p]; let fresh: Vec<&String> = groups.iter().map(|x| &x.0).filter(|x| !mine.contains(x)).collect(); let over = mine.len() + fresh.len() > GROUPS_COUNT;
            // a property gets its type from the first value it is given: only those of that type fit
            let conflict = props.iter().any(|(n, _, v)| !fits(n, v)); let odd = props.iter().any(|(n, _, v)| typed.contains(&(p, n.clone())) || (n != "small" && n != "plain" && !fits(n, v)));
            let no_one = user.is_none() && anon.is_none(); let refuse = bad_token || no_one || over || conflict;
            let h = log.join("; ");
            if props.iter().any(|(n, _, v)| n != "small" && n != "plain" && !matches!((n.chars().next().unwrap(), v), ('n', V::N(_)) | ('b', V::B(_)) | ('d', V::D(_)) | ('s', V::S(_)))) { for (n, _, v) in &props { if !fits(n, v) { typed.insert((p, n.clone())); } } }
            let ok = matches!(&st, Ok(s) if *s == StatusCode::CREATED);
            if !odd || refuse && !conflict { c(t, "I01", "track/answer", h.clone(), match &st { Ok(s) if ok != refuse && (ok || *s == if bad_token { StatusCode::NOT_FOUND } else { StatusCode::BAD_REQUEST } || conflict) => Ok(()), r => Err(format!("answered {r:?}, should be {}", if refuse { "refused" } else { "accepted" })) }); }
            if st.is_err() { return; }
            if !bad_token && !no_one { let all: Vec<String> = w.md.groups.list_groups(p).map(|l| { let mut d = l.data; d.sort_by_key(|g| g.id); d.into_iter().map(|g| g.name).collect() }).unwrap_or_default(); gnames.insert(p, all); }
            if !ok { sent.push(Sent { p, user: None, anon: None, event: String::new(), ts, props: vec![], groups: vec![], extra: vec![], utm: vec![], ip, log: h, known: vec![] }); continue; }
            let mut extra: Vec<(String, String)> = vec![]; if let Some(u) = &ua { for (k, nm) in AGENT.iter().enumerate().take(11) { let v = if u[k].is_empty() { if matches!(k, 0 | 3 | 6) { "Other".to_string() } else { continue } } else { u[k].clone() }; extra.push((nm.to_string(), v)); } let g = |i: usize| (!u[i].is_empty()).then(|| u[i].clone()); let mut f = g(6).unwrap_or("Other".into()); if let Some(a) = g(7) { f += &format!(" {a}"); if let Some(a) = g(8) { f += &format!(".{a}"); if let Some(a) = g(9) { f += &format!(".{a}"); if let Some(a) = g(10) { f += &format!(".{a}"); } } } } extra.push((EVENT_PROPERTY_OS_FAMILY.into(), f)); }
            if let Some(g) = GEO.iter().find(|g| g.0 == ip) { if let Some(x) = g.1 { extra.push((EVENT_PROPERTY_COUNTRY.into(), x.into())); } if let Some(x) = g.2 { extra.push((EVENT_PROPERTY_CITY.into(), x.into())); } }
            let utm = camp.map(|k| k.into_iter().zip(UTM).filter_map(|(v, n)| v.map(|v| (n.to_string(), v))).collect()).unwrap_or_default();
            let known = groups.iter().filter_map(|(g, v)| { let id = gnames[&p].iter().position(|x| x == g)? as u64; profiles.get(&(p, g.clone(), v.clone())).map(|m| ((id, g.clone()), m.clone())) }).collect();
            sent.push(Sent { p, user, anon, event, ts, props: props.into_iter().map(|(n, _, v)| (n, v)).collect(), groups, extra, utm, ip, log: h, known });
        } else {
            let group = t.rng.pick(&["user", "company", "plan", "team", "city", "country"]).to_string(); let id = t.rng.pick(&["acme", "1", "u1", "x", "u2"]).to_string();
            let body = format!("{{\"group\":\"{group}\",\"id\":\"{id}\",\"timestamp\":\"{when}\",\"context\":{{}}{}}}", if props.is_empty() { String::new() } else { format!(",\"properties\":{}", pj(&props)) });
            log.push(format!("identify {tok} {body}")); let h = log.join("; "); let st = w.post(&tok, "identify", &body, "10.9.9.9"); let mine = &gnames[&p]; let over = !mine.contains(&group) && mine.len() >= GROUPS_COUNT; let conflict = props.iter().any(|(n, _, v)| !fits(n, v)); let refuse = bad_token || over || conflict;
            let odd = props.iter().any(|(n, _, v)| typed.contains(&(p, format!("{group}.{n}"))) || !fits(n, v)); if props.iter().any(|(n, _, v)| !fits(n, v)) { for (n, _, v) in &props { if !fits(n, v) { typed.insert((p, format!("{group}.{n}"))); } } }
            let ok = matches!(&st, Ok(s) if *s == StatusCode::NO_CONTENT);
            if !odd || refuse && !conflict { c(t, "I03", "identify/answer", h.clone(), match &st { Ok(s) if ok != refuse && (ok || *s == if bad_token { StatusCode::NOT_FOUND } else { StatusCode::BAD_REQUEST } || conflict) => Ok(()), r => Err(format!("answered {r:?}, should be {}", if refuse { "refused" } else { "accepted" })) }); }
            if st.is_err() { return; }
            if !bad_token && !mine.contains(&group) && !over { gnames.get_mut(&p).unwrap().push(group.clone()); }
            if ok { let m = profiles.entry((p, group.clone(), id.clone())).or_default(); for (n, _, v) in &props { m.insert(n.clone(), v.clone()); } named.push(Named { p, group, id, ts, props: m.clone(), log: h }); }
        }
    }
    // what the tables hold now
    let ev = match w.rows(TABLE_EVENTS) { Ok(r) => r, Err(e) => { c(t, only, "tables", log.join("; "), Err(e)); return; } };
    let mut seen: BTreeSet<(u64, i128)> = BTreeSet::new(); let mut numbers: BTreeSet<(u64, i128)> = BTreeSet::new(); let mut used = 0;
    let mut real: BTreeMap<(u64, String), i128> = BTreeMap::new(); let mut anons: BTreeMap<(u64, String), i128> = BTreeMap::new(); let mut members: BTreeMap<(u64, u64, String), i128> = BTreeMap::new();
    let users = w.rows(&group_col(0)).unwrap_or_default();
    let profile_of = |x: &Named| { let last = named.iter().filter(|y| y.p == x.p && y.group == x.group && y.id == x.id).last()?; users.iter().find(|r| int(r.get(GROUP_COLUMN_CREATED_AT)) == Some(last.ts as i128)).and_then(|r| int(r.get(GROUP_COLUMN_ID))) };
    for s in &sent {
        let at: Vec<&Row> = ev.iter().filter(|r| int(r.get(COLUMN_CREATED_AT)) == Some(s.ts as i128)).collect(); used += at.len();
        if s.event.is_empty() { c(t, "I01", "track/refused", s.log.clone(), if at.is_empty() { Ok(()) } else { Err(format!("a refused request left {at:?}")) }); continue; }
        let begin = w.md.events.get_by_name(s.p, EVENT_SESSION_BEGIN).map(|e| e.id as i128).unwrap_or(-1); let id = w.md.events.get_by_name(s.p, &s.event).map(|e| e.id as i128).unwrap_or(-2);
        let own: Vec<&&Row> = at.iter().filter(|r| int(r.get(COLUMN_EVENT)) == Some(id)).collect(); let ses: Vec<&&Row> = at.iter().filter(|r| int(r.get(COLUMN_EVENT)) == Some(begin)).collect();
        c(t, "I01", "track/one-row", s.log.clone(), if own.len() == 1 && own.len() + ses.len() == at.len() { Ok(()) } else { Err(format!("event {:?} at {} left {at:?}", s.event, s.ts)) });
        if own.len() != 1 { continue; }
        let row = own[0]; let user = int(row.get("group_0")).unwrap_or(-1);
        for r in own.iter().chain(&ses) {
            c(t, "I02", "track/project", s.log.clone(), if int(r.get(COLUMN_PROJECT_ID)) == Some(s.p as i128) && user > 0 && int(r.get("group_0")) == Some(user) { Ok(()) } else { Err(format!("project {}, user {user}: {r:?}", s.p)) });
            let num = int(r.get(COLUMN_EVENT_ID)); c(t, "I01", "track/record-number", s.log.clone(), match num { Some(k) if k > 0 && numbers.insert((s.p, k)) => Ok(()), k => Err(format!("record number {k:?} is not its own")) });
            // the user, then the groups
            for g in 1..GROUPS_COUNT { let nm = gnames[&s.p].get(g); let want = nm.and_then(|nm| s.groups.iter().find(|x| x.0 == *nm)); let got = int(r.get(&group_col(g)));
                let res = match (want, got) { (None, None) => Ok(()), (Some(x), Some(k)) => { let e = members.entry((s.p, g as u64, x.1.clone())).or_insert(k); if *e == k && members.iter().filter(|(m, v)| m.0 == s.p && m.1 == g as u64 && **v == k).count() == 1 { Ok(()) } else { Err(format!("{x:?} has id {k}, but ids are {members:?}")) } } (a, b) => Err(format!("group {g} should be {a:?}, is {b:?}")) }; c(t, "I02", "track/groups", s.log.clone(), res); }
            let mut bad = None;
            for (n, v) in &s.props { match w.md.event_properties.get_by_name(s.p, n).map_err(|e| format!("{e:?}")).and_then(|p| held(w, s.p, TABLE_EVENTS, &p, r)) { Ok(Some(g)) if g == *v => {}, g => bad = Some(format!("{n} should be {v:?}, is {g:?}")) } }
            for (n, v) in s.extra.iter().chain(if int(r.get(COLUMN_EVENT)) == Some(begin) { s.utm.iter() } else { [].iter() }) { match w.md.event_properties.get_by_name(s.p, n).map_err(|e| format!("{e:?}")).and_then(|p| held(w, s.p, TABLE_EVENTS, &p, r)) { Ok(Some(V::S(g))) if g == *v => {}, g => bad = Some(format!("{n} should be {v:?}, is {g:?}")) } }
            for ((g, gn), m) in &s.known { for (n, v) in m { match w.md.group_properties[*g as usize].get_by_name(s.p, n).map_err(|e| format!("{e:?}")).and_then(|p| held(w, s.p, &group_col(*g as usize), &p, r)) { Ok(Some(x)) if x == *v => {}, x => bad = Some(format!("{gn}'s {n} should be {v:?}, is {x:?}")) } } }
            // nothing that was not sent
            for n in ["s1", "s2", "n1", "n2", "b1", "d1", "small", "plain", EVENT_PROPERTY_COUNTRY, EVENT_PROPERTY_CITY, EVENT_PROPERTY_OS, EVENT_PROPERTY_DEVICE_BRAND] { if !s.props.iter().any(|x| x.0 == n) && !s.extra.iter().any(|x| x.0 == n) { if let Ok(p) = w.md.event_properties.get_by_name(s.p, n) { if let Some(v) = r.get(&p.column_name()) { bad = Some(format!("{n} was not sent, is {v:?}")); } } } }
            let begins = int(r.get(COLUMN_EVENT)) == Some(begin); for n in UTM { if !(begins && s.utm.iter().any(|x| x.0 == n)) { if let Ok(p) = w.md.event_properties.get_by_name(s.p, n) { if let Some(v) = r.get(&p.column_name()) { bad = Some(format!("{n} was not sent, is {v:?}")); } } } }
            c(t, "I01", "track/values", s.log.clone(), bad.map_or(Ok(()), Err));
        }
        c(t, "I01", "track/session", s.log.clone(), if messy && ses.is_empty() || ses.len() == seen.insert((s.p, user)) as usize { Ok(()) } else { Err(format!("{} session begins; users active before: {seen:?}, this one {user}", ses.len())) });
        for r in &ses { c(t, "I01", "track/session-ip", s.log.clone(), if r.get(COLUMN_IP).map(|x| matches!(x, Cell::S(v) if *v == s.ip)) == Some(true) { Ok(()) } else { Err(format!("ip {:?}, want {}", r.get(COLUMN_IP), s.ip)) }); }
        // identities
        for x in named.iter().filter(|x| x.p == s.p && x.group == "user" && x.ts < s.ts) { if let Some(v) = profile_of(x) { real.entry((x.p, x.id.clone())).or_insert(v); } } // users named in an earlier identify request are known
        let known: Vec<i128> = real.iter().chain(&anons).filter(|(k, _)| k.0 == s.p).map(|(_, v)| *v).collect(); let k = |x: &String| (s.p, x.clone());
        let want = match (&s.user, &s.anon) { (Some(u), None) => real.get(&k(u)).copied(), (None, Some(a)) => anons.get(&k(a)).copied(), (Some(u), Some(a)) => real.get(&k(u)).or(anons.get(&k(a))).copied(), _ => None };
        // a refused request may already have made its user known
        let vague = messy || sent.iter().any(|x| x.event.is_empty() && x.p == s.p && x.ts < s.ts);
        if !vague { c(t, "I02", "track/user", s.log.clone(), match want { Some(x) if x == user => Ok(()), None if !known.contains(&user) => Ok(()), x => Err(format!("attributed to {user}, want {x:?} (known {real:?}, anonymous {anons:?})")) }); }
        match (&s.user, &s.anon) { (Some(u), a) => { if let (Some(a), false) = (a, real.contains_key(&k(u))) { anons.entry(k(a)).or_insert(user); } real.entry(k(u)).or_insert(user); } (None, Some(a)) => { anons.entry(k(a)).or_insert(user); } _ => {} }
    }
    c(t, "I01", "track/nothing-else", log.join("; "), if used == ev.len() { Ok(()) } else { Err(format!("{} rows, {used} of them accounted for", ev.len())) });
    for g in 0..GROUPS_COUNT {
        let rows = match w.rows(&group_col(g)) { Ok(r) => r, Err(e) => { c(t, "I03", "tables", log.join("; "), Err(e)); return; } };
        let mut ids: BTreeMap<(u64, String), i128> = BTreeMap::new(); let mut last: BTreeMap<(u64, String), &Named> = BTreeMap::new();
        for x in named.iter().filter(|x| gnames[&x.p].get(g) == Some(&x.group)) { last.insert((x.p, x.id.clone()), x); }
        for ((p, id), x) in &last {
            let own: Vec<&Row> = rows.iter().filter(|r| int(r.get(GROUP_COLUMN_CREATED_AT)) == Some(x.ts as i128)).collect();
            let r = if own.len() != 1 { Err(format!("{} rows of the last identify of {id}: {own:?}", own.len())) } else { let r = own[0]; let rid = int(r.get(GROUP_COLUMN_ID)).unwrap_or(-1); let mut bad = None;
                if int(r.get(GROUP_COLUMN_PROJECT_ID)) != Some(*p as i128) { bad = Some(format!("project {p}: {r:?}")); }
                match w.md.dictionaries.get_value(*p, &group_col(g), GROUP_COLUMN_ID, rid as u64) { Ok(n) if n == *id => {}, n => bad = Some(format!("id {rid} stands for {n:?}, not {id:?}")) }
                if ids.iter().any(|(k, v)| k.0 == *p && *v == rid) { bad = Some(format!("{id} shares id {rid}: {ids:?}")); } ids.insert((*p, id.clone()), rid);
                if g > 0 { if let Some(k) = members.get(&(*p, g as u64, id.clone())) { if *k != rid { bad = Some(format!("events know {id} as {k}, its profile is {rid}")); } } } else if let Some(k) = real.get(&(*p, id.clone())) { if *k != rid { bad = Some(format!("events know {id} as {k}, the profile is {rid}")); } }
                if rows.iter().any(|o| !std::ptr::eq(o, r) && int(o.get(GROUP_COLUMN_PROJECT_ID)) == Some(*p as i128) && int(o.get(GROUP_COLUMN_ID)) == Some(rid) && int(o.get(GROUP_COLUMN_VERSION)) >= int(r.get(GROUP_COLUMN_VERSION))) { bad = Some(format!("version {:?} is not the newest of {rows:?}", r.get(GROUP_COLUMN_VERSION))); }
                if int(r.get(GROUP_COLUMN_VERSION)).map_or(true, |v| v < 1) { bad = Some("no version".into()); }
                for (n, v) in &x.props { match w.md.group_properties[g].get_by_name(*p, n).map_err(|e| format!("{e:?}")).and_then(|q| held(w, *p, &group_col(g), &q, r)) { Ok(Some(y)) if y == *v => {}, y => bad = Some(format!("{n} should be {v:?}, is {y:?}")) } }
                for n in ["s1", "s2", "n1", "n2", "b1", "d1"] { if !x.props.contains_key(n) { if let Ok(q) = w.md.group_properties[g].get_by_name(*p, n) { if let Some(v) = r.get(&q.column_name()) { bad = Some(format!("{n} was not sent, is {v:?}")); } } } }
                bad.map_or(Ok(()), Err) };
            c(t, "I03", "identify/row", x.log.clone(), r);
        }
    }
}
fn main() { h_lib::main(&[("I01", |t| run(t, "I01")), ("I02", |t| run(t, "I02")), ("I03", |t| run(t, "I03"))]) }
