//! Replay of the API handlers' contracts: who may call what, what reaches the store, and what comes back.
use crate::{org_role, proj_role};
use common::rbac::*;
use common::types::{DType, OptionalProperty};
use h_lib::{Rng, Run};
use platform::{context::Context, PlatformError, PlatformProvider};
use rocksdb::TransactionDB;
use serde_json::{json, Value};
use std::future::Future;
use std::sync::Arc;
type Res = Result<Value, PlatformError>;
pub struct W { rt: tokio::runtime::Runtime, pub db: Arc<TransactionDB>, pub md: Arc<metadata::MetadataProvider>, pub p: PlatformProvider, opti: Arc<storage::db::OptiDBImpl>, dir: std::path::PathBuf, n: std::cell::Cell<u64>, cfg: common::config::Config }
impl Drop for W { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.dir); } }
fn provider(md: &Arc<metadata::MetadataProvider>, o: &Arc<storage::db::OptiDBImpl>, cfg: &common::config::Config) -> PlatformProvider {
    PlatformProvider::new(md.clone(), Arc::new(query::event_segmentation::EventSegmentationProvider::new(md.clone(), o.clone())), Arc::new(query::funnel::FunnelProvider::new(md.clone(), o.clone())), Arc::new(query::properties::PropertiesProvider::new(md.clone(), o.clone())),
        Arc::new(query::event_records::EventRecordsProvider::new(md.clone(), o.clone())), Arc::new(query::group_records::GroupRecordsProvider::new(md.clone(), o.clone())), cfg.clone())
}
fn try_j<T: serde::de::DeserializeOwned>(v: &Value) -> Result<T, PlatformError> { Ok(serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("request {v} is not accepted: {e}"))) }
fn j<T: serde::de::DeserializeOwned>(v: &Value) -> T { try_j(v).unwrap() }
impl W {
    pub fn new() -> Self {
        let dir = std::env::temp_dir().join(format!("h-platform-{}", std::process::id())); let _ = std::fs::remove_dir_all(&dir); std::fs::create_dir_all(&dir).unwrap();
        let opti = Arc::new(storage::db::OptiDBImpl::open(dir.join("db"), storage::db::Options {}).unwrap());
        opti.create_table(common::types::TABLE_EVENTS.to_string(), storage::table::Options::test(false)).unwrap();
        for g in 0..common::GROUPS_COUNT { opti.create_table(common::group_col(g), storage::table::Options::test(true)).unwrap(); }
        let mut cfg = common::config::Config::default(); cfg.misc.project_default_session_duration = chrono::Duration::seconds(1234); cfg.auth.access_token_duration = chrono::Duration::seconds(3600); cfg.auth.refresh_token_duration = chrono::Duration::seconds(7200);
        let db = Arc::new(TransactionDB::in_memory()); let md = Arc::new(metadata::MetadataProvider::try_new(db.clone(), opti.clone()).unwrap());
        let p = provider(&md, &opti, &cfg);
        W { rt: tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap(), db, md, p, opti, dir, n: Default::default(), cfg }
    }
    /// the same store content with nothing cached
    pub fn reset(&mut self, m: &std::collections::BTreeMap<Vec<u8>, Vec<u8>>) {
        self.db = Arc::new(TransactionDB::in_memory()); self.db.load(m.clone()); self.md = Arc::new(metadata::MetadataProvider::try_new(self.db.clone(), self.opti.clone()).unwrap()); self.p = provider(&self.md, &self.opti, &self.cfg);
    }
    pub fn fresh(&self) -> String { self.n.set(self.n.get() + 1); format!("n{}", self.n.get()) }
    pub fn run<T: serde::Serialize>(&self, f: impl Future<Output = Result<T, PlatformError>>) -> Res { self.rt.block_on(f).map(|v| serde_json::to_value(&v).unwrap()) }
}
pub fn ids(v: &Value) -> u64 { v["id"].as_u64().unwrap() }
pub fn root(a: u64, org: u64) -> Context { Context { account_id: a, organization_id: org, force_update_password: false, force_update_email: false, role: Some(Role::Admin), organizations: None, projects: None, teams: None } }

// ---- the collections of a project
pub struct Coll {
    pub name: &'static str, pub man: ProjectPermission, pub see: ProjectPermission, pub del: ProjectPermission,
    pub create: Option<fn(&W, Context, u64, &Value) -> Res>, pub get: fn(&W, Context, u64, u64) -> Res, pub list: fn(&W, Context, u64) -> Res, pub update: fn(&W, Context, u64, u64, &Value) -> Res, pub delete: fn(&W, Context, u64, u64) -> Res,
    pub req: fn(&W, &mut Rng, bool) -> Value, pub stored: fn(&W, u64, u64) -> Option<Value>, pub all: fn(&W, u64) -> Vec<Value>,
}
fn text(r: &mut Rng) -> Value { if r.chance(25) { Value::Null } else { json!(format!("t{}", r.below(1000))) } }
fn tags(r: &mut Rng) -> Value { if r.chance(25) { Value::Null } else { json!((0..1 + r.below(3)).map(|i| format!("g{i}{}", r.below(9))).collect::<Vec<_>>()) } }
fn status(r: &mut Rng) -> Value { json!(if r.bool() { "enabled" } else { "disabled" }) }
fn rquery(r: &mut Rng) -> Value {
    let unit = *r.pick(&["hour", "day", "week", "month", "year"]); let (n, g) = (1 + r.below(50), r.below(4));
    let time = match r.below(2) { 0 => json!({"type": "last", "last": n, "unit": unit}), _ => json!({"type": "from", "from": "2024-05-06T07:08:09Z"}) };
    if r.bool() { json!({"type": "eventSegmentation", "time": time, "group": g, "intervalUnit": unit, "chartType": *r.pick(&["line", "column", "pie"]), "analysis": {"type": "linear"}, "events": [{"eventType": "regular", "eventName": format!("e{n}"), "queries": [{"type": *r.pick(&["countEvents", "countUniqueGroups", "dailyActiveGroups"])}]}]}) }
    else { json!({"type": "funnel", "time": time, "group": g, "steps": [{"events": [{"eventType": "regular", "eventName": format!("s{n}")}], "order": {"type": "exact"}}], "time_window": Value::Null, "timeWindow": {"n": n, "unit": unit}, "chartType": {"type": "steps"}, "count": *r.pick(&["unique", "nonUnique", "session"])}) }
}
fn st(s: bool) -> &'static str { if s { "enabled" } else { "disabled" } }
fn dash(m: metadata::dashboards::Dashboard) -> Value {
    json!({"id": m.id, "createdAt": m.created_at, "updatedAt": m.updated_at, "createdBy": m.created_by, "updatedBy": m.updated_by, "projectId": m.project_id, "tags": m.tags, "name": m.name, "description": m.description,
        "panels": m.panels.iter().map(|p| json!({"type": "report", "reportId": p.report_id, "x": p.x, "y": p.y, "w": p.w, "h": p.h})).collect::<Vec<_>>()})
}
fn report(m: metadata::reports::Report) -> Value {
    json!({"id": m.id, "createdAt": m.created_at, "updatedAt": m.updated_at, "createdBy": m.created_by, "updatedBy": m.updated_by, "projectId": m.project_id, "tags": m.tags, "name": m.name, "description": m.description,
        "type": match m.typ { metadata::reports::Type::EventSegmentation => "eventSegmentation", metadata::reports::Type::Funnel => "funnel" }, "query": stored_query(m.query)})
}
fn stored_query(q: metadata::reports::Query) -> Value { match q {
    metadata::reports::Query::EventSegmentation(e) => { let e: platform::event_segmentation::EventSegmentationRequest = e.into(); let mut v = serde_json::to_value(&e).unwrap(); v["type"] = json!("eventSegmentation"); v }
    f => serde_json::to_value(platform::reports::Query::from(f)).unwrap() } }
fn event(m: metadata::events::Event) -> Value {
    json!({"id": m.id, "createdAt": m.created_at, "updatedAt": m.updated_at, "createdBy": m.created_by, "updatedBy": m.updated_by, "projectId": m.project_id, "tags": m.tags, "name": m.name, "displayName": m.display_name, "description": m.description,
        "status": st(m.status == metadata::events::Status::Enabled), "isSystem": m.is_system, "eventProperties": m.event_properties, "userProperties": m.custom_properties})
}
fn cevent(m: metadata::custom_events::CustomEvent) -> Value {
    json!({"id": m.id, "createdAt": m.created_at, "updatedAt": m.updated_at, "createdBy": m.created_by, "updatedBy": m.updated_by, "projectId": m.project_id, "tags": m.tags, "name": m.name, "description": m.description,
        "status": st(m.status == metadata::custom_events::Status::Enabled), "isSystem": m.is_system,
        "events": m.events.iter().map(|e| { let mut v = match &e.event { common::query::EventRef::RegularName(n) => json!({"eventType": "regular", "eventName": n}), common::query::EventRef::Custom(i) => json!({"eventType": "custom", "eventId": i}), x => json!(format!("{x:?}")) };
            if v.is_object() { v["filters"] = match &e.filters { None => Value::Null, Some(f) => json!(f.len()) }; } v }).collect::<Vec<_>>()})
}
fn prop(m: metadata::properties::Property) -> Value {
    let (t, g) = match m.typ { metadata::properties::Type::Event => ("event", None), metadata::properties::Type::Group(g) => ("group", Some(g)) };
    json!({"id": m.id, "createdAt": m.created_at, "updatedAt": m.updated_at, "createdBy": m.created_by, "updatedBy": m.updated_by, "projectId": m.project_id, "events": Value::Null, "tags": m.tags, "name": m.name, "displayName": m.display_name, "description": m.description, "typ": t, "groupId": g, "order": m.order,
        "dataType": m.data_type, "status": st(m.status == metadata::properties::Status::Enabled), "hidden": m.hidden, "isSystem": m.is_system, "nullable": m.nullable, "isArray": m.is_array, "isDictionary": m.is_dictionary, "dictionaryType": m.dictionary_type.map(|d| format!("{d:?}").to_lowercase())})
}
/// record times are kept to the second, whatever of the rest is not compared
fn norm(mut v: Value) -> Value {
    fn go(v: &mut Value) { match v {
        Value::Object(m) => { m.retain(|_, x| !x.is_null()); for (k, x) in m.iter_mut() { if k.ends_with("At") { if let Some(s) = x.as_str() { *x = json!(s.chars().take(19).collect::<String>()); } } else { go(x); } } }
        Value::Array(a) => for x in a { go(x) }, _ => {} } }
    if let Some(e) = v.get_mut("events") { if let Some(a) = e.as_array_mut() { for x in a { if let Some(f) = x.get_mut("filters") { if let Some(n) = f.as_array().map(|f| f.len()) { *f = json!(n); } } } } }
    go(&mut v); v
}
macro_rules! coll { ($name:literal, $f:ident, $man:ident, $see:ident, $del:ident, $show:ident, $create:expr, $req:expr $(, $m:ident)?) => { Coll { name: $name, man: ProjectPermission::$man, see: ProjectPermission::$see, del: ProjectPermission::$del, create: $create,
    get: |w, c, p, i| w.run(w.p.$f.get_by_id(c, p, i)), list: |w, c, p| w.run(w.p.$f.list(c, p)), update: |w, c, p, i, v| w.run(w.p.$f.update(c, p, i, j(v))), delete: |w, c, p, i| w.run(w.p.$f.delete(c, p, i)), req: $req,
    stored: |w, p, i| w.md.$f.get_by_id(p, i).ok().map($show), all: |w, p| w.md.$f.list(p).unwrap().data.into_iter().map($show).collect() } } }
pub fn colls() -> Vec<Coll> {
    vec![
        coll!("dashboards", dashboards, ManageReports, ExploreReports, ManageReports, dash, Some(|w, c, p, v| w.run(w.p.dashboards.create(c, p, j(v)))),
            |w, r, _| json!({"tags": tags(r), "name": w.fresh(), "description": text(r), "panels": (0..r.below(3)).map(|_| json!({"type": "report", "reportId": r.below(9), "x": r.below(99), "y": r.below(99), "w": r.below(99), "h": r.below(99)})).collect::<Vec<_>>()})),
        coll!("reports", reports, ManageReports, ExploreReports, ManageReports, report, Some(|w, c, p, v| w.run(w.p.reports.create(c, p, j(v)))),
            |w, r, new| { let mut v = json!({"tags": tags(r), "name": w.fresh(), "description": text(r), "query": rquery(r)}); if new { v["type"] = json!(if r.bool() { "funnel" } else { "eventSegmentation" }); } v }),
        coll!("events", events, ManageSchema, ViewSchema, DeleteSchema, event, Some(|w, c, p, v| w.run(w.p.events.create(c, p, j(v)))),
            |w, r, new| { let mut v = json!({"tags": tags(r), "displayName": if r.bool() { json!(w.fresh()) } else { Value::Null }, "description": text(r), "status": status(r)}); if new { v["name"] = json!(w.fresh()); v["isSystem"] = json!(r.bool()); } v }),
        coll!("custom_events", custom_events, ManageSchema, ViewSchema, DeleteSchema, cevent, Some(|w, c, p, v| w.run(w.p.custom_events.create(c, p, j(v)))),
            |w, r, new| { let mut v = json!({"tags": tags(r), "name": w.fresh(), "description": text(r), "status": status(r), "events": (0..1 + r.below(2)).map(|_| json!({"eventType": "regular", "eventName": format!("base{}", r.below(2)), "filters": Value::Null})).collect::<Vec<_>>()}); if new { v["isSystem"] = json!(r.bool()); } v }),
        coll!("event_properties", event_properties, ManageSchema, ViewSchema, DeleteSchema, prop, None,
            |w, r, _| json!({"tags": tags(r), "displayName": if r.bool() { json!(w.fresh()) } else { Value::Null }, "description": text(r), "status": status(r)})),
        Coll { name: "group_properties", man: ProjectPermission::ManageSchema, see: ProjectPermission::ViewSchema, del: ProjectPermission::DeleteSchema, create: None,
            get: |w, c, p, i| w.run(w.p.group_properties[1].get_by_id(c, p, i)), list: |w, c, p| w.run(w.p.group_properties[1].list(c, p)), update: |w, c, p, i, v| w.run(w.p.group_properties[1].update(c, p, i, j(v))), delete: |w, c, p, i| w.run(w.p.group_properties[1].delete(c, p, i)),
            req: |w, r, _| json!({"tags": tags(r), "displayName": if r.bool() { json!(w.fresh()) } else { Value::Null }, "description": text(r), "status": status(r)}),
            stored: |w, p, i| w.md.group_properties[1].get_by_id(p, i).ok().map(prop), all: |w, p| w.md.group_properties[1].list(p).unwrap().data.into_iter().map(prop).collect() },
    ]
}
pub struct Seed { pub orgs: Vec<u64>, pub projects: Vec<(u64, u64)>, pub account: u64, pub bookmark: (u64, String), pub backup: u64 }
/// two organizations with two projects each; every collection of every project holds records
pub fn fill(w: &W, r: &mut Rng) -> Seed {
    let cs = colls(); let mut orgs = vec![]; let mut projects = vec![];
    let account = w.md.accounts.create(metadata::accounts::CreateAccountRequest { created_by: 1, password_hash: "h".into(), email: "one@example.com".into(), name: Some("One".into()), force_update_password: false, force_update_email: false, role: None, organizations: None, projects: None, teams: None }).unwrap().id;
    for _ in 0..2 { orgs.push(w.md.organizations.create(metadata::organizations::CreateOrganizationRequest { created_by: account, name: w.fresh() }).unwrap().id); }
    for o in &orgs { for _ in 0..2 { projects.push((*o, w.md.projects.create(metadata::projects::CreateProjectRequest { created_by: account, organization_id: *o, name: w.fresh(), description: None, tags: None, token: w.fresh(), session_duration_seconds: 60 }).unwrap().id)); } }
    let mut bookmark = String::new();
    for (o, p) in &projects {
        for n in ["base0", "base1"] { w.md.events.create(*p, metadata::events::CreateEventRequest { created_by: 1, tags: None, name: n.into(), display_name: None, description: None, status: metadata::events::Status::Enabled, is_system: false, event_properties: None, user_properties: None, custom_properties: None }).unwrap(); }
        for k in 0..3 { for (t, pr) in [(metadata::properties::Type::Event, &w.md.event_properties), (metadata::properties::Type::Group(1), &w.md.group_properties[1])] {
            pr.create(*p, metadata::properties::CreatePropertyRequest { created_by: 1, tags: None, name: format!("prop{k}"), description: Some("d".into()), display_name: None, typ: t, data_type: if k == 0 { DType::String } else { DType::Int64 }, status: metadata::properties::Status::Enabled, is_system: false, nullable: true, hidden: k == 1, is_array: false, is_dictionary: k == 0, dictionary_type: if k == 0 { Some(metadata::properties::DictionaryType::Int16) } else { None } }).unwrap(); } }
        for c in &cs { if let Some(f) = c.create { for _ in 0..3 { f(w, root(account, *o), *p, &(c.req)(w, r, true)).unwrap(); } } }
        w.run(w.p.groups.create(root(account, *o), *p, j(&json!({"name": "company", "displayName": "Company"})))).unwrap();
        if bookmark.is_empty() { bookmark = w.run(w.p.bookmarks.create(root(account, *o), *p, j(&json!({"query": rquery(r)})))).unwrap()["id"].as_str().unwrap().to_string(); }
    }
    let mut s = metadata::settings::Settings::default(); s.backup_enabled = true; s.backup_provider_local_path = "/nowhere".into(); w.md.settings.save(&s).unwrap();
    let backup = w.md.backups.create(metadata::backups::CreateBackupRequest { provider: metadata::backups::Provider::Local("/nowhere".into()), status: metadata::backups::Status::InProgress(7), is_encrypted: false, password: None }).unwrap().id;
    Seed { bookmark: (projects[0].1, bookmark), orgs, projects, account, backup }
}
enum Gate { S(Permission), O(u64, OrganizationPermission), P(u64, ProjectPermission) }
fn allowed(c: &Context, g: &Gate) -> bool {
    let root = c.role.is_some(); let or = |o: u64| c.organizations.as_ref().and_then(|v| v.iter().find(|x| x.0 == o)).map(|x| x.1.clone());
    match g { Gate::S(_) => root, Gate::O(o, q) => root || or(*o).map(|x| crate::org_allows(&x, q)).unwrap_or(false),
        Gate::P(p, q) => root || matches!(or(c.organization_id), Some(OrganizationRole::Owner) | Some(OrganizationRole::Admin)) || c.projects.as_ref().and_then(|v| v.iter().find(|x| x.0 == *p)).map(|x| crate::proj_allows(&x.1, q)).unwrap_or(false) }
}
type Call = (String, Gate, Box<dyn Fn(&W, Context) -> Res>, bool);
fn calls(w: &W, r: &mut Rng, s: &Seed, p: u64, org: u64, mine: u64) -> Vec<Call> {
    use Gate::*; use OrganizationPermission as OP; use ProjectPermission as PP;
    let mut v: Vec<Call> = vec![];
    for c in colls() {
        let all = (c.all)(w, p); let id = if all.is_empty() { 1 } else { ids(r.pick(&all)) };
        if let Some(f) = c.create { let q = (c.req)(w, r, true); v.push((format!("{} create {q}", c.name), P(p, c.man.clone()), Box::new(move |w, x| f(w, x, p, &q)), true)); }
        let (g, l, u, d) = (c.get, c.list, c.update, c.delete); let q = (c.req)(w, r, false);
        v.push((format!("{} get {id}", c.name), P(p, c.see.clone()), Box::new(move |w, x| g(w, x, p, id)), true));
        v.push((format!("{} list", c.name), P(p, c.see.clone()), Box::new(move |w, x| l(w, x, p)), true));
        v.push((format!("{} update {id} {q}", c.name), P(p, c.man.clone()), Box::new(move |w, x| u(w, x, p, id, &q)), true));
        v.push((format!("{} delete {id}", c.name), P(p, c.del.clone()), Box::new(move |w, x| d(w, x, p, id)), true));
    }
    let ev = w.md.events.get_by_name(p, "base0").map(|e| e.id).unwrap_or(1); let pr = w.md.event_properties.get_by_name(p, "prop0").map(|e| e.id).unwrap_or(1);
    v.push((format!("events attach_property {ev} {pr}"), P(p, PP::ManageSchema), Box::new(move |w, x| w.run(w.p.events.attach_property(x, p, ev, pr))), false));
    v.push((format!("events detach_property {ev} {pr}"), P(p, PP::ManageSchema), Box::new(move |w, x| w.run(w.p.events.detach_property(x, p, ev, pr))), false));
    v.push(("events get_by_name base0".into(), P(p, PP::ViewSchema), Box::new(move |w, x| w.run(w.p.events.get_by_name(x, p, "base0"))), true));
    v.push(("event_properties get_by_name prop1".into(), P(p, PP::ViewSchema), Box::new(move |w, x| w.run(w.p.event_properties.get_by_name(x, p, "prop1"))), true));
    v.push(("event_properties values".into(), P(p, PP::ExploreReports), Box::new(move |w, x| w.run(w.p.event_properties.values(x, p, j(&json!({"propertyType": "event", "propertyName": "prop1", "property": {"propertyType": "event", "propertyName": "prop1"}}))))), false));
    v.push(("groups create".into(), P(p, PP::ManageSchema), Box::new(move |w, x| w.run(w.p.groups.create(x, p, j(&json!({"name": "team", "displayName": "Team"}))))), true));
    v.push(("groups list".into(), P(p, PP::ViewSchema), Box::new(move |w, x| w.run(w.p.groups.list(x, p))), true));
    let q = rquery(r); v.push((format!("bookmarks create {q}"), P(p, PP::ExploreReports), Box::new(move |w, x| w.run(w.p.bookmarks.create(x, p, j(&json!({"query": q}))))), true));
    let b = s.bookmark.clone(); v.push(("bookmarks get".into(), P(b.0, PP::ExploreReports), Box::new(move |w, x| w.run(w.p.bookmarks.get(x, b.0, &b.1))), false));
    let t = json!({"type": "last", "last": 3, "unit": "day"});
    let q = json!({"time": t, "events": Value::Null, "filters": Value::Null, "properties": Value::Null}); v.push(("event_records search".into(), P(p, PP::ExploreReports), Box::new(move |w, x| w.run(w.p.event_records.search(x, p, j(&q), platform::QueryParams { format: None, timestamp: None }))), false));
    v.push(("event_records get_by_id".into(), P(p, PP::ExploreReports), Box::new(move |w, x| w.run(w.p.event_records.get_by_id(x, p, 1))), false));
    let q = json!({"time": t, "group": 1, "filters": Value::Null, "properties": Value::Null, "sort": Value::Null}); v.push(("group_records search".into(), P(p, PP::ExploreReports), Box::new(move |w, x| w.run(w.p.group_records.search(x, p, j(&q), platform::QueryParams { format: None, timestamp: None }))), false));
    v.push(("group_records get_by_id".into(), P(p, PP::ExploreReports), Box::new(move |w, x| w.run(w.p.group_records.get_by_id(x, p, 1, "1".to_string()))), false));
    let q = json!({"time": t, "group": 0, "intervalUnit": "day", "chartType": "line", "analysis": {"type": "linear"}, "events": [{"eventType": "regular", "eventName": "base0", "queries": [{"type": "countEvents"}]}]}); v.push(("event_segmentation".into(), P(p, PP::ExploreReports), Box::new(move |w, x| w.run(w.p.event_segmentation.event_segmentation(x, p, j(&q), platform::QueryParams { format: None, timestamp: None }))), false));
    let q = json!({"time": t, "group": 0, "steps": [{"events": [{"eventType": "regular", "eventName": "base0"}], "order": {"type": "exact"}}, {"events": [{"eventType": "regular", "eventName": "base1"}], "order": {"type": "exact"}}], "timeWindow": {"n": 1, "unit": "day"}, "chartType": {"type": "steps"}, "count": "unique"}); v.push(("funnel".into(), P(p, PP::ExploreReports), Box::new(move |w, x| w.run(w.p.funnel.funnel(x, p, j(&q), platform::QueryParams { format: None, timestamp: None }))), false));
    // projects: the caller's organization for collection-wide calls, the project itself otherwise
    let n = w.fresh(); v.push(("projects create".into(), O(mine, OP::ManageProjects), Box::new(move |w, x| w.run(w.p.projects.create(x, j(&json!({"name": n}))))), true));
    v.push(("projects get".into(), P(p, PP::ViewProject), Box::new(move |w, x| w.run(w.p.projects.get_by_id(x, p))), true));
    v.push(("projects list".into(), O(mine, OP::ExploreProjects), Box::new(move |w, x| w.run(w.p.projects.list(x))), true));
    let n = w.fresh(); v.push(("projects update".into(), P(p, PP::ManageProject), Box::new(move |w, x| w.run(w.p.projects.update(x, p, j(&json!({"name": n}))))), true));
    v.push(("projects delete".into(), P(p, PP::DeleteProject), Box::new(move |w, x| w.run(w.p.projects.delete(x, p))), true));
    let n = w.fresh(); v.push(("organizations create".into(), S(Permission::ManageOrganizations), Box::new(move |w, x| w.run(w.p.organizations.create(x, j(&json!({"name": n}))))), true));
    v.push((format!("organizations get {org}"), O(org, OP::ViewOrganization), Box::new(move |w, x| w.run(w.p.organizations.get_by_id(x, org))), true));
    v.push(("organizations list".into(), S(Permission::ViewOrganizations), Box::new(move |w, x| w.run(w.p.organizations.list(x))), true));
    let n = w.fresh(); v.push((format!("organizations update {org}"), O(org, OP::ManageOrganization), Box::new(move |w, x| w.run(w.p.organizations.update(x, org, j(&json!({"name": n}))))), true));
    v.push((format!("organizations delete {org}"), S(Permission::ManageOrganizations), Box::new(move |w, x| w.run(w.p.organizations.delete(x, org))), true));
    let a = s.account; let n = format!("{}@example.com", w.fresh());
    v.push(("accounts create".into(), S(Permission::ManageAccounts), Box::new(move |w, x| w.run(w.p.accounts.create(x, acc_req(&n)))), false));
    v.push(("accounts get".into(), S(Permission::ManageAccounts), Box::new(move |w, x| w.run(w.p.accounts.get_by_id(x, a))), true));
    v.push(("accounts list".into(), S(Permission::ManageAccounts), Box::new(move |w, x| w.run(w.p.accounts.list(x))), true));
    v.push(("accounts update".into(), S(Permission::ManageAccounts), Box::new(move |w, x| { let mut u = acc_up(); u.name = OptionalProperty::Some(Some("Two".into())); w.run(w.p.accounts.update(x, a, u)) }), true));
    v.push(("accounts delete".into(), S(Permission::ManageAccounts), Box::new(move |w, x| w.run(w.p.accounts.delete(x, a))), true));
    v.push(("settings get".into(), S(Permission::ManageServer), Box::new(move |w, x| w.run(w.p.settings.get(x))), true));
    v.push(("settings set".into(), S(Permission::ManageServer), Box::new(move |w, x| w.run(w.p.settings.set(x, j(&json!({"backupProviderS3Bucket": "b"}))))), true));
    v.push(("backups backup".into(), S(Permission::ManageServer), Box::new(move |w, x| w.run(w.p.backups.backup(x))), true));
    let b = s.backup; v.push(("backups get".into(), S(Permission::ManageServer), Box::new(move |w, x| w.run(w.p.backups.get_by_id(x, b))), true));
    v.push(("backups list".into(), S(Permission::ManageServer), Box::new(move |w, x| w.run(w.p.backups.list(x))), true));
    v
}
fn acc_req(email: &str) -> platform::accounts::CreateAccountRequest { platform::accounts::CreateAccountRequest { password: "correct horse battery".into(), email: email.into(), name: Some("New".into()), force_update_password: true, force_update_email: false, role: None, organizations: None, projects: None, teams: None } }
fn acc_up() -> platform::accounts::UpdateAccountRequest { use OptionalProperty::None as N; platform::accounts::UpdateAccountRequest { salt: N, password: N, email: N, name: N, force_update_password: N, role: N, organizations: N, projects: N, teams: N } }
pub fn b01(t: &mut Run) {
    t.rule("one API call by one caller on a store with two organizations of two projects: the caller's server, organization and project roles (absent, duplicate and foreign ids included) drawn at random, every handler asked; distinct by call and caller");
    let mut w = W::new(); let s = fill(&w, &mut t.rng); let base = w.db.dump();
    while t.time_left() {
        w.reset(&base);
        let (org_of, p) = *t.rng.pick(&s.projects); let mine = if t.rng.chance(70) { org_of } else { *t.rng.pick(&s.orgs) }; let org = *t.rng.pick(&s.orgs);
        let all = calls(&w, &mut t.rng, &s, p, org, mine);
        let list = |t: &mut Run, k: u64, id: u64| -> bool { let _ = k; let _ = id; t.rng.chance(60) };
        for (name, gate, f, sure) in all {
            for _ in 0..3 {
                let organizations = if t.rng.chance(40) { None } else { let mut v = vec![]; for o in &s.orgs { if list(t, 0, *o) { v.push((*o, org_role(&mut t.rng))); } } if t.rng.chance(20) { v.push((*t.rng.pick(&s.orgs), org_role(&mut t.rng))); } Some(v) };
                let projects = if t.rng.chance(20) { None } else { let mut v = vec![]; for (_, q) in &s.projects { if list(t, 1, *q) { v.push((*q, proj_role(&mut t.rng))); } } Some(v) };
                let c = Context { account_id: s.account, organization_id: mine, force_update_password: t.rng.bool(), force_update_email: t.rng.bool(), role: if t.rng.chance(15) { Some(Role::Admin) } else { None }, organizations, projects, teams: None };
                let may = allowed(&c, &gate); let key = name.split(' ').take(2).collect::<Vec<_>>().join(" "); let input = format!("{name} in project {p}, as {c:?}");
                if !may {
                    t.check(&format!("refused/{key}"), input, || match h_lib::silence(|| f(&w, c)) { Ok(Err(PlatformError::Forbidden(_))) => if w.db.dump() == base { Ok(()) } else { Err("refused, but the store changed".into()) }, Ok(Err(e)) => Err(format!("answered {e:?}, want Forbidden")), Ok(Ok(v)) => Err(format!("carried out although not permitted: {v}")), Err(_) => Err("panicked before refusing".into()) });
                } else {
                    let r = h_lib::silence(|| f(&w, c.clone()));
                    t.check(&format!("allowed/{key}"), input.clone(), || match &r { Ok(Err(PlatformError::Forbidden(m))) => Err(format!("refused ({m}) although permitted")), Ok(Err(e)) if sure => Err(format!("{e:?}")), Err(_) if sure => Err("panicked".into()), _ => Ok(()) });
                    if let Ok(Ok(v)) = &r { let seen = |v: &Value| -> Vec<u64> { v["data"].as_array().map(|a| a.iter().map(ids).collect()).unwrap_or_default() };
                        if key == "projects list" { let mut want: Vec<u64> = s.projects.iter().filter(|(o, q)| *o == mine && allowed(&c, &Gate::P(*q, ProjectPermission::ViewProject))).map(|x| x.1).collect(); want.sort(); let mut got = seen(v); got.sort(); t.eq("visible/projects", input.clone(), || got, want); }
                        if key == "organizations list" { let mut want: Vec<u64> = s.orgs.iter().filter(|o| allowed(&c, &Gate::O(**o, OrganizationPermission::ViewOrganization))).cloned().collect(); want.sort(); let mut got = seen(v); got.sort(); t.eq("visible/organizations", input.clone(), || got, want); } }
                    if w.db.dump() != base { w.reset(&base); }
                }
            }
        }
    }
}
fn plus(req: &Value, got: &Value, w: &mut Vec<String>) { for (k, x) in req.as_object().unwrap() { let a = norm(json!({k.as_str(): x.clone()})); let b = norm(json!({k.as_str(): got[k].clone()})); if a != b { w.push(format!("{k} is {} although {x} was asked", got[k])); } } }
pub fn b03(t: &mut Run) {
    t.rule("one API request by an administrator, compared with the stored record before and after it through an independent rendering of the record; requests set random subsets of fields; distinct by request and state");
    let mut w = W::new(); let s = fill(&w, &mut t.rng); let base = w.db.dump(); let cs = colls(); let mut k = 0;
    while t.time_left() {
        k += 1; if k % 40 == 1 { w.reset(&base); }
        let c = &cs[t.rng.below(cs.len() as u64) as usize]; let (o, p) = *t.rng.pick(&s.projects); let who = 1 + t.rng.below(900); let x = root(who, o); let key = |a: &str| format!("{a}/{}", c.name);
        let all = (c.all)(&w, p); let bad = t.rng.chance(5); let id = if all.is_empty() || bad { 9999 } else { ids(t.rng.pick(&all)) }; let was = (c.stored)(&w, p, id);
        match t.rng.below(if c.create.is_some() { 6 } else { 5 }) {
            0 => { t.check(&key("get"), format!("{p} {id}"), || match ((c.get)(&w, x, p, id), &was) { (Ok(v), Some(m)) if norm(v.clone()) == norm(m.clone()) => Ok(()), (Err(e), None) if matches!(e, PlatformError::NotFound(_) | PlatformError::Metadata(_)) => Ok(()), (v, m) => Err(format!("answered {v:?}, stored {m:?}")) }); }
            1 => { t.check(&key("list"), format!("{p}"), || { let v = (c.list)(&w, x, p).map_err(|e| format!("{e:?}"))?; let got: Vec<Value> = v["data"].as_array().unwrap().iter().cloned().map(norm).collect(); let want: Vec<Value> = all.iter().cloned().map(norm).collect(); if got == want { Ok(()) } else { Err(format!("answered {got:?}, stored {want:?}")) } }); }
            2 | 3 => { let mut q = (c.req)(&w, &mut t.rng, false); let ks: Vec<String> = q.as_object().unwrap().keys().cloned().collect(); for f in ks { if t.rng.bool() { q.as_object_mut().unwrap().remove(&f); } }
                t.check(&key("update"), format!("{p} {id} {q} by {who}; was {was:?}"), || { let r = (c.update)(&w, x, p, id, &q); let Some(was) = was else { return match r { Err(_) => Ok(()), Ok(v) => Err(format!("updated nothing: {v}")) } }; let v = r.map_err(|e| format!("{e:?}"))?; let now = (c.stored)(&w, p, id).ok_or("record gone")?;
                    if norm(v.clone()) != norm(now.clone()) { return Err(format!("answered {v}, stored {now}")); }
                    let mut e = vec![]; plus(&q, &now, &mut e); for (f, y) in was.as_object().unwrap() { if !q.as_object().unwrap().contains_key(f) && f != "updatedAt" && f != "updatedBy" && norm(json!({f.as_str(): now[f].clone()})) != norm(json!({f.as_str(): y.clone()})) { e.push(format!("{f} changed from {y} to {}", now[f])); } }
                    if now["updatedBy"] != json!(who) { e.push(format!("updatedBy {} instead of {who}", now["updatedBy"])); } if e.is_empty() { Ok(()) } else { Err(e.join("; ")) } }); }
            4 => { if t.rng.chance(70) || was.as_ref().map_or(false, |m| m["name"].as_str().map_or(false, |n| n.starts_with("base"))) { continue; } t.check(&key("delete"), format!("{p} {id}"), || { let r = (c.delete)(&w, x, p, id); match (r, was) { (Ok(v), Some(m)) => if norm(v.clone()) != norm(m.clone()) { Err(format!("answered {v}, was {m}")) } else if (c.stored)(&w, p, id).is_some() { Err("still stored".into()) } else if (c.all)(&w, p).len() + 1 != all.len() { Err("another record went too".into()) } else { Ok(()) }, (Err(_), None) => Ok(()), (r, m) => Err(format!("answered {r:?}, was {m:?}")) } }); }
            _ => { let q = (c.req)(&w, &mut t.rng, true); t.check(&key("create"), format!("{p} {q} by {who}"), || { let v = (c.create.unwrap())(&w, x, p, &q).map_err(|e| format!("{e:?}"))?; let now = (c.stored)(&w, p, ids(&v)).ok_or("not stored")?; if norm(v.clone()) != norm(now.clone()) { return Err(format!("answered {v}, stored {now}")); }
                    let mut e = vec![]; plus(&q, &now, &mut e); if now["createdBy"] != json!(who) { e.push(format!("createdBy {} instead of {who}", now["createdBy"])); } if now["projectId"] != json!(p) { e.push(format!("projectId {}", now["projectId"])); } if e.is_empty() { Ok(()) } else { Err(e.join("; ")) } }); }
        }
        if k % 5 == 0 { special(t, &mut w, &s); }
    }
}
fn special(t: &mut Run, w: &mut W, s: &Seed) {
    let (o, p) = *t.rng.pick(&s.projects); let who = 1 + t.rng.below(900); let x = root(who, o);
    match t.rng.below(7) {
        0 => { // bookmarks belong to the account that made them
            let q = rquery(&mut t.rng); t.check("bookmarks", format!("{p} {q} by {who}"), || { let v = w.run(w.p.bookmarks.create(x.clone(), p, j(&json!({"query": q})))).map_err(|e| format!("{e:?}"))?; let id = v["id"].as_str().unwrap(); let m = w.md.bookmarks.get_by_id(p, who, id).map_err(|e| format!("not found under its maker: {e:?}"))?;
                if m.created_by != who || m.project_id != p || v["createdBy"] != json!(who) || v["projectId"] != json!(p) { return Err(format!("answered {v}, stored {m:?}")); } if norm(v["query"].clone()) != norm(q.clone()) { return Err(format!("query {} instead of {q}", v["query"])); }
                let g = w.run(w.p.bookmarks.get(x, p, id)).map_err(|e| format!("{e:?}"))?; if norm(g.clone()) != norm(v.clone()) { return Err(format!("read back {g}, created {v}")); } if w.run(w.p.bookmarks.get(root(who + 1, o), p, id)).is_ok() { return Err("another account reads it".into()); } Ok(()) }); }
        1 => { // settings: what is named changes, the rest stays; no secret comes back
            let was = w.md.settings.load().unwrap(); let mut q = json!({}); let mut want = was.clone();
            macro_rules! f { ($k:literal, $f:ident, $v:expr) => { if t.rng.chance(30) { let v = $v; q[$k] = json!(v); want.$f = v.into(); } } }
            f!("authAccessToken", auth_access_token, format!("a{who}")); f!("authRefreshToken", auth_refresh_token, format!("r{who}")); f!("backupEnabled", backup_enabled, t.rng.bool()); f!("backupCompressionEnabled", backup_compression_enabled, t.rng.bool()); f!("backupEncryptionPassword", backup_encryption_password, format!("p{who}")); f!("backupProviderS3Bucket", backup_provider_s3_bucket, format!("b{who}")); f!("backupProviderS3Path", backup_provider_s3_path, format!("q{who}")); f!("backupProviderS3Region", backup_provider_s3_region, format!("g{who}")); f!("backupProviderS3AccessKey", backup_provider_s3_access_key, format!("k{who}")); f!("backupProviderS3SecretKey", backup_provider_s3_secret_key, format!("s{who}")); f!("backupProviderGcpBucket", backup_provider_gcp_bucket, format!("u{who}")); f!("backupProviderGcpPath", backup_provider_gcp_path, format!("v{who}"));
            if t.rng.chance(20) && !want.backup_encryption_password.is_empty() { let v = t.rng.bool(); q["backupEncryptionEnabled"] = json!(v); want.backup_encryption_enabled = v; }
            t.check("settings", format!("{q} on {was:?}"), || { let r = w.run(w.p.settings.set(x.clone(), j(&q))).map_err(|e| format!("{e:?}"))?; let now = w.md.settings.load().unwrap(); if now != want { return Err(format!("stored {now:?}, want {want:?}")); }
                let g = w.run(w.p.settings.get(x)).map_err(|e| format!("{e:?}"))?; if g != r { return Err(format!("set answers {r}, get {g}")); }
                for k in ["authAccessToken", "authRefreshToken", "authAdminDefaultPassword", "backupEncryptionPassword", "backupProviderS3SecretKey", "backupProviderGcpKey"] { if !g[k].is_null() { return Err(format!("{k} is handed out")); } }
                let show = json!({"backupEnabled": want.backup_enabled, "backupEncryptionEnabled": want.backup_encryption_enabled, "backupCompressionEnabled": want.backup_compression_enabled, "backupProviderS3Bucket": want.backup_provider_s3_bucket, "backupProviderS3Path": want.backup_provider_s3_path, "backupProviderS3Region": want.backup_provider_s3_region, "backupProviderS3AccessKey": want.backup_provider_s3_access_key, "backupProviderGcpBucket": want.backup_provider_gcp_bucket, "backupProviderGcpPath": want.backup_provider_gcp_path});
                let mut e = vec![]; plus(&show, &g, &mut e); if e.is_empty() { Ok(()) } else { Err(e.join("; ")) } }); }
        2 => { // backups
            use metadata::backups::*; let id = s.backup; let (stt, name, prog, err) = match t.rng.below(5) { 0 => (Status::Idle, "idle", None, None), 1 => (Status::InProgress(who as usize), "inProgress", Some(who), None), 2 => (Status::Uploading, "uploading", None, None), 3 => (Status::Failed(format!("f{who}")), "failed", None, Some(format!("f{who}"))), _ => (Status::Completed, "completed", None, None) };
            t.check("backups", format!("backup with status {stt:?}"), || { w.md.backups.update_status(id, stt).map_err(|e| format!("{e:?}"))?; let m = w.md.backups.get_by_id(id).unwrap(); let v = w.run(w.p.backups.get_by_id(x, id)).map_err(|e| format!("{e:?}"))?;
                let want = json!({"id": id, "createdAt": m.created_at, "updatedAt": m.updated_at, "status": name, "inProgressProgress": prog, "failedError": err, "isEncrypted": m.is_encrypted, "provider": {"type": "local", "path": "/nowhere"}}); if norm(v.clone()) == norm(want.clone()) { Ok(()) } else { Err(format!("answered {v}, want {want}")) } }); }
        3 => { // attaching and detaching properties
            let ev = w.md.events.get_by_name(p, "base1").map(|e| e.id).unwrap_or(9999); let pr = t.rng.below(6); let was = w.md.events.get_by_id(p, ev).ok(); let Some(was) = was else { return }; let had: Vec<u64> = was.event_properties.clone().unwrap_or_default();
            let _ = had; let before = w.db.dump(); t.check("attach", format!("{ev} {pr}"), || { match w.run(w.p.events.attach_property(x.clone(), p, ev, pr)) { Ok(v) => { if ids(&v) != ev || !v["eventProperties"].as_array().map(|a| a.contains(&json!(pr))).unwrap_or(false) { return Err(format!("answered {v}")); } Ok(()) } Err(PlatformError::Forbidden(m)) => Err(m), Err(_) => if w.db.dump() == before { Ok(()) } else { Err("refused, but the store changed".into()) } } }); }
        4 => { // projects
            let q = json!({"name": w.fresh(), "description": text(&mut t.rng), "tags": tags(&mut t.rng), "sessionDurationSeconds": if t.rng.bool() { json!(t.rng.below(9999)) } else { Value::Null }}); let snap = w.db.dump();
            t.check("projects/create", format!("{q} in organization {o} by {who}"), || { let v = w.run(w.p.projects.create(x.clone(), j(&q))).map_err(|e| format!("{e:?}"))?; let m = w.md.projects.get_by_id(ids(&v)).map_err(|e| format!("{e:?}"))?; let mut e = vec![];
                let mut q2 = q.clone(); if q2["sessionDurationSeconds"].is_null() { q2["sessionDurationSeconds"] = json!(1234); } q2["createdBy"] = json!(who); plus(&q2, &project(&m), &mut e); if m.organization_id != o { e.push(format!("organization {}", m.organization_id)); } if m.token.chars().count() != 64 { e.push("token length".into()); } if norm(v.clone()) != norm(project(&m)) { e.push(format!("answered {v}, stored {m:?}")); }
                for tb in std::iter::once(common::types::TABLE_EVENTS.to_string()).chain((0..common::GROUPS_COUNT).map(common::group_col)) { match w.md.dictionaries.get_value(m.id, &tb, "project_id", m.id) { Ok(n) if n == m.name => {} r => e.push(format!("project name in the dictionary of {tb}: {r:?}")) } }
                for n in [common::types::EVENT_CLICK, common::types::EVENT_PAGE, common::types::EVENT_SCREEN, common::types::EVENT_SESSION_BEGIN, common::types::EVENT_SESSION_END] { if w.md.events.get_by_name(m.id, n).is_err() { e.push(format!("no event {n}")); } }
                if e.is_empty() { Ok(()) } else { Err(e.join("; ")) } });
            w.reset(&snap); }
        5 => {
            let was = w.md.projects.get_by_id(p).unwrap(); let mut q = json!({"name": w.fresh(), "description": text(&mut t.rng), "tags": tags(&mut t.rng), "token": w.fresh(), "sessionDurationSeconds": t.rng.below(9999)}); let ks: Vec<String> = q.as_object().unwrap().keys().cloned().collect(); for f in ks { if t.rng.bool() { q.as_object_mut().unwrap().remove(&f); } } let snap = w.db.dump();
            t.check("projects/update", format!("{q} of {was:?} by {who}"), || { let v = w.run(w.p.projects.update(x.clone(), p, j(&q))).map_err(|e| format!("{e:?}"))?; let m = w.md.projects.get_by_id(p).unwrap(); let mut want = project(&was); for (k, y) in q.as_object().unwrap() { want[if k == "token" { "sdkToken" } else { k }] = y.clone(); } want["updatedBy"] = json!(who); want["updatedAt"] = json!(m.updated_at);
                if norm(project(&m)) != norm(want.clone()) { return Err(format!("stored {m:?}, want {want}")); } if norm(v.clone()) != norm(want.clone()) { return Err(format!("answered {v}, want {want}")); }
                for tb in std::iter::once(common::types::TABLE_EVENTS.to_string()).chain((0..common::GROUPS_COUNT).map(common::group_col)) { match w.md.dictionaries.get_value(m.id, &tb, "project_id", m.id) { Ok(n) if n == m.name => {} r => return Err(format!("project name in the dictionary of {tb}: {r:?}")) } } Ok(()) });
            w.reset(&snap); }
        _ => { // accounts and organizations
            let snap = w.db.dump(); let email = format!("{}@example.com", w.fresh()); let mut q = acc_req(&email); q.force_update_password = t.rng.bool(); q.force_update_email = t.rng.bool(); q.name = if t.rng.bool() { Some(w.fresh()) } else { None }; q.role = if t.rng.bool() { Some(Role::Admin) } else { None };
            t.check("accounts", format!("{q:?} by {who}"), || { let v = w.run(w.p.accounts.create(x.clone(), q.clone())).map_err(|e| format!("{e:?}"))?; let m = w.md.accounts.get_by_id(ids(&v)).map_err(|e| format!("{e:?}"))?;
                if m.created_by != who || m.email != email || m.name != q.name || m.force_update_password != q.force_update_password || m.force_update_email != q.force_update_email || m.role != q.role { return Err(format!("stored {m:?}")); } if m.password_hash.contains(&q.password) && !m.password_hash.contains('$') { return Err("password kept in the clear".into()); }
                if v["email"] != json!(email) || v["name"] != json!(q.name) || v["created_by"] != json!(who) { return Err(format!("answered {v}")); } if v.to_string().contains(&m.password_hash) { return Err("password hash handed out".into()); }
                let mut u = acc_up(); u.name = OptionalProperty::Some(Some("renamed".into())); let v2 = w.run(w.p.accounts.update(x.clone(), m.id, u)).map_err(|e| format!("{e:?}"))?; let m2 = w.md.accounts.get_by_id(m.id).unwrap(); if m2.name.as_deref() != Some("renamed") || m2.email != m.email || m2.password_hash != m.password_hash || m2.role != m.role || m2.updated_by != Some(who) || v2["name"] != json!("renamed") { return Err(format!("after renaming {m2:?}")); }
                let mut u = acc_up(); u.force_update_password = OptionalProperty::Some(!m2.force_update_password); w.run(w.p.accounts.update(x.clone(), m.id, u)).map_err(|e| format!("{e:?}"))?; let n2 = w.md.accounts.get_by_id(m.id).unwrap(); if n2.force_update_password == m2.force_update_password || n2.password_hash != m2.password_hash || n2.name != m2.name { return Err(format!("after asking for a new password {n2:?}")); }
                let mut u = acc_up(); u.password = OptionalProperty::Some("another long secret".into()); w.run(w.p.accounts.update(x.clone(), m.id, u)).map_err(|e| format!("{e:?}"))?; let m3 = w.md.accounts.get_by_id(m.id).unwrap(); if m3.password_hash == m2.password_hash || m3.name != m2.name || m3.email != m2.email { return Err(format!("after a new password {m3:?}")); }
                let (x, who) = (root(m.id, o), m.id); let n = w.fresh(); let v = w.run(w.p.organizations.create(x.clone(), j(&json!({"name": n})))).map_err(|e| format!("{e:?}"))?; let o1 = w.md.organizations.get_by_id(ids(&v)).unwrap(); if o1.name != n || o1.created_by != who || v["name"] != json!(n) { return Err(format!("organization {o1:?}")); }
                let n = w.fresh(); let v = w.run(w.p.organizations.update(x, o1.id, j(&json!({"name": n})))).map_err(|e| format!("{e:?}"))?; let o2 = w.md.organizations.get_by_id(o1.id).unwrap(); if o2.name != n || o2.updated_by != Some(who) || o2.created_by != who || v["name"] != json!(n) || v["updatedBy"] != json!(who) { return Err(format!("organization {o2:?}, answer {v}")); } Ok(()) });
            w.reset(&snap); }
    }
}
fn project(m: &metadata::projects::Project) -> Value { json!({"id": m.id, "createdAt": m.created_at, "updatedAt": m.updated_at, "createdBy": m.created_by, "updatedBy": m.updated_by, "tags": m.tags, "sdkToken": m.token, "name": m.name, "description": m.description, "sessionDurationSeconds": m.session_duration_seconds, "eventsCount": m.events_count}) }
