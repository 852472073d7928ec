//! One description per metadata collection: how to make requests, and what a record must look like after them.
use crate::*;
pub fn opt<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> { if r.bool() { Some(f(r)) } else { None } }
pub fn up<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> OptionalProperty<T> { if r.chance(40) { OptionalProperty::Some(f(r)) } else { OptionalProperty::None } }
pub fn tags(r: &mut Rng) -> Vec<String> { (0..r.below(4)).map(|_| r.string(4)).collect() }
pub fn text(r: &mut Rng) -> String { r.string(6) }
pub fn sec(t: DateTime<Utc>) -> DateTime<Utc> { DateTime::from_timestamp(t.timestamp(), 0).unwrap() }
fn ne<T>(v: Option<Vec<T>>) -> Option<Vec<T>> { v.filter(|v| !v.is_empty()) }
fn set<T: Clone>(u: &OptionalProperty<T>, was: &T) -> T { match u { OptionalProperty::Some(v) => v.clone(), OptionalProperty::None => was.clone() } }
pub const PROJ: [&str; 12] = ["a", "b", "a/b", "", "A", "a ", "data/1", "1", "é", "x/idx/name/a", "É", " a"];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Scope { Global, Org, Project }
pub trait Kind {
    const NAME: &'static str; const SCOPE: Scope;
    type E: Clone + Debug; type C: Clone + Debug; type U: Clone + Debug;
    fn gc(r: &mut Rng, names: &[&str], s: u64) -> Self::C;
    fn gu(r: &mut Rng, names: &[&str]) -> Self::U;
    fn create(m: &Md, s: u64, c: Self::C) -> Res<Self::E>;
    fn get(m: &Md, s: u64, id: u64) -> Res<Self::E>;
    fn list(m: &Md, s: u64) -> Res<Vec<Self::E>>;
    fn update(m: &Md, s: u64, id: u64, u: Self::U) -> Res<Self::E>;
    fn delete(m: &Md, s: u64, id: u64) -> Res<Self::E>;
    /// the record a create request must lead to; id, times and store-assigned numbers come from the answer
    fn made(c: &Self::C, s: u64, got: &Self::E) -> Self::E;
    fn changed(was: &Self::E, u: &Self::U, got: &Self::E) -> Self::E;
    fn norm(e: &Self::E) -> Self::E;
    fn id(e: &Self::E) -> u64;
    fn created(e: &Self::E) -> DateTime<Utc>;
    fn updated(e: &Self::E) -> Option<DateTime<Utc>>;
    fn keys(e: &Self::E) -> Vec<(&'static str, String)>;
    fn ckeys(c: &Self::C) -> Vec<(&'static str, String)>;
    fn ukeys(u: &Self::U, was: &Self::E) -> Vec<(&'static str, String)>;
    fn by_key(_: &Md, _: u64, _f: &str, _k: &str) -> Option<Res<Self::E>> { None }
}
macro_rules! kind {
    ($K:ident, $name:literal, $scope:ident, $E:ty, $C:ty, $U:ty, get: $get:expr, list: $list:expr, create: $create:expr, update: $update:expr, delete: $delete:expr, gc: $gc:expr, gu: $gu:expr, made: $made:expr, changed: { $($cf:ident),* } $cx:expr, norm: $norm:expr, keys: { $($kl:literal $kf:ident),* ; $($ol:literal $of:ident),* } $(, by: $by:expr)?) => {
        pub struct $K;
        impl Kind for $K {
            const NAME: &'static str = $name; const SCOPE: Scope = Scope::$scope; type E = $E; type C = $C; type U = $U;
            fn gc(r: &mut Rng, names: &[&str], s: u64) -> $C { let f: fn(&mut Rng, &[&str], u64) -> $C = $gc; f(r, names, s) }
            fn gu(r: &mut Rng, names: &[&str]) -> $U { let f: fn(&mut Rng, &[&str]) -> $U = $gu; f(r, names) }
            fn create(m: &Md, s: u64, c: $C) -> Res<$E> { let f: fn(&Md, u64, $C) -> Res<$E> = $create; f(m, s, c) }
            fn get(m: &Md, s: u64, id: u64) -> Res<$E> { let f: fn(&Md, u64, u64) -> Res<$E> = $get; f(m, s, id) }
            fn list(m: &Md, s: u64) -> Res<Vec<$E>> { let f: fn(&Md, u64) -> Res<ListResponse<$E>> = $list; Ok(f(m, s)?.data) }
            fn update(m: &Md, s: u64, id: u64, u: $U) -> Res<$E> { let f: fn(&Md, u64, u64, $U) -> Res<$E> = $update; f(m, s, id, u) }
            fn delete(m: &Md, s: u64, id: u64) -> Res<$E> { let f: fn(&Md, u64, u64) -> Res<$E> = $delete; f(m, s, id) }
            fn made(c: &$C, s: u64, got: &$E) -> $E { let f: fn($C, u64, &$E) -> $E = $made; f(c.clone(), s, got) }
            #[allow(unused_mut)]
            fn changed(was: &$E, u: &$U, got: &$E) -> $E { let mut e = was.clone(); $(e.$cf = set(&u.$cf, &was.$cf);)* e.updated_at = got.updated_at; e.updated_by = Some(u.updated_by); let f: fn(&mut $E, &$U) = $cx; f(&mut e, u); e }
            fn norm(e: &$E) -> $E { let mut e = e.clone(); e.created_at = sec(e.created_at); e.updated_at = e.updated_at.map(sec); let f: fn(&mut $E) = $norm; f(&mut e); e }
            fn id(e: &$E) -> u64 { e.id }
            fn created(e: &$E) -> DateTime<Utc> { e.created_at }
            fn updated(e: &$E) -> Option<DateTime<Utc>> { e.updated_at }
            #[allow(unused_mut)]
            fn keys(e: &$E) -> Vec<(&'static str, String)> { let mut v = vec![$(($kl, e.$kf.clone())),*]; $(if let Some(k) = &e.$of { v.push(($ol, k.clone())); })* v }
            #[allow(unused_mut)]
            fn ckeys(e: &$C) -> Vec<(&'static str, String)> { let mut v = vec![$(($kl, e.$kf.clone())),*]; $(if let Some(k) = &e.$of { v.push(($ol, k.clone())); })* v }
            #[allow(unused_mut)]
            fn ukeys(u: &$U, was: &$E) -> Vec<(&'static str, String)> { Self::keys(&Self::changed(was, u, was)) }
            $(fn by_key(m: &Md, s: u64, f: &str, k: &str) -> Option<Res<$E>> { let g: fn(&Md, u64, &str, &str) -> Option<Res<$E>> = $by; g(m, s, f, k) })?
        }
    };
}
use metadata::{accounts, custom_events, dashboards, events, projects, properties, reports, teams};
kind!(Teams, "teams", Org, teams::Team, teams::CreateTeamRequest, teams::UpdateTeamRequest,
    get: |m, s, id| m.teams.get_by_id(s, id), list: |m, s| m.teams.list(s), create: |m, s, c| m.teams.create(s, c), update: |m, s, id, u| m.teams.update(s, id, u), delete: |m, s, id| m.teams.delete(s, id),
    gc: |r, n, s| teams::CreateTeamRequest { created_by: r.below(5), organization_id: s, name: r.pick(n).to_string() },
    gu: |r, n| teams::UpdateTeamRequest { updated_by: r.below(5), name: up(r, |r| r.pick(n).to_string()) },
    made: |c, s, g| teams::Team { id: g.id, created_at: g.created_at, created_by: c.created_by, updated_at: None, updated_by: None, organization_id: s, name: c.name },
    changed: { name } |_, _| {}, norm: |_| {}, keys: { "name" name ; });
fn rtype(r: &mut Rng) -> reports::Type { if r.bool() { reports::Type::EventSegmentation } else { reports::Type::Funnel } }
fn rquery(r: &mut Rng) -> reports::Query { queries::report_query(r) }
kind!(Reports, "reports", Project, reports::Report, reports::CreateReportRequest, reports::UpdateReportRequest,
    get: |m, s, id| m.p.reports.get_by_id(s, id), list: |m, s| m.p.reports.list(s), create: |m, s, c| m.p.reports.create(s, c), update: |m, s, id, u| m.p.reports.update(s, id, u), delete: |m, s, id| m.p.reports.delete(s, id),
    gc: |r, n, _| reports::CreateReportRequest { created_by: r.below(5), tags: opt(r, tags), name: r.pick(n).to_string(), description: opt(r, text), typ: rtype(r), query: rquery(r) },
    gu: |r, n| reports::UpdateReportRequest { updated_by: r.below(5), tags: up(r, |r| opt(r, tags)), name: up(r, |r| r.pick(n).to_string()), description: up(r, |r| opt(r, text)), typ: OptionalProperty::None, query: up(r, rquery) },
    made: |c, s, g| reports::Report { id: g.id, created_at: g.created_at, updated_at: None, created_by: c.created_by, updated_by: None, project_id: s, tags: c.tags, name: c.name, description: c.description, typ: c.typ, query: c.query },
    changed: { tags, name, description, query } |_, _| {}, norm: |e| { e.tags = ne(e.tags.take()); }, keys: { ; });
fn panels(r: &mut Rng) -> Vec<dashboards::Panel> { (0..r.below(3)).map(|_| dashboards::Panel { typ: dashboards::Type::Report, report_id: r.below(9), x: r.below(99) as usize, y: r.below(99) as usize, w: r.below(99) as usize, h: r.below(u32::MAX as u64) as usize }).collect() }
kind!(Dashboards, "dashboards", Project, dashboards::Dashboard, dashboards::CreateDashboardRequest, dashboards::UpdateDashboardRequest,
    get: |m, s, id| m.p.dashboards.get_by_id(s, id), list: |m, s| m.p.dashboards.list(s), create: |m, s, c| m.p.dashboards.create(s, c), update: |m, s, id, u| m.p.dashboards.update(s, id, u), delete: |m, s, id| m.p.dashboards.delete(s, id),
    gc: |r, n, _| dashboards::CreateDashboardRequest { created_by: r.below(5), tags: opt(r, tags), name: r.pick(n).to_string(), description: opt(r, text), panels: panels(r) },
    gu: |r, n| dashboards::UpdateDashboardRequest { updated_by: r.below(5), tags: up(r, |r| opt(r, tags)), name: up(r, |r| r.pick(n).to_string()), description: up(r, |r| opt(r, text)), panels: up(r, panels) },
    made: |c, s, g| dashboards::Dashboard { id: g.id, created_at: g.created_at, updated_at: None, created_by: c.created_by, updated_by: None, project_id: s, tags: c.tags, name: c.name, description: c.description, panels: c.panels },
    changed: { tags, name, description, panels } |_, _| {}, norm: |e| { e.tags = ne(e.tags.take()); }, keys: { ; });
fn tok(r: &mut Rng) -> String { format!("token-{}", r.below(5)) }
kind!(Projects, "projects", Global, projects::Project, projects::CreateProjectRequest, projects::UpdateProjectRequest,
    get: |m, _, id| m.p.projects.get_by_id(id), list: |m, _| m.p.projects.list(), create: |m, _, c| m.p.projects.create(c), update: |m, _, id, u| m.p.projects.update(id, u), delete: |m, _, id| m.p.projects.delete(id),
    gc: |r, n, _| projects::CreateProjectRequest { created_by: r.below(5), organization_id: r.below(3), name: r.pick(n).to_string(), description: opt(r, text), tags: opt(r, tags), token: tok(r), session_duration_seconds: r.below(9999) },
    gu: |r, n| projects::UpdateProjectRequest { updated_by: r.below(5), name: up(r, |r| r.pick(n).to_string()), description: up(r, |r| opt(r, text)), tags: up(r, |r| opt(r, tags)), token: up(r, tok), session_duration_seconds: up(r, |r| r.below(9999)) },
    made: |c, _, g| projects::Project { id: g.id, created_at: g.created_at, created_by: c.created_by, updated_at: None, updated_by: None, organization_id: c.organization_id, name: c.name, description: c.description, tags: c.tags, token: c.token, session_duration_seconds: c.session_duration_seconds, events_count: 0 },
    changed: { name, description, tags, token, session_duration_seconds } |_, _| {}, norm: |e| { e.tags = ne(e.tags.take()); }, keys: { "name" name, "token" token ; },
    by: |m, _, f, k| if f == "token" { Some(m.p.projects.get_by_token(k)) } else { None });
use common::rbac::{OrganizationRole, ProjectRole, Role};
fn role(_: &mut Rng) -> Role { Role::Admin }
fn orole(r: &mut Rng) -> OrganizationRole { r.pick(&[OrganizationRole::Owner, OrganizationRole::Admin, OrganizationRole::Member]).clone() }
fn prole(r: &mut Rng) -> ProjectRole { r.pick(&[ProjectRole::Owner, ProjectRole::Admin, ProjectRole::Member, ProjectRole::Reader]).clone() }
fn many<T>(r: &mut Rng, f: fn(&mut Rng) -> T) -> Vec<(u64, T)> { (0..r.below(3)).map(|_| (r.below(9), f(r))).collect() }
kind!(Accounts, "accounts", Global, accounts::Account, accounts::CreateAccountRequest, accounts::UpdateAccountRequest,
    get: |m, _, id| m.p.accounts.get_by_id(id), list: |m, _| m.p.accounts.list(), create: |m, _, c| m.p.accounts.create(c), update: |m, _, id, u| m.p.accounts.update(id, u), delete: |m, _, id| m.p.accounts.delete(id),
    gc: |r, n, _| accounts::CreateAccountRequest { created_by: r.below(5), password_hash: text(r), email: r.pick(n).to_string(), name: opt(r, text), force_update_password: r.bool(), force_update_email: r.bool(), role: opt(r, role), organizations: opt(r, |r| many(r, orole)), projects: opt(r, |r| many(r, prole)), teams: opt(r, |r| many(r, role)) },
    gu: |r, n| accounts::UpdateAccountRequest { updated_by: r.below(5), password_hash: up(r, text), email: up(r, |r| r.pick(n).to_string()), name: up(r, |r| opt(r, text)), force_update_password: up(r, |r| r.bool()), force_update_email: up(r, |r| r.bool()), role: up(r, |r| opt(r, role)), organizations: up(r, |r| opt(r, |r| many(r, orole))), projects: up(r, |r| opt(r, |r| many(r, prole))), teams: up(r, |r| opt(r, |r| many(r, role))) },
    made: |c, _, g| accounts::Account { id: g.id, created_at: g.created_at, created_by: c.created_by, updated_at: None, updated_by: None, password_hash: c.password_hash, email: c.email, name: c.name, role: c.role, force_update_password: c.force_update_password, force_update_email: c.force_update_email, organizations: c.organizations, projects: c.projects, teams: c.teams },
    changed: { password_hash, email, name, force_update_password, force_update_email, role, organizations, projects, teams } |_, _| {}, norm: |e| { e.organizations = ne(e.organizations.take()); e.projects = ne(e.projects.take()); e.teams = ne(e.teams.take()); }, keys: { "email" email ; },
    by: |m, _, f, k| if f == "email" { Some(m.p.accounts.get_by_email(k)) } else { None });
fn ids(r: &mut Rng) -> Vec<u64> { (0..r.below(3)).map(|_| r.below(9)).collect() }
fn estat(r: &mut Rng) -> events::Status { if r.bool() { events::Status::Enabled } else { events::Status::Disabled } }
kind!(Events, "events", Project, events::Event, events::CreateEventRequest, events::UpdateEventRequest,
    get: |m, s, id| m.p.events.get_by_id(s, id), list: |m, s| m.p.events.list(s), create: |m, s, c| m.p.events.create(s, c), update: |m, s, id, u| m.p.events.update(s, id, u), delete: |m, s, id| m.p.events.delete(s, id),
    gc: |r, n, _| events::CreateEventRequest { created_by: r.below(5), tags: opt(r, tags), name: r.pick(n).to_string(), display_name: opt(r, |r| r.pick(n).to_string()), description: opt(r, text), status: estat(r), is_system: r.bool(), event_properties: opt(r, ids), user_properties: opt(r, ids), custom_properties: opt(r, ids) },
    gu: |r, n| events::UpdateEventRequest { updated_by: r.below(5), tags: up(r, |r| opt(r, tags)), name: up(r, |r| r.pick(n).to_string()), display_name: up(r, |r| opt(r, |r| r.pick(n).to_string())), description: up(r, |r| opt(r, text)), status: up(r, estat), is_system: up(r, |r| r.bool()), event_properties: up(r, |r| opt(r, ids)), user_properties: OptionalProperty::None, custom_properties: OptionalProperty::None },
    made: |c, s, g| events::Event { id: g.id, created_at: g.created_at, updated_at: None, created_by: c.created_by, updated_by: None, project_id: s, tags: c.tags, name: c.name, display_name: c.display_name, description: c.description, status: c.status, is_system: c.is_system, event_properties: c.event_properties, user_properties: c.user_properties, custom_properties: c.custom_properties },
    changed: { tags, name, display_name, description, status, is_system, event_properties, user_properties, custom_properties } |_, _| {},
    // the stored form has no property lists (known finding, checked separately)
    norm: |e| { e.tags = ne(e.tags.take()); e.event_properties = None; e.user_properties = None; e.custom_properties = None; }, keys: { "name" name ; "display_name" display_name },
    by: |m, s, f, k| if f == "name" { Some(m.p.events.get_by_name(s, k)) } else { None });
fn cstat(r: &mut Rng) -> custom_events::Status { if r.bool() { custom_events::Status::Enabled } else { custom_events::Status::Disabled } }
fn cev(r: &mut Rng) -> Vec<custom_events::Event> { (0..1 + r.below(2)).map(|_| custom_events::Event { event: common::query::EventRef::RegularName("anchor".into()), filters: opt(r, |r| (0..1 + r.below(2)).map(|_| queries::prop_filter(r)).collect()) }).collect() }
kind!(CustomEvents, "custom events", Project, custom_events::CustomEvent, custom_events::CreateCustomEventRequest, custom_events::UpdateCustomEventRequest,
    get: |m, s, id| m.p.custom_events.get_by_id(s, id), list: |m, s| m.p.custom_events.list(s), create: |m, s, c| m.p.custom_events.create(s, c), update: |m, s, id, u| m.p.custom_events.update(s, id, u), delete: |m, s, id| m.p.custom_events.delete(s, id),
    gc: |r, n, _| custom_events::CreateCustomEventRequest { created_by: r.below(5), tags: opt(r, tags), name: r.pick(n).to_string(), description: opt(r, text), status: cstat(r), is_system: r.bool(), events: cev(r) },
    gu: |r, n| custom_events::UpdateCustomEventRequest { updated_by: r.below(5), tags: up(r, |r| opt(r, tags)), name: up(r, |r| r.pick(n).to_string()), description: up(r, |r| opt(r, text)), status: up(r, cstat), is_system: up(r, |r| r.bool()), events: up(r, cev) },
    made: |c, s, g| custom_events::CustomEvent { id: g.id, created_at: g.created_at, updated_at: None, created_by: c.created_by, updated_by: None, project_id: s, tags: c.tags, name: c.name, description: c.description, status: c.status, is_system: c.is_system, events: c.events },
    changed: { tags, name, description, status, is_system, events } |_, _| {}, norm: |e| { e.tags = ne(e.tags.take()); }, keys: { "name" name ; },
    by: |m, s, f, k| if f == "name" { Some(m.p.custom_events.get_by_name(s, k)) } else { None });
pub fn anchor() -> events::CreateEventRequest { events::CreateEventRequest { created_by: 1, tags: None, name: "anchor".into(), display_name: None, description: None, status: events::Status::Enabled, is_system: false, event_properties: None, user_properties: None, custom_properties: None } }
fn pstat(r: &mut Rng) -> properties::Status { if r.bool() { properties::Status::Enabled } else { properties::Status::Disabled } }
fn dtype(r: &mut Rng) -> common::types::DType { use common::types::DType::*; r.pick(&[String, Int8, Int16, Int32, Int64, Decimal, Boolean, Timestamp]).clone() }
fn dict(r: &mut Rng) -> properties::DictionaryType { use properties::DictionaryType::*; r.pick(&[Int8, Int16, Int32, Int64]).clone() }
fn prop_c(r: &mut Rng, n: &[&str], typ: properties::Type) -> properties::CreatePropertyRequest { properties::CreatePropertyRequest { created_by: r.below(5), tags: opt(r, tags), name: r.pick(n).to_string(), description: opt(r, text), display_name: opt(r, |r| r.pick(n).to_string()), typ, data_type: dtype(r), status: pstat(r), hidden: r.bool(), is_system: r.chance(30), nullable: r.bool(), is_array: r.bool(), is_dictionary: r.bool(), dictionary_type: opt(r, dict) } }
fn prop_u(r: &mut Rng, n: &[&str]) -> properties::UpdatePropertyRequest { properties::UpdatePropertyRequest { updated_by: r.below(5), tags: up(r, |r| opt(r, tags)), name: OptionalProperty::None, description: up(r, |r| opt(r, text)), display_name: up(r, |r| opt(r, |r| r.pick(n).to_string())), typ: OptionalProperty::None, data_type: up(r, dtype), status: up(r, pstat), is_system: up(r, |r| r.bool()), nullable: up(r, |r| r.bool()), is_array: up(r, |r| r.bool()), is_dictionary: up(r, |r| r.bool()), dictionary_type: up(r, |r| opt(r, dict)) } }
fn prop_made(c: properties::CreatePropertyRequest, s: u64, g: &properties::Property) -> properties::Property { properties::Property { id: g.id, created_at: g.created_at, updated_at: None, created_by: c.created_by, updated_by: None, project_id: s, tags: c.tags, name: c.name, description: c.description, display_name: c.display_name, order: g.order, typ: c.typ, data_type: c.data_type, status: c.status, is_system: c.is_system, nullable: c.nullable, hidden: c.hidden, is_array: c.is_array, is_dictionary: c.is_dictionary, dictionary_type: c.dictionary_type } }
macro_rules! props { ($K:ident, $name:literal, $typ:expr, $m:ident => $p:expr) => {
    kind!($K, $name, Project, properties::Property, properties::CreatePropertyRequest, properties::UpdatePropertyRequest,
        get: |$m, s, id| $p.get_by_id(s, id), list: |$m, s| $p.list(s), create: |$m, s, c| $p.create(s, c), update: |$m, s, id, u| $p.update(s, id, u), delete: |$m, s, id| $p.delete(s, id),
        gc: |r, n, _| prop_c(r, n, $typ), gu: prop_u, made: prop_made,
        changed: { tags, description, display_name, data_type, status, is_system, nullable, is_array, is_dictionary, dictionary_type } |_, _| {}, norm: |e| { e.tags = ne(e.tags.take()); }, keys: { "name" name ; "display_name" display_name },
        by: |$m, s, f, k| if f == "name" { Some($p.get_by_name(s, k)) } else { None });
} }
props!(EventProps, "event properties", properties::Type::Event, m => m.p.event_properties);
props!(Group0Props, "group 0 properties", properties::Type::Group(0), m => m.p.group_properties[0]);
props!(Group1Props, "group 1 properties", properties::Type::Group(1), m => m.p.group_properties[1]);
