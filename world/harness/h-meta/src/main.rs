//! Histories against every metadata collection, each answer compared with a model of the collections.
mod kinds; mod queries; mod special;
pub use std::collections::BTreeMap; pub use std::fmt::Debug; pub use std::sync::Arc;
pub use chrono::{DateTime, Utc}; pub use common::types::OptionalProperty; pub use h_lib::{Rng, Run}; pub use metadata::metadata::ListResponse; pub use metadata::error::MetadataError;
use kinds::*; use rocksdb::TransactionDB;
pub type Res<T> = Result<T, MetadataError>;
pub struct Md { pub db: Arc<TransactionDB>, pub p: metadata::MetadataProvider, pub teams: metadata::teams::Teams }
pub struct World { opti: Arc<storage::db::OptiDBImpl>, dir: std::path::PathBuf }
impl World {
    pub fn new() -> Self {
        let dir = std::env::temp_dir().join(format!("h-meta-{}", std::process::id())); let _ = std::fs::remove_dir_all(&dir); std::fs::create_dir_all(&dir).unwrap();
        let o = storage::db::OptiDBImpl::open(dir.join("db"), storage::db::Options {}).unwrap(); let o = Arc::new(o);
        o.create_table(common::types::TABLE_EVENTS.to_string(), storage::table::Options::test(false)).unwrap();
        for g in 0..common::GROUPS_COUNT { o.create_table(common::group_col(g), storage::table::Options::test(true)).unwrap(); }
        World { opti: o, dir }
    }
    pub fn md(&self) -> Md { let db = Arc::new(TransactionDB::in_memory()); Md { p: metadata::MetadataProvider::try_new(db.clone(), self.opti.clone()).unwrap(), teams: metadata::teams::Teams::new(db.clone()), db } }
}
impl Drop for World { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.dir); } }
pub fn cls<T>(r: &Res<T>) -> &'static str { match r { Ok(_) => "ok", Err(MetadataError::NotFound(_)) => "not found", Err(MetadataError::AlreadyExists(_)) => "already exists", Err(MetadataError::BadRequest(_)) => "bad request", Err(_) => "other" } }

/// what one collection should hold
pub struct Model<K: Kind> { pub recs: BTreeMap<(u64, u64), K::E>, pub last: BTreeMap<u64, u64> }
impl<K: Kind> Default for Model<K> { fn default() -> Self { Model { recs: BTreeMap::new(), last: BTreeMap::new() } } }
fn dbg<K: Kind>(e: &K::E) -> String { format!("{:?}", K::norm(e)) }
/// everything a caller can see of one scope of a collection: the list and every id ever issued
fn view<K: Kind>(m: &Md, s: u64, upto: u64) -> Result<(Vec<String>, Vec<(u64, String)>), String> {
    let mut l: Vec<String> = K::list(m, s).map_err(|e| format!("list failed: {e:?}"))?.iter().map(|e| dbg::<K>(e)).collect(); l.sort();
    let mut g = vec![]; for id in 0..=upto + 2 { match K::get(m, s, id) { Ok(e) => g.push((id, dbg::<K>(&e))), Err(MetadataError::NotFound(_)) => {}, Err(e) => return Err(format!("get {id} failed: {e:?}")) } }
    Ok((l, g))
}
fn want<K: Kind>(x: &Model<K>, s: u64) -> (Vec<String>, Vec<(u64, String)>) {
    let r: Vec<_> = x.recs.range((s, 0)..=(s, u64::MAX)).collect(); let mut l: Vec<String> = r.iter().map(|(_, e)| dbg::<K>(e)).collect(); l.sort();
    (l, r.iter().map(|((_, i), e)| (*i, dbg::<K>(e))).collect())
}
pub trait Coll { fn step(&mut self, t: &mut Run, m: &Md, prop: &str, log: &mut Vec<String>) -> (String, u64); fn agrees(&self, m: &Md, skip: Option<u64>) -> Result<(), String>; fn name(&self) -> &'static str; }
const SCOPES: [u64; 3] = [1, 11, 2];
impl<K: Kind> Coll for Model<K> {
    fn name(&self) -> &'static str { K::NAME }
    fn agrees(&self, m: &Md, skip: Option<u64>) -> Result<(), String> {
        for s in if K::SCOPE == Scope::Global { &SCOPES[..1] } else { &SCOPES[..] } { if skip == Some(*s) { continue; }
            let got = view::<K>(m, *s, *self.last.get(s).unwrap_or(&0))?; let w = want(self, *s);
            if got.0 != w.0 { return Err(format!("{} of {:?} {s}: list gives {:?}, want {:?}", K::NAME, K::SCOPE, got.0, w.0)); }
            if got.1 != w.1 { return Err(format!("{} of {:?} {s}: reads give {:?}, want {:?}", K::NAME, K::SCOPE, got.1, w.1)); } }
        Ok(())
    }
    fn step(&mut self, t: &mut Run, m: &Md, prop: &str, log: &mut Vec<String>) -> (String, u64) {
        let s = if K::SCOPE == Scope::Global { 1 } else { *t.rng.pick(&SCOPES) };
        let names = &PROJ[..3 + t.rng.below(10) as usize]; let last = *self.last.get(&s).unwrap_or(&0);
        let id = if t.rng.chance(80) && !self.recs.is_empty() { let v: Vec<u64> = self.recs.iter().filter(|(k, e)| k.0 == s && !K::keys(e).contains(&("name", "anchor".to_string()))).map(|(k, _)| k.1).collect(); if v.is_empty() { last + 1 } else { *t.rng.pick(&v) } } else { *t.rng.pick(&[0, last + 1, last + 2, 10 * last + 11]) };
        let key = |a: &str| format!("{a}:{}", K::NAME);
        let taken = |ks: &[(&'static str, String)], me: u64, x: &Model<K>| x.recs.iter().any(|((q, i), e)| *q == s && *i != me && K::keys(e).iter().any(|k| ks.contains(k)));
        let fail = if t.rng.chance(20) { Some(t.rng.below(14) as i64) } else { None };
        let before = m.db.dump(); let t0 = Utc::now();
        let roll = t.rng.below(100);
        let arm = || if let Some(n) = fail { m.db.fail_after(n); }; let disarm = || m.db.fail_after(-1);
        let desc; let outcome: &'static str;
        if roll < 45 {
            let c = K::gc(&mut t.rng, names, s); let dup = taken(&K::ckeys(&c), u64::MAX, self); desc = format!("create {} in {s}: {c:?}{}", K::NAME, fail.map(|n| format!(", store fails after {n} operations")).unwrap_or_default()); log.push(desc.clone()); let h = log.join("; ");
            arm(); let r = h_lib::silence(|| K::create(m, s, c.clone())); disarm();
            let Ok(r) = r else { t.check(&key("crud/no-panic"), h, || Err("panicked".into())); return (desc, s) };
            outcome = cls(&r);
            if prop == "M01" && fail.is_none() { t.check(&key("isolation/names"), h.clone(), || if dup == (outcome == "already exists") { Ok(()) } else { Err(format!("name taken here: {dup}, answer: {outcome}")) }); }
            if prop == "M02" { if fail.is_none() { t.check(&key("unique/create"), h.clone(), || if dup == (outcome == "already exists") { Ok(()) } else { Err(format!("name taken: {dup}, answer: {outcome}")) }); } }
            else if prop == "M04" && fail.is_none() { t.check(&key("crud/create-answer"), h.clone(), || match (&r, dup) { (Ok(_), _) | (Err(MetadataError::AlreadyExists(_)), true) => Ok(()), (Err(e), _) => Err(format!("{e:?}")) }); }
            if let Ok(e) = r {
                let id = K::id(&e);
                if prop == "M03" { t.check(&key("ids/increase"), h.clone(), || if id > last { Ok(()) } else { Err(format!("new id {id}, but {last} was issued before")) }); }
                if prop == "M04" { t.check(&key("crud/create"), h.clone(), || { let w = K::made(&c, s, &e); if format!("{e:?}") != format!("{w:?}") { return Err(format!("answered {e:?}, want {w:?}")); } let n = Utc::now(); if K::created(&e) < t0 || K::created(&e) > n { return Err(format!("created_at {}", K::created(&e))); } Ok(()) }); }
                self.last.insert(s, last.max(id)); self.recs.insert((s, id), e);
            }
        } else if roll < 75 {
            let u = K::gu(&mut t.rng, names); let was = self.recs.get(&(s, id)).cloned(); desc = format!("update {} {id} in {s}: {u:?}{}", K::NAME, fail.map(|n| format!(", store fails after {n} operations")).unwrap_or_default()); log.push(desc.clone()); let h = log.join("; ");
            let dup = was.as_ref().map(|w| { let ks: Vec<_> = K::ukeys(&u, w).into_iter().filter(|k| !K::keys(w).contains(k)).collect(); taken(&ks, id, self) }).unwrap_or(false);
            arm(); let r = h_lib::silence(|| K::update(m, s, id, u.clone())); disarm();
            let Ok(r) = r else { t.check(&key("crud/no-panic"), h, || Err("panicked".into())); return (desc, s) };
            outcome = cls(&r);
            if fail.is_none() { let w = if was.is_none() { "not found" } else if dup { "already exists" } else { "ok" };
                if prop == "M02" && was.is_some() { t.check(&key("unique/update"), h.clone(), || if dup == (outcome == "already exists") { Ok(()) } else { Err(format!("name taken: {dup}, answer: {outcome}")) }); }
                if prop == "M04" { t.check(&key("crud/update-answer"), h.clone(), || if dup || outcome == w { Ok(()) } else { Err(format!("answer: {outcome}, want: {w}")) }); } }
            if let (Ok(e), Some(was)) = (r, was) {
                if prop == "M04" { t.check(&key("crud/update"), h.clone(), || { let w = K::changed(&K::norm(&was), &u, &e); if dbg::<K>(&e) != dbg::<K>(&w) { return Err(format!("answered {e:?}, want {w:?}")); } match K::updated(&e) { Some(x) if x >= t0 && x <= Utc::now() => Ok(()), x => Err(format!("updated_at {x:?}")) } }); }
                self.recs.insert((s, id), e);
            }
        } else {
            let was = self.recs.get(&(s, id)).cloned(); desc = format!("delete {} {id} in {s}{}", K::NAME, fail.map(|n| format!(", store fails after {n} operations")).unwrap_or_default()); log.push(desc.clone()); let h = log.join("; ");
            arm(); let r = h_lib::silence(|| K::delete(m, s, id)); disarm();
            let Ok(r) = r else { t.check(&key("crud/no-panic"), h, || Err("panicked".into())); return (desc, s) };
            outcome = cls(&r);
            if prop == "M04" && fail.is_none() { t.check(&key("crud/delete-answer"), h.clone(), || { let w = if was.is_none() { "not found" } else { "ok" }; if outcome == w { Ok(()) } else { Err(format!("answer: {outcome}, want: {w}")) } }); }
            if let (Ok(e), Some(was)) = (r, was) { if prop == "M04" { t.check(&key("crud/delete"), h.clone(), || if dbg::<K>(&e) == dbg::<K>(&was) { Ok(()) } else { Err(format!("answered {e:?}, deleted {was:?}")) }); } self.recs.remove(&(s, id)); }
        }
        let h = log.join("; ");
        // a failed request leaves nothing behind
        if prop == "M04" && outcome != "ok" { t.check(&key("crud/all-or-nothing"), h.clone(), || { let a = m.db.dump(); if a == before { Ok(()) } else { Err(format!("failed ({outcome}), yet the store changed: {:?}", a.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|(k, _)| String::from_utf8_lossy(k).to_string()).collect::<Vec<_>>())) } }); }
        if prop == "M04" || prop == "M05" { let k = if prop == "M04" { key("crud/state") } else { key("stored/reads-back") }; let me: &Self = self; t.check(&k, h.clone(), || me.agrees(m, None)); }
        if prop == "M02" {
            let me: &Self = self;
            t.check(&key("unique/no-two"), h.clone(), || { for s in SCOPES { let l = K::list(m, s).map_err(|e| format!("{e:?}"))?; for (i, a) in l.iter().enumerate() { for b in &l[i + 1..] { for k in K::keys(a) { if K::keys(b).contains(&k) { return Err(format!("{} {} and {} of {s} share {} {:?}", K::NAME, K::id(a), K::id(b), k.0, k.1)); } } } } if K::SCOPE == Scope::Global { break; } } Ok(()) });
            for s in SCOPES { let mut probe: Vec<(&'static str, String)> = me.recs.iter().filter(|(k, _)| k.0 == s).flat_map(|(_, e)| K::keys(e)).collect(); for n in PROJ { for f in ["name", "email", "token"] { probe.push((f, n.to_string())); } } 
                for (f, k) in probe { if K::NAME == "projects" && f == "token" && !k.starts_with("token-") { continue; } let Some(r) = K::by_key(m, s, f, &k) else { continue };
                    let owner = me.recs.iter().find(|((q, _), e)| *q == s && K::keys(e).contains(&(f, k.clone()))).map(|x| x.0 .1);
                    t.check(&key("unique/lookup"), format!("{h}; look up {} by {f} {k:?} in {s}", K::NAME), || match (&r, owner) { (Ok(e), Some(o)) if K::id(e) == o => Ok(()), (Err(MetadataError::NotFound(_)), None) => Ok(()), _ => Err(format!("got {:?}, want record {owner:?}", r.as_ref().map(|e| K::id(e)))) }); }
                if K::SCOPE == Scope::Global { break; } }
        }
        (desc, s)
    }
}
fn colls() -> Vec<Box<dyn Coll>> { vec![Box::<Model<Teams>>::default(), Box::<Model<Reports>>::default(), Box::<Model<Dashboards>>::default(), Box::<Model<Projects>>::default(), Box::<Model<Accounts>>::default(), Box::<Model<Events>>::default(), Box::<Model<CustomEvents>>::default(), Box::<Model<EventProps>>::default(), Box::<Model<Group0Props>>::default(), Box::<Model<Group1Props>>::default()] }
fn histories(t: &mut Run, prop: &'static str) {
    t.rule("one evaluation is one answer of one metadata operation compared with the model, in a random history over every collection, three projects and organizations (1, 11, 2), names that share prefixes and injected store failures");
    let w = World::new();
    while t.time_left() {
        let m = w.md(); let mut cs = colls(); let mut log = vec![];
        for s in SCOPES { let _ = m.p.events.create(s, anchor()); }
        let (one, n) = (t.rng.chance(60), 4 + t.rng.below(20)); let only = t.rng.below(cs.len() as u64) as usize;
        // the anchor event is part of the events model
        let mut ev = Model::<Events>::default(); for s in SCOPES { if let Ok(e) = m.p.events.get_by_name(s, "anchor") { ev.last.insert(s, e.id); ev.recs.insert((s, e.id), e); } } cs[5] = Box::new(ev);
        for _ in 0..n {
            let i = if one { only } else { t.rng.below(cs.len() as u64) as usize };
            let (_, s) = { let c = &mut cs[i]; c.step(t, &m, prop, &mut log) };
            if prop == "M01" { let h = log.join("; "); let o = if one { t.rng.below(cs.len() as u64) as usize } else { i }; for j in [i, o, t.rng.below(cs.len() as u64) as usize] { let c = &cs[j]; let skip = if j == i { Some(s) } else { None };
                if j == i && matches!(c.name(), "projects" | "accounts") { continue; }
                t.check(&format!("isolation/{}", c.name()), h.clone(), || c.agrees(&m, skip)); } }
            if !t.time_left() { break; }
        }
        let h = log.join("; ");
        if prop == "M01" || prop == "M04" { for c in &cs { let k = if prop == "M01" { "isolation/end" } else { "crud/end" }; t.check(&format!("{k}:{}", c.name()), h.clone(), || c.agrees(&m, None)); } }
    }
}
fn m01(t: &mut Run) { histories(t, "M01") }
fn m02(t: &mut Run) { histories(t, "M02") }
fn m03(t: &mut Run) { histories(t, "M03") }
fn m04(t: &mut Run) { histories(t, "M04") }
fn m05(t: &mut Run) { histories(t, "M05") }
fn main() { h_lib::main(&[("M01", m01), ("M02", m02), ("M03", m03), ("M04", m04), ("M05", m05), ("M06", special::m06), ("M07", special::m07), ("M08", special::m08), ("M09", special::m09), ("M10", special::m10), ("M11", special::m11)]) }
