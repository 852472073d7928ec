//! Histories for what the generic collection model does not cover.
use crate::kinds::*; use crate::*;
use common::query::EventRef; use common::rbac::OrganizationRole; use metadata::{accounts, custom_events, events, groups, organizations, properties};
fn acc(email: &str) -> accounts::CreateAccountRequest { accounts::CreateAccountRequest { created_by: 1, password_hash: "x".into(), email: email.into(), name: None, force_update_password: false, force_update_email: false, role: None, organizations: None, projects: None, teams: None } }
fn ok<T>(r: std::thread::Result<Res<T>>) -> (String, Option<T>) { match r { Ok(Ok(v)) => ("ok".into(), Some(v)), Ok(Err(e)) => (cls::<T>(&Err(e)).to_string(), None), Err(_) => ("panicked".into(), None) } }
/// runs `f` with the store failing after a few operations now and then; a failure must leave nothing behind
fn op<T>(t: &mut Run, m: &Md, key: &str, log: &mut Vec<String>, d: String, want: Option<&str>, f: impl Fn() -> Res<T>) -> Option<T> {
    let fail = if t.rng.chance(20) { Some(t.rng.below(10) as i64) } else { None }; log.push(format!("{d}{}", fail.map(|n| format!(" (store fails after {n} operations)")).unwrap_or_default()));
    let h = log.join("; "); let before = m.db.dump(); if let Some(n) = fail { m.db.fail_after(n); } let (o, v) = ok(h_lib::silence(|| f())); m.db.fail_after(-1);
    if o == "panicked" { t.check(&format!("{key}/no-panic"), h, || Err("panicked".into())); return None; }
    if fail.is_none() { if let Some(w) = want { t.check(&format!("{key}/answer"), h.clone(), || if o == w || w == "refused" && o != "ok" { Ok(()) } else { Err(format!("answer {o}, want {w}")) }); } }
    if o != "ok" { t.check(&format!("{key}/all-or-nothing"), h, || if m.db.dump() == before { Ok(()) } else { Err(format!("failed ({o}), yet the store changed")) }); }
    v
}
pub fn m06(t: &mut Run) {
    t.rule("one evaluation is one answer or one comparison of an organization's member list with its members' accounts, in random histories of create, add, remove, change role and rename with injected store failures");
    let w = World::new();
    while t.time_left() {
        let m = w.md(); let mut log = vec![]; let (o, a) = (&m.p.organizations, &m.p.accounts); let n = 3 + t.rng.below(3);
        for i in 0..n { let _ = a.create(acc(&format!("u{i}"))); }
        let mut model: BTreeMap<u64, (String, Vec<(u64, OrganizationRole)>)> = BTreeMap::new(); let mut last = 0u64;
        for _ in 0..4 + t.rng.below(16) {
            let id = if t.rng.chance(85) && !model.is_empty() { let k: Vec<u64> = model.keys().copied().collect(); *t.rng.pick(&k) } else { last + 1 }; let who = 1 + t.rng.below(n + 1); let role = t.rng.pick(&[OrganizationRole::Owner, OrganizationRole::Admin, OrganizationRole::Member]).clone();
            let has = model.get(&id).map(|x| x.1.iter().any(|y| y.0 == who)); let real = who <= n; let name = PROJ[t.rng.below(4) as usize].to_string();
            match t.rng.below(6) {
                0 | 1 => { let taken = model.values().any(|x| x.0 == name); let want = if taken { "already exists" } else if !real { "not found" } else { "ok" };
                    if let Some(e) = op(t, &m, "membership", &mut log, format!("create organization {name:?} by {who}"), Some(want), || o.create(organizations::CreateOrganizationRequest { created_by: who, name: name.clone() })) { t.check("membership/ids", log.join("; "), || if e.id > last { Ok(()) } else { Err(format!("id {} after {last}", e.id)) }); last = last.max(e.id); model.insert(e.id, (name, vec![(who, OrganizationRole::Owner)])); } }
                2 => { let want = match has { None => "not found", Some(true) => "already exists", Some(false) => if real { "ok" } else { "not found" } }; if op(t, &m, "membership", &mut log, format!("add {who} to {id} as {role:?}"), Some(want), || o.add_member(id, who, role.clone())).is_some() { if let Some(x) = model.get_mut(&id) { x.1.push((who, role)); } } }
                3 => { let want = if has == Some(true) { "ok" } else { "not found" }; if op(t, &m, "membership", &mut log, format!("remove {who} from {id}"), Some(want), || o.remove_member(id, who)).is_some() { if let Some(x) = model.get_mut(&id) { x.1.retain(|y| y.0 != who); } } }
                4 => { let want = if has == Some(true) { "ok" } else { "not found" }; if op(t, &m, "membership", &mut log, format!("make {who} {role:?} in {id}"), Some(want), || o.change_member_role(id, who, role.clone())).is_some() { if let Some(y) = model.get_mut(&id).and_then(|x| x.1.iter_mut().find(|y| y.0 == who)) { y.1 = role; } } }
                _ => { let taken = model.iter().any(|(i, x)| *i != id && x.0 == name); let want = if !model.contains_key(&id) { "not found" } else if taken { "already exists" } else { "ok" }; if op(t, &m, "membership", &mut log, format!("rename {id} to {name:?}"), Some(want), || o.update(id, organizations::UpdateOrganizationRequest { updated_by: 1, name: OptionalProperty::Some(name.clone()) })).is_some() { if let Some(x) = model.get_mut(&id) { x.0 = name; } } }
            }
            let h = log.join("; ");
            t.check("membership/organization-side", h.clone(), || { let l = o.list().map_err(|e| format!("{e:?}"))?.data; if l.len() != model.len() { return Err(format!("{} organizations listed, want {}", l.len(), model.len())); } for (id, x) in &model { let g = o.get_by_id(*id).map_err(|e| format!("{e:?}"))?; if (&g.name, &g.members) != (&x.0, &x.1) { return Err(format!("organization {id} is {g:?}, want {x:?}")); } for u in 1..=n { if g.is_member(u) != x.1.iter().any(|y| y.0 == u) { return Err(format!("is_member({u})")); } } } Ok(()) });
            t.check("membership/account-side", h, || { for u in 1..=n { let mut g = a.get_by_id(u).map_err(|e| format!("{e:?}"))?.organizations.unwrap_or_default(); g.sort_by_key(|x| x.0); let w: Vec<_> = model.iter().filter_map(|(id, x)| x.1.iter().find(|y| y.0 == u).map(|y| (*id, y.1.clone()))).collect(); if g != w { return Err(format!("account {u} says {g:?}, the organizations say {w:?}")); } } Ok(()) });
        }
    }
    // known: deleting one side leaves the other side's entry
    let m = w.md(); let _ = m.p.accounts.create(acc("u")); if let Ok(e) = m.p.organizations.create(organizations::CreateOrganizationRequest { created_by: 1, name: "o".into() }) { let _ = m.p.organizations.delete(e.id);
        t.check("membership/organization-deleted", "create organization o by 1; delete it", || if m.p.accounts.get_by_id(1).map(|a| a.organizations.unwrap_or_default().is_empty()).unwrap_or(true) { Ok(()) } else { Err("the account still lists the deleted organization".into()) }); }
    let m = w.md(); let _ = m.p.accounts.create(acc("u")); if let Ok(e) = m.p.organizations.create(organizations::CreateOrganizationRequest { created_by: 1, name: "o".into() }) { let _ = m.p.accounts.delete(1);
        t.check("membership/account-deleted", "create organization o by 1; delete account 1", || if m.p.organizations.get_by_id(e.id).map(|a| a.members.is_empty()).unwrap_or(true) { Ok(()) } else { Err("the organization still lists the deleted account".into()) }); }
}
pub fn m07(t: &mut Run) {
    t.rule("one evaluation is one dictionary answer compared with a model, over three projects, two tables, two dictionaries, values with separators and injected store failures");
    let w = World::new();
    while t.time_left() {
        let m = w.md(); let d = &m.p.dictionaries; let mut log = vec![]; let mut model: BTreeMap<(u64, &str, &str), Vec<String>> = BTreeMap::new();
        let vals = ["a", "b", "", "1", "a/b", "keys/1", "values/a", "id_seq", "é", "A", "a ", " a", " ", "É", "a/", "A B", "01"];
        for _ in 0..6 + t.rng.below(24) {
            let p = *t.rng.pick(&[1u64, 11, 2]); let tb = *t.rng.pick(&["events", "group_0"]); let dc = *t.rng.pick(&["event", "name", "even", "e"]); let v = t.rng.pick(&vals).to_string();
            let known = model.get(&(p, tb, dc)).and_then(|x| x.iter().position(|y| *y == v)).map(|i| i as u64 + 1);
            match t.rng.below(3) {
                0 | 1 => { let through = t.rng.bool(); let r = op(t, &m, "dictionary", &mut log, format!("key for {v:?} in {p}/{tb}/{dc}{}", if through { " through its provider" } else { "" }), Some("ok"), || if through { metadata::dictionaries::SingleDictionaryProvider::new(p, tb.into(), dc.into(), d.clone()).get_key_or_create(&v) } else { d.get_key_or_create(p, tb, dc, &v) });
                    if let Some(k) = r { let x = model.entry((p, tb, dc)).or_default(); let want = known.unwrap_or_else(|| { x.push(v.clone()); x.len() as u64 }); t.check("dictionary/key", log.join("; "), || if k == want { Ok(()) } else { Err(format!("key {k}, want {want}")) }); } }
                _ => { let k = t.rng.below(6); let r = d.get_value(p, tb, dc, k); let want = model.get(&(p, tb, dc)).and_then(|x| if k == 0 { None } else { x.get(k as usize - 1).cloned() }); t.check("dictionary/value", format!("{}; value of {k} in {p}/{tb}/{dc}", log.join("; ")), || match (&r, &want) { (Ok(a), Some(b)) if a == b => Ok(()), (Err(MetadataError::NotFound(_)), None) => Ok(()), _ => Err(format!("got {r:?}, want {want:?}")) }); }
            }
            let h = log.join("; ");
            t.check("dictionary/bijection", h, || { for p in [1u64, 11, 2] { for tb in ["events", "group_0"] { for dc in ["event", "name", "even", "e"] { let x = model.get(&(p, tb, dc)).cloned().unwrap_or_default(); let s = metadata::dictionaries::SingleDictionaryProvider::new(p, tb.into(), dc.into(), d.clone());
                for (i, v) in x.iter().enumerate() { let k = i as u64 + 1; match (d.get_key(p, tb, dc, v), d.get_value(p, tb, dc, k), s.get_key(p, dc, v), s.get_value(k)) { (Ok(a), Ok(b), Ok(c), Ok(e)) if a == k && b == *v && c == k && e == *v => {}, r => return Err(format!("{p}/{tb}/{dc} {v:?} <-> {k}: {r:?}")) } }
                for v in vals { if !x.iter().any(|y| y == v) { if let Ok(k) = d.get_key(p, tb, dc, v) { return Err(format!("{p}/{tb}/{dc} has key {k} for {v:?}, which was never stored")); } } }
                for k in [0, x.len() as u64 + 1] { if let Ok(v) = d.get_value(p, tb, dc, k) { return Err(format!("{p}/{tb}/{dc} has value {v:?} for {k}, which was never issued")); } } } } } Ok(()) });
        }
    }
}
pub fn m08(t: &mut Run) {
    t.rule("one evaluation is one session answer or the comparison of all sessions with a model, over three projects and users whose decimal forms share prefixes");
    let w = World::new(); let users = [1u64, 2, 11, 12, 0, u64::MAX];
    while t.time_left() {
        let m = w.md(); let s = &m.p.sessions; let mut log = vec![]; let mut model: BTreeMap<(u64, u64), DateTime<Utc>> = BTreeMap::new();
        for _ in 0..6 + t.rng.below(20) {
            let p = *t.rng.pick(&[1u64, 11, 2]); let u = *t.rng.pick(&users);
            match t.rng.below(8) {
                0..=4 => { let time = DateTime::from_timestamp_millis(t.rng.range(0, 2_000_000_000_000)).unwrap(); let new = !model.contains_key(&(p, u));
                    if let Some(r) = op(t, &m, "session", &mut log, format!("user {u} of {p} active at {time}"), Some("ok"), || s.set_current_time(p, u, time)) { t.check("session/new", log.join("; "), || if r == new { Ok(()) } else { Err(format!("new: {r}, want {new}")) }); model.insert((p, u), sec(time)); } }
                5 | 6 => { let cut = DateTime::from_timestamp(t.rng.range(0, 2_000_000_000), 0).unwrap(); let seen = std::cell::RefCell::new(vec![]); let bad = t.rng.chance(15);
                    let r = op(t, &m, "session", &mut log, format!("end sessions of {p} before {cut}{}", if bad { ", the last decision fails" } else { "" }), None, || { seen.borrow_mut().clear(); s.check_for_deletion(p, |x| { seen.borrow_mut().push((x.user_id, x.created_at)); if bad && seen.borrow().len() == model.keys().filter(|k| k.0 == p).count() { return Err(MetadataError::Internal("no".into())); } Ok(x.created_at < cut) }) });
                    if r.is_some() { let mut g = seen.borrow().clone(); g.sort(); let mut want: Vec<_> = model.iter().filter(|(k, _)| k.0 == p).map(|(k, v)| (k.1, *v)).collect(); want.sort(); t.check("session/asked-once-each", log.join("; "), || if g == want { Ok(()) } else { Err(format!("asked about {g:?}, sessions are {want:?}")) }); model.retain(|k, v| k.0 != p || *v >= cut); } }
                _ => { if op(t, &m, "session", &mut log, format!("clear {p}"), Some("ok"), || s.clear_project(p)).is_some() { model.retain(|k, _| k.0 != p); } }
            }
            t.check("session/state", log.join("; "), || { for p in [1u64, 11, 2] { for u in users { match (s.get_by_user_id(p, u), model.get(&(p, u))) { (Ok(x), Some(v)) if x.user_id == u && x.created_at == *v => {}, (Err(MetadataError::NotFound(_)), None) => {}, (r, v) => return Err(format!("user {u} of {p}: {r:?}, want {v:?}")) } } } Ok(()) });
        }
    }
}
fn gval(r: &mut Rng) -> groups::Value { use groups::Value::*; match r.below(9) { 0 => Null, 1 => Int8(Some(r.int() as i8)), 2 => Int16(Some(r.int() as i16)), 3 => Int32(Some(r.int() as i32)), 4 => Int64(Some(r.int())), 5 => Boolean(Some(r.bool())), 6 => Timestamp(Some(r.int())), 7 => Decimal(Some(r.int() as i128 * 10_i128.pow(r.below(15) as u32))), _ => String(Some(text(r))) } }
fn gvals(r: &mut Rng) -> Vec<groups::PropertyValue> { let mut ids: Vec<u64> = (1..6).collect(); (0..r.below(4)).map(|_| { let i = r.below(ids.len() as u64) as usize; groups::PropertyValue { property_id: ids.remove(i), value: gval(r) } }).collect() }
pub fn m09(t: &mut Run) {
    t.rule("one evaluation is one identity answer compared with a model of identities and their last-written property values, over projects, groups and keys that share prefixes, with injected store failures");
    let w = World::new(); let keys = ["u", "v", "u/real", "1", "", "anonymous/keys/u", "U", "u ", "01"];
    while t.time_left() {
        let m = w.md(); let g = &m.p.groups; let mut log = vec![]; let mut real: BTreeMap<(u64, u64, &str), (u64, Vec<groups::PropertyValue>)> = BTreeMap::new(); let mut anon: BTreeMap<(u64, u64, &str), u64> = BTreeMap::new(); let mut issued: BTreeMap<(u64, u64), Vec<u64>> = BTreeMap::new(); let mut names: BTreeMap<u64, Vec<(String, String)>> = BTreeMap::new();
        for _ in 0..6 + t.rng.below(20) {
            let p = *t.rng.pick(&[1u64, 11]); let gr = *t.rng.pick(&[0u64, 1, 2]); let k = *t.rng.pick(&keys); let an = *t.rng.pick(&keys); let vals = gvals(&mut t.rng); let was = real.get(&(p, gr, k)).cloned();
            let fresh = |t: &mut Run, id: u64, issued: &mut BTreeMap<(u64, u64), Vec<u64>>, log: &Vec<String>| { let x = issued.entry((p, gr)).or_default(); t.check("identity/new-id", log.join("; "), || if x.contains(&id) { Err(format!("id {id} was issued before to another identity")) } else { Ok(()) }); x.push(id); };
            let same = |t: &mut Run, r: &groups::GroupValues, id: u64, vs: &Vec<groups::PropertyValue>, log: &Vec<String>| { t.check("identity/values", log.join("; "), || if r.id == id && r.values == *vs { Ok(()) } else { Err(format!("got {r:?}, want id {id} with {vs:?}")) }); };
            match t.rng.below(6) {
                0 => { if let Some(id) = op(t, &m, "identity", &mut log, format!("anonymous {an:?} of {p}/{gr}"), Some("ok"), || g.get_or_create_anonymous_id(p, gr, an)) { match anon.get(&(p, gr, an)) { Some(x) => { let x = *x; t.check("identity/anonymous-stable", log.join("; "), || if id == x { Ok(()) } else { Err(format!("id {id}, was {x}")) }); } None => { fresh(t, id, &mut issued, &log); anon.insert((p, gr, an), id); } } } }
                1 => { if let Some(r) = op(t, &m, "identity", &mut log, format!("get or create {k:?} of {p}/{gr} with {vals:?}"), Some("ok"), || g.get_or_create(p, gr, k, vals.clone())) { match &was { Some((id, vs)) => same(t, &r, *id, vs, &log), None => { fresh(t, r.id, &mut issued, &log); same(t, &r, r.id, &vals, &log); real.insert((p, gr, k), (r.id, vals)); } } } }
                2 | 3 => { if let Some(r) = op(t, &m, "identity", &mut log, format!("create or update {k:?} of {p}/{gr} with {vals:?}"), Some("ok"), || g.create_or_update(p, gr, k, vals.clone())) { match &was { Some((id, vs)) => { let mut want = vs.clone(); for v in &vals { match want.iter_mut().find(|x| x.property_id == v.property_id) { Some(x) => *x = v.clone(), None => want.push(v.clone()) } } same(t, &r, *id, &want, &log); real.insert((p, gr, k), (*id, want)); } None => { fresh(t, r.id, &mut issued, &log); same(t, &r, r.id, &vals, &log); real.insert((p, gr, k), (r.id, vals)); } } } }
                4 => { if let Some(r) = op(t, &m, "identity", &mut log, format!("merge anonymous {an:?} into {k:?} of {p}/{gr} with {vals:?}"), Some("ok"), || g.merge_with_anonymous(p, gr, an, k, vals.clone())) { match &was { Some((id, vs)) => same(t, &r, *id, vs, &log), None => { match anon.get(&(p, gr, an)) { Some(x) => { let x = *x; t.check("identity/merge-keeps-id", log.join("; "), || if r.id == x { Ok(()) } else { Err(format!("id {}, the anonymous user has {x}", r.id)) }); } None => { fresh(t, r.id, &mut issued, &log); anon.insert((p, gr, an), r.id); } } same(t, &r, r.id, &vals, &log); real.insert((p, gr, k), (r.id, vals)); } } } }
                _ => { let x = names.entry(p).or_default(); let known = x.iter().position(|y| y.0 == k); let dn = text(&mut t.rng); let full = known.is_none() && x.len() >= common::GROUPS_COUNT; let want = if full { "bad request" } else { "ok" };
                    if let Some(r) = op(t, &m, "group", &mut log, format!("group {k:?} ({dn:?}) of {p}"), Some(want), || g.get_or_create_group(p, k.to_string(), dn.clone())) { let (i, d) = match known { Some(i) => (i, x[i].1.clone()), None => { x.push((k.to_string(), dn.clone())); (x.len() - 1, dn) } }; t.check("group/answer", log.join("; "), || if r.id == i as u64 && r.name == k && r.display_name == d { Ok(()) } else { Err(format!("got {r:?}, want id {i}, {d:?}")) }); } }
            }
            t.check("group/list", log.join("; "), || { for p in [1u64, 11] { let l = g.list_groups(p).map_err(|e| format!("{e:?}"))?.data; let mut a: Vec<_> = l.iter().map(|x| (x.id, x.name.clone(), x.display_name.clone())).collect(); a.sort(); let b: Vec<_> = names.get(&p).cloned().unwrap_or_default().into_iter().enumerate().map(|(i, x)| (i as u64, x.0, x.1)).collect(); if a != b { return Err(format!("groups of {p}: {a:?}, want {b:?}")); } } Ok(()) });
        }
    }
}
fn pc(r: &mut Rng, name: String, typ: properties::Type) -> properties::CreatePropertyRequest { use common::types::DType::*; use properties::DictionaryType as K; let data_type = r.pick(&[String, String, Int8, Int16, Int32, Int64, Decimal, Boolean, Timestamp]).clone(); let dictionary_type = (data_type == String && r.bool()).then(|| r.pick(&[K::Int8, K::Int16, K::Int32, K::Int64]).clone()); let display_name = r.bool().then(|| format!("shown {name}")); properties::CreatePropertyRequest { created_by: 1, tags: None, name, description: None, display_name, typ, data_type, status: properties::Status::Enabled, hidden: false, is_system: false, nullable: r.bool(), is_array: false, is_dictionary: dictionary_type.is_some(), dictionary_type } }
pub fn m10(t: &mut Run) {
    t.rule("one evaluation checks the columns of every property, or the sequences of a project, after one request of a random history over event and group properties of two projects");
    let w = World::new();
    while t.time_left() {
        let m = w.md(); let mut log = vec![]; let mut n = 0; let mut used: BTreeMap<u64, Vec<(String, String)>> = BTreeMap::new(); let mut rec: BTreeMap<(u64, i64), u64> = BTreeMap::new();
        for _ in 0..6 + t.rng.below(20) {
            let p = *t.rng.pick(&[1u64, 11]); let g = t.rng.below(3) as usize; let prov = if g == 2 { &m.p.event_properties } else { &m.p.group_properties[g] }; let typ = if g == 2 { properties::Type::Event } else { properties::Type::Group(g) };
            match t.rng.below(6) {
                0..=2 => { n += 1; let c = pc(&mut t.rng, format!("p{n}"), typ.clone()); let via = t.rng.bool();
                    if let Some(e) = op(t, &m, "column", &mut log, format!("create {typ:?} property p{n} of type {:?} in {p}", c.data_type), Some("ok"), || if via { prov.get_or_create(p, c.clone()) } else { prov.create(p, c.clone()) }) { let col = e.column_name(); let u = used.entry(p).or_default();
                        t.check("column/own-column", log.join("; "), || match u.iter().find(|x| x.0 == col) { Some(x) => Err(format!("p{n} shares column {col} with {}", x.1)), None => Ok(()) }); u.push((col.clone(), e.name.clone()));
                        let same = c.data_type.clone(); t.check("column/found-again", log.join("; "), || { for x in [prov.get_by_id(p, e.id), prov.get_by_name(p, &e.name), prov.get_by_column_name(p, &col)] { let x = x.map_err(|e| format!("{e:?}"))?; if x.column_name() != col || x.id != e.id || x.data_type != same { return Err(format!("got {x:?}")); } } Ok(()) });
                        let again = prov.get_or_create(p, pc(&mut t.rng, e.name.clone(), typ.clone())); t.check("column/get-or-create", log.join("; "), || match again { Ok(x) if x.id == e.id && x.column_name() == col => Ok(()), r => Err(format!("got {r:?}")) }); } }
                3 => { let l = prov.list(p).map(|l| l.data).unwrap_or_default(); if l.is_empty() { continue; } let e = t.rng.pick(&l).clone(); op(t, &m, "column", &mut log, format!("rename display of {} in {p}", e.name), Some("ok"), || prov.update(p, e.id, properties::UpdatePropertyRequest { updated_by: 1, display_name: OptionalProperty::Some(Some(format!("d{n}{}", e.name))), ..Default::default() }));
                    t.check("column/kept", log.join("; "), || match prov.get_by_id(p, e.id) { Ok(x) if x.column_name() == e.column_name() && x.order == e.order => Ok(()), r => Err(format!("column {} became {r:?}", e.column_name())) }); }
                4 => { let l = prov.list(p).map(|l| l.data).unwrap_or_default(); if l.is_empty() { continue; } let e = t.rng.pick(&l).clone(); if op(t, &m, "column", &mut log, format!("delete {} in {p}", e.name), Some("ok"), || prov.delete(p, e.id)).is_some() {
                        t.check("column/deleted", log.join("; "), || match (prov.get_by_id(p, e.id), prov.get_by_name(p, &e.name), prov.list(p)) { (Err(MetadataError::NotFound(_)), Err(MetadataError::NotFound(_)), Ok(l)) if l.data.iter().all(|x| x.id != e.id) => Ok(()), r => Err(format!("{} is still found: {r:?}", e.name)) });
                        if t.rng.bool() { let c = pc(&mut t.rng, e.name.clone(), typ.clone()); if let Some(e) = op(t, &m, "column", &mut log, format!("create {typ:?} property {} of type {:?} again in {p}", e.name, c.data_type), Some("ok"), || prov.get_or_create(p, c.clone())) { let col = e.column_name(); let u = used.entry(p).or_default(); t.check("column/own-column", log.join("; "), || match (u.iter().find(|x| x.0 == col), prov.get_by_id(p, e.id)) { (None, Ok(x)) if x.name == e.name => Ok(()), r => Err(format!("{} at {col}: {r:?}", e.name)) }); u.push((col, e.name)); } } } }
                _ => { let k = t.rng.below(4) as i64 - 1; let r = op(t, &m, "column", &mut log, format!("next record number of {p}, {}", if k < 0 { "events".into() } else { format!("group {k}") }), Some("ok"), || if k < 0 { m.p.events.next_record_sequence(p) } else { m.p.groups.next_record_sequence(p, k as u64) }); if let Some(id) = r { let last = rec.entry((p, k)).or_insert(0); let l = *last; t.check("column/record-numbers", log.join("; "), || if id == l + 1 { Ok(()) } else { Err(format!("got {id} after {l}")) }); *last = id; } }
            }
        }
    }
}
pub fn m11(t: &mut Run) {
    t.rule("one evaluation compares one create or update of a custom event with whether its events exist, do not lead back to it and stay within the nesting limit");
    let w = World::new();
    while t.time_left() {
        let lim = 1 + t.rng.below(3) as usize; let m = w.md(); let ce = custom_events::CustomEvents::new(m.db.clone(), m.p.events.clone()).with_max_events_level(lim); let mut log = vec![format!("nesting limit {lim}")];
        for n in ["a", "b"] { let _ = m.p.events.create(1, events::CreateEventRequest { name: n.into(), ..anchor() }); }
        let mut model: BTreeMap<u64, Vec<EventRef>> = BTreeMap::new(); let mut n = 0;
        fn depth(m: &BTreeMap<u64, Vec<EventRef>>, evs: &[EventRef], lvl: usize, lim: usize, seen: &mut Vec<u64>) -> Result<(), &'static str> { if lvl > lim { return Err("bad request"); } for e in evs { match e { EventRef::RegularName(x) if x == "a" || x == "b" => {}, EventRef::Regular(1 | 2) => {}, EventRef::Custom(i) => { if seen.contains(i) { return Err("already exists"); } let Some(x) = m.get(i) else { return Err("not found") }; seen.push(*i); depth(m, x, lvl + 1, lim, seen)?; } _ => return Err("not found") } } Ok(()) }
        for _ in 0..4 + t.rng.below(12) {
            let evs: Vec<EventRef> = (0..t.rng.below(4)).map(|_| match t.rng.below(7) { 0 => EventRef::RegularName("a".into()), 1 => EventRef::RegularName(t.rng.pick(&["b", "b", "b", "zz"]).to_string()), 2 => EventRef::Regular(1 + t.rng.below(10) / 4), _ => EventRef::Custom(1 + t.rng.below(n + 1)) }).collect();
            let es: Vec<custom_events::Event> = evs.iter().map(|e| custom_events::Event { event: e.clone(), filters: None }).collect();
            if t.rng.bool() || model.is_empty() { let want = if evs.is_empty() { "refused" } else { depth(&model, &evs, 0, lim, &mut vec![]).err().map_or("ok", |_| "refused") }; let name = t.rng.pick(&["c", "c/d", "", "C"]).to_string() + &log.len().to_string();
                if let Some(e) = op(t, &m, "nesting", &mut log, format!("create {evs:?}"), Some(want), || ce.create(1, custom_events::CreateCustomEventRequest { created_by: 1, tags: None, name: name.clone(), description: None, status: custom_events::Status::Enabled, is_system: false, events: es.clone() })) { n = n.max(e.id); model.insert(e.id, evs); } }
            else if t.rng.chance(20) { let k: Vec<u64> = model.keys().copied().collect(); let id = *t.rng.pick(&k); if op(t, &m, "nesting", &mut log, format!("delete {id}"), Some("ok"), || ce.delete(1, id)).is_some() { model.remove(&id); } }
            else { let k: Vec<u64> = model.keys().copied().collect(); let id = *t.rng.pick(&k); let want = if evs.is_empty() { "refused" } else { depth(&model, &evs, 0, lim, &mut vec![id]).err().map_or("ok", |_| "refused") };
                if op(t, &m, "nesting", &mut log, format!("update {id} to {evs:?}"), Some(want), || ce.update(1, id, custom_events::UpdateCustomEventRequest { updated_by: 1, events: OptionalProperty::Some(es.clone()), ..Default::default() })).is_some() { model.insert(id, evs); } }
            t.check("nesting/acyclic", log.join("; "), || { fn walk(ce: &custom_events::CustomEvents, id: u64, path: &mut Vec<u64>) -> Result<(), String> { if path.contains(&id) { return Err(format!("custom event {id} contains itself through {path:?}")); } path.push(id); for e in ce.get_by_id(1, id).map_err(|e| format!("{e:?}"))?.events { if let EventRef::Custom(i) = e.event { if ce.get_by_id(1, i).is_ok() { walk(ce, i, path)?; } } } path.pop(); Ok(()) } for id in model.keys() { walk(&ce, *id, &mut vec![])?; } Ok(()) });
        }
    }
}
