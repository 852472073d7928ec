//@rule unreachable ! ( ) =>> corrupt(data)
//@rule panic ! ( $$x ) =>> corrupt(data)
//@include base.rs
use vstd::prelude::*;
use std::fmt::Debug;
verus! {
global size_of usize == 8;
//@include metaerr.rs
//@include store.rs
//@include keys.rs
//@include stdspec.rs
//@include index.rs
//@include keylemmas.rs
//@include provider.rs
//@include uniq.rs
//@rule where T : Debug =>>
pub open spec fn set<T>(o: OptionalProperty<T>, was: T, is: T) -> bool { match o { OptionalProperty::Some(v) => is == v, OptionalProperty::None => is == was } }
//@item src/common/src/types.rs OptionalProperty | vis=keep
// the body each rule with `apply` puts out of line
pub fn apply<T>(f: &mut T, o: OptionalProperty<T>) ensures set(o, *old(f), *final(f)) { if let OptionalProperty::Some(v) = o { *f = v; } }
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
//@rule Arc < Events > =>> Events
//@rule ids . contains ( id ) =>> listed_in(ids, *id)
//@known serialize deserialize
pub mod custom_events { use super::*; broadcast use crate::all;
pub struct PropValueFilter { pub x: u8 }
// the events provider: what it knows, by name and by id (its own functions are replayed)
pub struct Events { pub x: u8 }
pub struct Known { pub x: u8 }
pub uninterp spec fn named(e: Events, p: u64, n: Seq<char>) -> bool;
pub uninterp spec fn numbered(e: Events, p: u64, id: u64) -> bool;
impl Events {
    #[verifier::external_body] pub fn get_by_name(&self, p: u64, n: &str) -> (r: Result<Known>) ensures r is Ok ==> named(*self, p, n@), r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !named(*self, p, n@) { unimplemented!() }
    #[verifier::external_body] pub fn get_by_id(&self, p: u64, id: u64) -> (r: Result<Known>) ensures r is Ok ==> numbered(*self, p, id), r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !numbered(*self, p, id) { unimplemented!() }
}
#[verifier::external_body] pub fn listed_in(v: &Vec<u64>, x: u64) -> (r: bool) ensures r == v@.contains(x) { unimplemented!() }
//@item src/common/src/query.rs EventRef | vis=keep
//@item src/metadata/src/custom_events.rs Status | vis=keep std="clone"
//@item src/metadata/src/custom_events.rs Event | vis=keep
//@item src/metadata/src/custom_events.rs CustomEvent | vis=keep
//@item src/metadata/src/custom_events.rs CreateCustomEventRequest | vis=keep
//@item src/metadata/src/custom_events.rs UpdateCustomEventRequest | vis=keep
//@item src/metadata/src/custom_events.rs CustomEvents | vis=keep
impl Clone for CustomEvent { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@static src/metadata/src/custom_events.rs NAMESPACE | block
//@contract
    ensures r@ == NS(),
//@end
pub open spec fn NS() -> Seq<u8> { asc("custom_events"@) }
//@rule IDX_NAME =>> IDX_NAME()
//@static src/metadata/src/custom_events.rs IDX_NAME | block
//@contract
    ensures r@ == asc("name"@),
//@end
pub open spec fn base(p: u64) -> Seq<u8> { k_project(p, NS()) }
// how a record is stored: its filters lose part of what they hold (recorded finding), its id, name and events do not
pub uninterp spec fn stored(e: CustomEvent) -> Seq<u8>;
pub uninterp spec fn reread(e: CustomEvent) -> CustomEvent;
pub axiom fn axiom_stored(a: CustomEvent, b: CustomEvent) requires stored(a) == stored(b) ensures a.id == b.id, a.name == b.name, refs(a.events@) == refs(b.events@);
pub axiom fn axiom_reread(a: CustomEvent) ensures stored(reread(a)) == stored(a);
#[verifier::external_body] fn serialize(e: &CustomEvent) -> (r: Result<Vec<u8>>) ensures r is Ok ==> r->Ok_0@ == stored(*e), r is Err ==> r->Err_0 is Bincode { unimplemented!() }
#[verifier::external_body] fn deserialize(data: &Vec<u8>) -> (r: Result<CustomEvent>) ensures r is Ok ==> is_read(data@, r->Ok_0), (exists|x: CustomEvent| data@ == #[trigger] x.enc()) ==> r is Err ==> r->Err_0 is Bincode, r is Err ==> !(r->Err_0 is NotFound) { unimplemented!() }
impl Ent for CustomEvent {
    open spec fn enc(self) -> Seq<u8> { stored(self) }
    open spec fn eid(self) -> u64 { self.id }
    open spec fn ekeys(self, ns: Seq<u8>) -> Seq<Option<Seq<u8>>> { seq![Some(k_index(ns, asc("name"@), utf8(self.name@)))] }
    open spec fn back(self) -> CustomEvent { reread(self) }
    proof fn back_ok(a: CustomEvent) { axiom_reread(a); }
    proof fn enc_ok(a: CustomEvent, b: CustomEvent, ns: Seq<u8>) { axiom_stored(a, b); }
    proof fn keys_ok(a: CustomEvent, ns: Seq<u8>) { assert(k_index(ns, asc("name"@), utf8(a.name@)).take((ns + asc("/idx/"@)).len() as int) =~= ns + asc("/idx/"@)); }
}
// ---- which custom events an event is made of
pub open spec fn refs(s: Seq<Event>) -> Set<u64> decreases s.len() { if s.len() == 0 { Set::empty() } else { let d = refs(s.drop_last()); match s.last().event { EventRef::Custom(i) => d.insert(i), _ => d } } }
pub open spec fn regulars(v: Events, p: u64, s: Seq<Event>) -> bool { forall|k: int| 0 <= k < s.len() ==> match (#[trigger] s[k]).event { EventRef::RegularName(n) => named(v, p, n@), EventRef::Regular(i) => numbered(v, p, i), EventRef::Custom(_) => true } }
pub open spec fn to(m: Store, p: u64, x: u64, i: u64) -> bool { exists|e: CustomEvent| #[trigger] rec(m, base(p), x, e) && refs(e.events@).contains(i) }
pub open spec fn closed(m: Store, p: u64, s: Set<u64>) -> bool { forall|x: u64, i: u64| s.contains(x) && #[trigger] to(m, p, x, i) ==> s.contains(i) }
pub open spec fn there(m: Store, p: u64, s: Set<u64>) -> bool { forall|x: u64| #[trigger] s.contains(x) ==> m.dom().contains(k_data(base(p), x)) }
// everything `x` leads to, directly or not, lies in a set without `x`
pub open spec fn apart_from(m: Store, p: u64, x: u64, s: Set<u64>) -> bool { closed(m, p, s) && !s.contains(x) && forall|i: u64| #[trigger] to(m, p, x, i) ==> s.contains(i) }
/// no custom event is made of itself
pub open spec fn acyclic(m: Store, p: u64) -> bool { forall|x: u64| #[trigger] m.dom().contains(k_data(base(p), x)) ==> exists|s: Set<u64>| #[trigger] apart_from(m, p, x, s) }
pub open spec fn within(m: Store, p: u64, r: Set<u64>, n: nat) -> bool decreases n { forall|i: u64, e: CustomEvent| r.contains(i) && #[trigger] rec(m, base(p), i, e) ==> n > 0 && within(m, p, refs(e.events@), (n - 1) as nat) }
pub open spec fn fresh(a: Seq<u64>, b: Seq<u64>) -> Set<u64> { b.to_set().difference(a.to_set()) }
// what acceptance of a list of events means
pub open spec fn accepted(m: Store, p: u64, v: Events, evs: Seq<Event>, n: nat, s: Set<u64>) -> bool { refs(evs).subset_of(s) && closed(m, p, s) && there(m, p, s) && within(m, p, refs(evs), n) && regulars(v, p, evs) }
pub proof fn lemma_to(m: Store, p: u64, x: u64, e: CustomEvent, i: u64) requires rec(m, base(p), x, e) ensures to(m, p, x, i) <==> refs(e.events@).contains(i)
{ if to(m, p, x, i) { let w = choose|w: CustomEvent| #[trigger] rec(m, base(p), x, w) && refs(w.events@).contains(i); axiom_stored(w, e); } }
pub proof fn lemma_same_to(m: Store, n: Store, p: u64, x: u64, i: u64) requires same_at(m, n, k_data(base(p), x)) ensures to(m, p, x, i) <==> to(n, p, x, i)
{ if to(m, p, x, i) { let w = choose|w: CustomEvent| #[trigger] rec(m, base(p), x, w) && refs(w.events@).contains(i); assert(rec(n, base(p), x, w)); } if to(n, p, x, i) { let w = choose|w: CustomEvent| #[trigger] rec(n, base(p), x, w) && refs(w.events@).contains(i); assert(rec(m, base(p), x, w)); } }
pub open spec fn only(m: Store, n: Store, p: u64, id: u64) -> bool { forall|x: u64| x != id ==> #[trigger] same_at(m, n, k_data(base(p), x)) }
pub proof fn lemma_only(m: Store, n: Store, p: u64, id: u64, was: Option<CustomEvent>, is: Option<CustomEvent>) requires step(m, n, base(p), id, was, is) ensures only(m, n, p, id)
{
    let b = base(p);
    assert forall|x: u64| x != id implies #[trigger] same_at(m, n, k_data(b, x)) by { let k = k_data(b, x); if k == k_data(b, id) { lemma_data_key(b, x, id); } lemma_seq_data(b, x); if keyed(is, b, k) { lemma_keys(is->0, b, k); } if keyed(was, b, k) { lemma_keys(was->0, b, k); } }
}
/// accepting events that do not lead back to `id` keeps the whole set free of cycles
pub proof fn lemma_acyclic(m: Store, n: Store, p: u64, id: u64, e: CustomEvent, s: Set<u64>)
    requires acyclic(m, p), only(m, n, p, id), rec(n, base(p), id, e), closed(m, p, s), refs(e.events@).subset_of(s), !s.contains(id) ensures acyclic(n, p)
{
    assert forall|x: u64| #[trigger] n.dom().contains(k_data(base(p), x)) implies exists|t: Set<u64>| #[trigger] apart_from(n, p, x, t) by {
        assert(closed(n, p, s)) by { assert forall|y: u64, i: u64| s.contains(y) && #[trigger] to(n, p, y, i) implies s.contains(i) by { assert(same_at(m, n, k_data(base(p), y))); lemma_same_to(m, n, p, y, i); } }
        if x == id { assert forall|i: u64| #[trigger] to(n, p, id, i) implies s.contains(i) by { lemma_to(n, p, id, e, i); } assert(apart_from(n, p, x, s)); }
        else {
            assert(same_at(m, n, k_data(base(p), x))); assert(m.dom().contains(k_data(base(p), x))); let q = choose|q: Set<u64>| #[trigger] apart_from(m, p, x, q);
            let t = if s.contains(x) { q.intersect(s) } else { q.union(s) };
            assert forall|i: u64| #[trigger] to(n, p, x, i) implies t.contains(i) by { lemma_same_to(m, n, p, x, i); if s.contains(x) { assert(to(n, p, x, i)); } }
            assert forall|y: u64, i: u64| t.contains(y) && #[trigger] to(n, p, y, i) implies t.contains(i) by { if y == id { lemma_to(n, p, id, e, i); } else { assert(same_at(m, n, k_data(base(p), y))); lemma_same_to(m, n, p, y, i); } }
            assert(apart_from(n, p, x, t));
        }
    }
}
pub proof fn lemma_kept(m: Store, n: Store, p: u64, id: u64) requires acyclic(m, p), only(m, n, p, id), m.dom().contains(k_data(base(p), id)), forall|i: u64| #[trigger] to(n, p, id, i) ==> to(m, p, id, i) ensures acyclic(n, p)
{
    assert forall|x: u64, i: u64| #[trigger] to(n, p, x, i) implies to(m, p, x, i) by { if x != id { assert(same_at(m, n, k_data(base(p), x))); lemma_same_to(m, n, p, x, i); } }
    assert forall|x: u64| #[trigger] n.dom().contains(k_data(base(p), x)) implies exists|t: Set<u64>| #[trigger] apart_from(n, p, x, t) by {
        if x != id { assert(same_at(m, n, k_data(base(p), x))); } assert(m.dom().contains(k_data(base(p), x))); let q = choose|q: Set<u64>| #[trigger] apart_from(m, p, x, q); assert(apart_from(n, p, x, q));
    }
}
impl Shown for usize { open spec fn shown(&self) -> Seq<u8> { dec(*self as u64) } }
pub proof fn lemma_regular(m: Store, p: u64, v: Events, s: Seq<Event>, k: int, n: nat, f: Set<u64>)
    requires 0 <= k < s.len(), accepted(m, p, v, s.take(k), n, f), !(s[k].event is Custom), regulars(v, p, seq![s[k]]) ensures accepted(m, p, v, s.take(k + 1), n, f)
{
    let t = s.take(k + 1); assert(t.drop_last() =~= s.take(k)); assert(t.last() == s[k]); assert(refs(t) == refs(s.take(k)));
    assert(seq![s[k]][0] == s[k]); assert forall|j: int| 0 <= j < t.len() implies match (#[trigger] t[j]).event { EventRef::RegularName(n) => named(v, p, n@), EventRef::Regular(i) => numbered(v, p, i), EventRef::Custom(_) => true } by { if j < k { assert(t[j] == s.take(k)[j]); } }
}
pub proof fn lemma_custom(m: Store, p: u64, v: Events, s: Seq<Event>, k: int, n: nat, o: Seq<u64>, a: Seq<u64>, b: Seq<u64>, e: CustomEvent, i: u64)
    requires 0 <= k < s.len(), accepted(m, p, v, s.take(k), n, fresh(o, a)), s[k].event == EventRef::Custom(i), o.to_set().subset_of(a.to_set()), a.push(i).to_set().subset_of(b.to_set()), !a.contains(i), n > 0,
        inv::<CustomEvent>(m, base(p)), holds(m, base(p), i, e), accepted(m, p, v, e.events@, (n - 1) as nat, fresh(a.push(i), b))
    ensures accepted(m, p, v, s.take(k + 1), n, fresh(o, b)), o.to_set().subset_of(b.to_set())
{
    let t = s.take(k + 1); assert(t.drop_last() =~= s.take(k)); assert(t.last() == s[k]); assert(refs(t) == refs(s.take(k)).insert(i));
    assert forall|j: int| 0 <= j < t.len() implies match (#[trigger] t[j]).event { EventRef::RegularName(n) => named(v, p, n@), EventRef::Regular(i) => numbered(v, p, i), EventRef::Custom(_) => true } by { if j < k { assert(t[j] == s.take(k)[j]); } }
    let f = fresh(o, b); let f1 = fresh(o, a); let f2 = fresh(a.push(i), b);
    assert forall|x: u64| #[trigger] a.push(i).contains(x) <==> a.contains(x) || x == i by { if x == i { assert(a.push(i)[a.len() as int] == i); } if a.contains(x) { let j = choose|j: int| 0 <= j < a.len() && a[j] == x; assert(a.push(i)[j] == x); } }
    assert forall|x: u64| #[trigger] f.contains(x) <==> f1.contains(x) || x == i || f2.contains(x) by { assert(a.push(i).to_set().contains(x) ==> b.to_set().contains(x)); assert(o.to_set().contains(x) ==> a.to_set().contains(x)); assert(a.push(i).to_set().contains(x) <==> a.push(i).contains(x)); assert(a.to_set().contains(x) <==> a.contains(x)); }
    let w = choose|w: CustomEvent| #[trigger] rec(m, base(p), i, w); assert(rec(m, base(p), i, w)); CustomEvent::back_ok(w); assert(e == w.back()); axiom_stored(e, w);
    assert forall|x: u64, y: u64| f.contains(x) && #[trigger] to(m, p, x, y) implies f.contains(y) by { if x == i { lemma_to(m, p, i, w, y); assert(refs(e.events@).contains(y)); } }
    assert forall|y: u64, g: CustomEvent| refs(t).contains(y) && #[trigger] rec(m, base(p), y, g) implies n > 0 && within(m, p, refs(g.events@), (n - 1) as nat) by { if y == i { axiom_stored(g, w); } }
    assert(within(m, p, refs(t), n));
    assert(o.to_set().subset_of(b.to_set())) by { assert forall|x: u64| o.to_set().contains(x) implies b.to_set().contains(x) by { assert(a.to_set().contains(x)); assert(a.push(i).contains(x)); assert(a.push(i).to_set().contains(x)); } }
}
//@fn src/metadata/src/custom_events.rs index_name_key | ret=r block
//@contract
    ensures key_of(r) == Some(k_index(base(project_id), asc("name"@), utf8(name@))), r is Some,
//@end
//@fn src/metadata/src/custom_events.rs index_keys | ret=r block
//@contract
    ensures ks(r@) =~= seq![Some(k_index(base(project_id), asc("name"@), utf8(name@)))],
//@end
pub open spec fn views_of(it: Seq<&Event>, s: Seq<Event>) -> bool { it.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] it[i]) == s[i] }
pub proof fn lemma_absent(m: Store, p: u64, id: u64) requires inv::<CustomEvent>(m, base(p)), id == counter(m, k_seq(base(p)), 1), seq_ok(m, k_seq(base(p))) ensures !m.dom().contains(k_data(base(p), id)) {}
pub open spec fn made(r: CustomEvent, p: u64, q: CreateCustomEventRequest) -> bool { r.project_id == p && r.updated_at is None && r.updated_by is None && r.created_by == q.created_by && r.tags == q.tags && r.name == q.name && r.description == q.description && r.status == q.status && r.is_system == q.is_system && r.events == q.events }
pub open spec fn changed(w: CustomEvent, r: CustomEvent, q: UpdateCustomEventRequest) -> bool { r.updated_at is Some && r.updated_by == Some(q.updated_by) && r.id == w.id && r.created_at == w.created_at && r.created_by == w.created_by && r.project_id == w.project_id && set(q.tags, w.tags, r.tags) && set(q.name, w.name, r.name) && set(q.description, w.description, r.description) && set(q.status, w.status, r.status) && set(q.is_system, w.is_system, r.is_system) && set(q.events, w.events, r.events) }
pub open spec fn refusal(e: MetadataError) -> bool { infra(e) || e is NotFound || e is AlreadyExists || e is BadRequest }
impl CustomEvents {
//@fn src/metadata/src/custom_events.rs CustomEvents::validate_events | ret=r block
//@contract
    requires inv::<CustomEvent>(self.db@, base(project_id)), self.max_events_level < usize::MAX, level <= self.max_events_level + 1,
    ensures r is Ok ==> old(ids)@.to_set().subset_of(final(ids)@.to_set()), r is Ok ==> level <= self.max_events_level && accepted(self.db@, project_id, self.events, events@, (self.max_events_level - level) as nat, fresh(old(ids)@, final(ids)@)),
        r is Err ==> refusal(r->Err_0),
    decreases self.max_events_level + 1 - level,
//@start
    let ghost n = (self.max_events_level - level) as nat; let ghost m = self.db@; let ghost p = project_id; let ghost o = old(ids)@;
//@loop 0 iter=it
    invariant views_of(it.seq(), events@), it.index@ <= it.seq().len(), m == self.db@, p == project_id, o.to_set().subset_of(ids@.to_set()), level <= self.max_events_level < usize::MAX, n == self.max_events_level - level, inv::<CustomEvent>(m, base(p)),
        accepted(m, p, self.events, events@.take(it.index@ as int), n, fresh(o, ids@)),
//@loopstart 0
    let ghost k = it.index@ as int; let ghost a = ids@; let ghost s = fresh(o, a); let ghost mut c: Option<CustomEvent> = None;
    proof { assert(event == events@[k]); assert(events@.take(k + 1).drop_last() =~= events@.take(k)); assert(events@.take(k + 1).last() == events@[k]); }
//@before self . validate_events
    let ghost b = ids@;
    proof { c = Some(custom_event); let w = choose|w: CustomEvent| #[trigger] rec(m, base(p), *id, w); assert(rec(m, base(p), *id, w)); CustomEvent::back_ok(w); axiom_stored(custom_event, w); assert(custom_event.id == *id); assert(b == a.push(*id)); }
//@loopend 0
    proof { match event.event { EventRef::Custom(i) => { lemma_custom(m, p, self.events, events@, k, n, o, a, ids@, c->0, i); }, _ => { lemma_regular(m, p, self.events, events@, k, n, s); } } }
//@before Ok ( ( ) )
    proof { assert(events@.take(events@.len() as int) =~= events@); }
//@end
//@fn src/metadata/src/custom_events.rs CustomEvents::get_by_id_ | ret=r block
//@contract
    ensures final(tx)@ == old(tx)@, r is Ok ==> holds(old(tx)@, base(project_id), id, r->Ok_0), r is Err && r->Err_0 is NotFound ==> !old(tx)@.dom().contains(k_data(base(project_id), id)), inv::<CustomEvent>(old(tx)@, base(project_id)) && r is Err && !(r->Err_0 is NotFound) ==> infra(r->Err_0),
//@end
//@fn src/metadata/src/custom_events.rs CustomEvents::get_by_id | ret=r block
//@contract
    ensures r is Ok ==> holds(self.db@, base(project_id), id, r->Ok_0), r is Err && r->Err_0 is NotFound ==> !self.db@.dom().contains(k_data(base(project_id), id)), inv::<CustomEvent>(self.db@, base(project_id)) && r is Err && !(r->Err_0 is NotFound) ==> infra(r->Err_0),
//@end
//@fn src/metadata/src/custom_events.rs CustomEvents::get_by_name | ret=r block
//@contract
    requires inv::<CustomEvent>(self.db@, base(project_id)),
    ensures r is Ok ==> exists|id: u64| #[trigger] holds(self.db@, base(project_id), id, r->Ok_0) && r->Ok_0.name@ == name@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !self.db@.dom().contains(k_index(base(project_id), asc("name"@), utf8(name@))),
//@start
    proof { lemma_is_idx(base(project_id), asc("name"@), utf8(name@)); }
//@before self . get_by_id_
    proof { let b = base(project_id); let k = k_index(b, asc("name"@), utf8(name@)); let e = choose|e: CustomEvent| #[trigger] rec(self.db@, b, id, e) && has_key(e, b, k); assert(rec(self.db@, b, id, e)); CustomEvent::back_ok(e); axiom_stored(e.back(), e); assert(e.ekeys(b)[0] == Some(k)); reveal_strlit("name"); lemma_index_key(b, asc("name"@), e.name@, asc("name"@), name@); }
//@end
//@fn src/metadata/src/custom_events.rs CustomEvents::create | ret=r mut_self block
//@contract
    requires inv::<CustomEvent>(old(self).db@, base(project_id)), acyclic(old(self).db@, project_id), seq_ok(old(self).db@, k_seq(base(project_id))), old(self).max_events_level < usize::MAX,
    ensures r is Ok ==> made(r->Ok_0, project_id, req) && req.events@.len() > 0 && r->Ok_0.id == counter(old(self).db@, k_seq(base(project_id)), 1) && step(old(self).db@, final(self).db@, base(project_id), r->Ok_0.id, None, Some(r->Ok_0)) && inv::<CustomEvent>(final(self).db@, base(project_id)),
        r is Ok ==> exists|s: Set<u64>| #[trigger] accepted(old(self).db@, project_id, old(self).events, req.events@, old(self).max_events_level as nat, s),
        acyclic(final(self).db@, project_id),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> refusal(r->Err_0),
//@before check_insert_constraints
    let ghost s = fresh(seq![], ids@); proof { lemma_some_at(ks(idx_keys@)); }
//@before tx . commit
    proof { let b = base(project_id); let m = old(self).db@; lemma_keyseq(event, b, ks(idx_keys@)); lemma_created(m, b, event.id, event); assert(tx@ == created(m, b, event.id, event)); lemma_only(m, tx@, project_id, event.id, None, Some(event)); lemma_absent(m, project_id, event.id); lemma_acyclic(m, tx@, project_id, event.id, event, s); }
//@end
//@fn src/metadata/src/custom_events.rs CustomEvents::update | ret=r mut_self block
//@rule if let OptionalProperty :: Some ( $v ) = req . $f { event . $g = $v ; } =>> apply(&mut event.$g, req.$f);
//@contract
    requires inv::<CustomEvent>(old(self).db@, base(project_id)), acyclic(old(self).db@, project_id), old(self).max_events_level < usize::MAX,
    ensures r is Ok ==> exists|w: CustomEvent| #[trigger] rec(old(self).db@, base(project_id), event_id, w) && changed(w.back(), r->Ok_0, req) && step(old(self).db@, final(self).db@, base(project_id), event_id, Some(w), Some(r->Ok_0)), r is Ok ==> inv::<CustomEvent>(final(self).db@, base(project_id)),
        r is Ok && req.events is Some ==> req.events->Some_0@.len() > 0 && exists|s: Set<u64>| #[trigger] accepted(old(self).db@, project_id, old(self).events, req.events->Some_0@, old(self).max_events_level as nat, s) && !s.contains(event_id),
        acyclic(final(self).db@, project_id),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> refusal(r->Err_0),
//@start
    let ghost mut s: Set<u64> = Set::empty();
//@before let mut event
    let ghost w = choose|w: CustomEvent| #[trigger] rec(old(self).db@, base(project_id), event_id, w); proof { assert(rec(old(self).db@, base(project_id), event_id, w)); CustomEvent::back_ok(w); axiom_stored(w.back(), w); }
//@before event . events = events
    proof { s = fresh(seq![event_id], ids@); assert(!s.contains(event_id)) by { assert(seq![event_id][0] == event_id); assert(seq![event_id].to_set().contains(event_id)); } }
//@before tx . commit
    proof { let m = old(self).db@; let a = ks(idx_keys@); let p = ks(idx_prev_keys@); let ns = base(project_id); CustomEvent::keys_ok(w, ns); CustomEvent::keys_ok(event, ns);
        if req.name is Some { assert(a =~= seq![event.ekeys(ns)[0]]); assert(p =~= seq![w.ekeys(ns)[0]]); let t: Seq<int> = seq![0int]; assert(t[0] == 0); lemma_among(w, event, ns, a, p, t); }
        else { assert(a =~= seq![]); assert(p =~= seq![]); let t: Seq<int> = seq![]; lemma_among(w, event, ns, a, p, t); }
        lemma_updated(m, ns, event_id, w, event, a, p); assert(tx@ == updated(m, ns, event_id, event, a, p)); lemma_only(m, tx@, project_id, event_id, Some(w), Some(event));
        if req.events is Some { lemma_acyclic(m, tx@, project_id, event_id, event, s); }
        else { assert forall|i: u64| #[trigger] to(tx@, project_id, event_id, i) implies to(m, project_id, event_id, i) by { lemma_to(tx@, project_id, event_id, event, i); lemma_to(m, project_id, event_id, w, i); } lemma_kept(m, tx@, project_id, event_id); } }
//@end
//@fn src/metadata/src/custom_events.rs CustomEvents::delete | ret=r mut_self block
//@contract
    requires inv::<CustomEvent>(old(self).db@, base(project_id)), acyclic(old(self).db@, project_id),
    ensures acyclic(final(self).db@, project_id), r is Ok ==> holds(old(self).db@, base(project_id), id, r->Ok_0), r is Ok ==> exists|w: CustomEvent| #[trigger] rec(old(self).db@, base(project_id), id, w) && step(old(self).db@, final(self).db@, base(project_id), id, Some(w), None), r is Ok ==> inv::<CustomEvent>(final(self).db@, base(project_id)),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(project_id), id)),
//@before tx . commit
    proof { let w = choose|w: CustomEvent| #[trigger] rec(old(self).db@, base(project_id), id, w); assert(rec(old(self).db@, base(project_id), id, w)); lemma_deleted(old(self).db@, base(project_id), id, w);
        assert(event == w.back()); CustomEvent::back_ok(w); axiom_stored(event, w); assert(event.ekeys(base(project_id)) =~= w.ekeys(base(project_id))); lemma_somes(w.ekeys(base(project_id))); assert(tx@ == deleted(old(self).db@, base(project_id), id, w)); lemma_only(old(self).db@, tx@, project_id, id, Some(w), None); lemma_kept(old(self).db@, tx@, project_id, id); }
//@end
//@fn src/metadata/src/custom_events.rs CustomEvents::list | ret=r block
//@contract
    requires inv::<CustomEvent>(self.db@, base(project_id)),
    ensures r is Ok ==> listed(self.db@, base(project_id), r->Ok_0.data@), r is Err ==> infra(r->Err_0),
//@loop 0 iter=it
    invariant scanned(it.seq(), tx@, k_all(base(project_id))), tx@ == self.db@, prefix@ == k_all(base(project_id)), it.index@ <= it.seq().len(),
        forall|i: int| 0 <= i < list@.len() ==> is_read(scan(tx@, prefix@)[i].1, #[trigger] list@[i]),
        !brk_0 ==> list@.len() == it.index@,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]) is Ok,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> starts(#[trigger] scan(tx@, prefix@)[i].0, prefix@),
        brk_0 ==> list@.len() == hits(tx@, prefix@),
//@loopstart 0
    proof { axiom_scan(tx@, prefix@); assert(kv == it.seq()[it.index@ as int]); }
//@before if ! from_utf8
    proof { let i = it.index@ as int; assert(it.seq()[i] is Ok); assert(it.seq()[i]->Ok_0 == (key, value)); assert(key@ == scan(tx@, prefix@)[i].0); assert(i > 0 ==> starts(scan(tx@, prefix@)[i - 1].0, prefix@));
        if starts(key@, prefix@) { assert(self.db@.dom().contains(key@)); let id = choose|id: u64| key@ == #[trigger] k_data(base(project_id), id); let e = choose|e: CustomEvent| #[trigger] rec(self.db@, base(project_id), id, e); assert(rec(self.db@, base(project_id), id, e)); assert(value@ == e.enc()); } }
//@before ListResponse
    proof { axiom_scan(tx@, prefix@); let n = scan(tx@, prefix@).len() as int; assert(!brk_0 && n > 0 ==> starts(scan(tx@, prefix@)[n - 1].0, prefix@)); lemma_listed(self.db@, base(project_id), list@); }
//@end
}
}
}
//@helpers
fn main() {}
