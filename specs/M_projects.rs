//@rule unreachable ! ( ) =>> corrupt(data)
//@rule panic ! ( $$x ) =>> corrupt(data)
//@include base.rs
use vstd::prelude::*;
use std::fmt::Debug;
verus! {
global size_of usize == 8;
//@include metaerr.rs
//@include store.rs
//@include keys.rs
//@include stdspec.rs
//@include index.rs
//@include keylemmas.rs
//@include provider.rs
//@include uniq.rs
//@rule where T : Debug =>>
pub open spec fn set<T>(o: OptionalProperty<T>, was: T, is: T) -> bool { match o { OptionalProperty::Some(v) => is == v, OptionalProperty::None => is == was } }
//@item src/common/src/types.rs OptionalProperty | vis=keep
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
pub mod projects { use super::*; broadcast use crate::all;
//@rule project :: Project :: decode =>> decode::<project::Project>
pub mod project { use super::*;
//@item pb:project.rs Project | vis=keep
}
//@item src/metadata/src/projects.rs Project | vis=keep std="clone"
//@item src/metadata/src/projects.rs CreateProjectRequest | vis=keep
//@item src/metadata/src/projects.rs UpdateProjectRequest | vis=keep
//@item src/metadata/src/projects.rs Projects | vis=keep
//@static src/metadata/src/projects.rs NAMESPACE | block
//@contract
    ensures r@ == NS(),
//@end
pub open spec fn NS() -> Seq<u8> { asc("projects"@) }
//@rule IDX_NAME =>> IDX_NAME()
//@static src/metadata/src/projects.rs IDX_NAME | block
//@contract
    ensures r@ == asc("name"@),
//@end
pub open spec fn base() -> Seq<u8> { NS() }
// two index keys are equal only when their texts are
proof fn axiom_names() ensures forall|x: String, y: String| #![trigger utf8(x@), utf8(y@)] k_index(NS(), asc("name"@), utf8(x@)) == k_index(NS(), asc("name"@), utf8(y@)) ==> x@ == y@ { assert forall|x: String, y: String| #![trigger utf8(x@), utf8(y@)] k_index(NS(), asc("name"@), utf8(x@)) == k_index(NS(), asc("name"@), utf8(y@)) implies x@ == y@ by { reveal_strlit("name"); lemma_index_key(NS(), asc("name"@), x@, asc("name"@), y@); } }
pub open spec fn to_pb(r: Project) -> project::Project { project::Project { id: r.id, created_at: r.created_at.t, created_by: r.created_by, updated_at: s_secs(r.updated_at), updated_by: r.updated_by, organization_id: r.organization_id, name: r.name, description: r.description, tags: s_or_empty(r.tags), token: r.token, session_duration_seconds: r.session_duration_seconds, events_count: r.events_count as u64 } }
impl Ent for Project {
    open spec fn enc(self) -> Seq<u8> { pb(to_pb(self)) }
    open spec fn eid(self) -> u64 { self.id }
    open spec fn ekeys(self, ns: Seq<u8>) -> Seq<Option<Seq<u8>>> { seq![Some(k_index(ns, asc("name"@), utf8(self.name@))), Some(k_index(ns, asc("name"@), utf8(self.token@)))] }
    open spec fn back(self) -> Project { let r = self; Project { created_at: Instant { t: r.created_at.t, n: 0 }, updated_at: s_at(s_secs(r.updated_at)), tags: if r.tags is Some && r.tags->0@.len() == 0 { None } else { r.tags }, ..r } }
    proof fn back_ok(a: Project) {  }
    proof fn enc_ok(a: Project, b: Project, ns: Seq<u8>) { assert(unpb::<project::Project>(a.enc()) == Some(to_pb(a))); assert(to_pb(a) == to_pb(b)); }
    proof fn keys_ok(a: Project, ns: Seq<u8>) { assert(k_index(ns, asc("name"@), utf8(a.name@)).take((ns + asc("/idx/"@)).len() as int) =~= ns + asc("/idx/"@)); assert(k_index(ns, asc("name"@), utf8(a.token@)).take((ns + asc("/idx/"@)).len() as int) =~= ns + asc("/idx/"@)); }
}
// reaching this panics: shown unreachable for every value the provider wrote
#[verifier::external_body] fn corrupt<T>(data: &[u8]) -> (r: T) requires forall|x: Project| data@ != #[trigger] x.enc() ensures false { unimplemented!() }
//@fn src/metadata/src/projects.rs index_name_key | ret=r block
//@contract
    ensures key_of(r) == Some(k_index(base(), asc("name"@), utf8(name@))), r is Some,
//@end
//@fn src/metadata/src/projects.rs index_token_key | ret=r block
//@contract
    ensures key_of(r) == Some(k_index(base(), asc("name"@), utf8(token@))), r is Some,
//@end
//@fn src/metadata/src/projects.rs index_keys | ret=r block
//@contract
    ensures ks(r@) =~= seq![Some(k_index(base(), asc("name"@), utf8(name@))), Some(k_index(base(), asc("name"@), utf8(token@)))],
//@end
//@fn src/metadata/src/projects.rs serialize | ret=r2 block
//@contract
    ensures r2 is Ok ==> r2->Ok_0@ == (*project).enc(), r2 is Err ==> r2->Err_0 is Bincode,
//@rule tags . to_vec ( ) =>> same_as(tags)
//@before Ok ( v . encode_to_vec ( ) )
    proof { assert(v == to_pb(*project)); }
//@end
//@fn src/metadata/src/projects.rs deserialize | ret=r2 block
//@contract
    ensures r2 is Ok ==> unpb::<project::Project>(data@) is Some, r2 is Ok ==> is_read(data@, r2->Ok_0), (exists|x: Project| data@ == #[trigger] x.enc()) ==> r2 is Err ==> r2->Err_0 is Bincode, r2 is Err ==> !(r2->Err_0 is NotFound),
//@end
pub open spec fn made(r: Project, q: CreateProjectRequest) -> bool { r.updated_at is None && r.updated_by is None && r.events_count == 0 && r.created_by == q.created_by && r.organization_id == q.organization_id && r.name == q.name && r.description == q.description && r.tags == q.tags && r.token == q.token && r.session_duration_seconds == q.session_duration_seconds }
pub open spec fn changed(w: Project, r: Project, q: UpdateProjectRequest) -> bool { r.updated_at is Some && r.updated_by == Some(q.updated_by) && r.id == w.id && r.created_at == w.created_at && r.created_by == w.created_by && r.organization_id == w.organization_id && r.events_count == w.events_count && set(q.name, w.name, r.name) && set(q.description, w.description, r.description) && set(q.tags, w.tags, r.tags) && set(q.token, w.token, r.token) && set(q.session_duration_seconds, w.session_duration_seconds, r.session_duration_seconds) }
impl Projects {
//@fn src/metadata/src/projects.rs Projects::get_by_id_ | ret=r block
//@contract
    ensures final(tx)@ == old(tx)@, r is Ok ==> holds(old(tx)@, base(), project_id, r->Ok_0), r is Err && r->Err_0 is NotFound ==> !old(tx)@.dom().contains(k_data(base(), project_id)), inv::<Project>(old(tx)@, base()) && r is Err && !(r->Err_0 is NotFound) ==> infra(r->Err_0),
//@end
//@fn src/metadata/src/projects.rs Projects::get_by_id | ret=r block
//@contract
    ensures r is Ok ==> holds(self.db@, base(), project_id, r->Ok_0), r is Err && r->Err_0 is NotFound ==> !self.db@.dom().contains(k_data(base(), project_id)), inv::<Project>(self.db@, base()) && r is Err && !(r->Err_0 is NotFound) ==> infra(r->Err_0),
//@end
//@fn src/metadata/src/projects.rs Projects::create | ret=r mut_self block
//@contract
    requires inv::<Project>(old(self).db@, base()), seq_ok(old(self).db@, k_seq(base())),
    ensures r is Ok ==> made(r->Ok_0, req) && r->Ok_0.id == counter(old(self).db@, k_seq(base()), 1) && step(old(self).db@, final(self).db@, base(), r->Ok_0.id, None, Some(r->Ok_0)) && may(old(self).db@, base(), r->Ok_0.id, None, Some(r->Ok_0)) && inv::<Project>(final(self).db@, base()),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is AlreadyExists && (old(self).db@.dom().contains(k_index(base(), asc("name"@), utf8(req.name@))) || old(self).db@.dom().contains(k_index(base(), asc("name"@), utf8(req.token@)))),
//@before check_insert_constraints
    proof { lemma_some_at(ks(idx_keys@)); }
//@before tx . commit
    proof { lemma_keyseq(project, base(), ks(idx_keys@)); lemma_created(old(self).db@, base(), project.id, project); assert(tx@ == created(old(self).db@, base(), project.id, project)); }
//@end
//@fn src/metadata/src/projects.rs Projects::update | ret=r mut_self block
//@contract
    requires inv::<Project>(old(self).db@, base()), forall|w: Project| #[trigger] rec(old(self).db@, base(), project_id, w) ==> w.name@ != w.token@ && (req.name is Some ==> req.name->Some_0@ != w.token@) && (req.token is Some ==> req.token->Some_0@ != w.name@) && (req.name is Some && req.token is Some ==> req.name->Some_0@ != req.token->Some_0@),
    ensures r is Ok ==> exists|w: Project| #[trigger] rec(old(self).db@, base(), project_id, w) && changed(w.back(), r->Ok_0, req) && step(old(self).db@, final(self).db@, base(), project_id, Some(w), Some(r->Ok_0)) && may(old(self).db@, base(), project_id, Some(w), Some(r->Ok_0)), r is Ok ==> inv::<Project>(final(self).db@, base()),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(), project_id)) || r->Err_0 is AlreadyExists && (req.name is Some && old(self).db@.dom().contains(k_index(base(), asc("name"@), utf8(req.name->Some_0@))) || req.token is Some && old(self).db@.dom().contains(k_index(base(), asc("name"@), utf8(req.token->Some_0@)))),
//@before tx . commit
    proof { let w = choose|w: Project| #[trigger] rec(old(self).db@, base(), project_id, w); assert(rec(old(self).db@, base(), project_id, w));
        let a = ks(idx_keys@); let p = ks(idx_prev_keys@); let ns = base(); Project::keys_ok(w, ns); Project::keys_ok(project, ns);
        if (req.name is Some) && (req.token is Some) { assert(a =~= seq![project.ekeys(ns)[0], project.ekeys(ns)[1]]); assert(p =~= seq![w.ekeys(ns)[0], w.ekeys(ns)[1]]); let t: Seq<int> = seq![0int, 1int]; assert(t[0] == 0);assert(t[1] == 1); axiom_names(); lemma_among(w, project, ns, a, p, t); }
        if (req.name is Some) && !(req.token is Some) { assert(a =~= seq![project.ekeys(ns)[0]]); assert(p =~= seq![w.ekeys(ns)[0]]); let t: Seq<int> = seq![0int]; assert(t[0] == 0); axiom_names(); lemma_among(w, project, ns, a, p, t); }
        if !(req.name is Some) && (req.token is Some) { assert(a =~= seq![project.ekeys(ns)[1]]); assert(p =~= seq![w.ekeys(ns)[1]]); let t: Seq<int> = seq![1int]; assert(t[0] == 1); axiom_names(); lemma_among(w, project, ns, a, p, t); }
        if !(req.name is Some) && !(req.token is Some) { assert(a =~= seq![]); assert(p =~= seq![]); let t: Seq<int> = seq![];  axiom_names(); lemma_among(w, project, ns, a, p, t); }
        lemma_updated(old(self).db@, ns, project_id, w, project, a, p); assert(tx@ == updated(old(self).db@, ns, project_id, project, a, p)); }
//@end
//@fn src/metadata/src/projects.rs Projects::delete | ret=r mut_self block
//@contract
    requires inv::<Project>(old(self).db@, base()),
    ensures r is Ok ==> holds(old(self).db@, base(), project_id, r->Ok_0), r is Ok ==> exists|w: Project| #[trigger] rec(old(self).db@, base(), project_id, w) && step(old(self).db@, final(self).db@, base(), project_id, Some(w), None), r is Ok ==> inv::<Project>(final(self).db@, base()),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(), project_id)),
//@before tx . commit
    proof { let w = choose|w: Project| #[trigger] rec(old(self).db@, base(), project_id, w); assert(rec(old(self).db@, base(), project_id, w)); lemma_deleted(old(self).db@, base(), project_id, w);
        assert(project == w.back()); assert(project.ekeys(base()) =~= w.ekeys(base())); lemma_somes(w.ekeys(base())); assert(tx@ == deleted(old(self).db@, base(), project_id, w)); }
//@end
//@fn src/metadata/src/projects.rs Projects::list | ret=r block
//@contract
    requires inv::<Project>(self.db@, base()),
    ensures r is Ok ==> listed(self.db@, base(), r->Ok_0.data@), r is Err ==> infra(r->Err_0),
//@start
    proof { reveal_with_fuel(flat, 3); }
//@loop 0 iter=it
    invariant scanned(it.seq(), tx@, k_all(base())), tx@ == self.db@, prefix@ == k_all(base()), it.index@ <= it.seq().len(),
        forall|i: int| 0 <= i < list@.len() ==> is_read(scan(tx@, prefix@)[i].1, #[trigger] list@[i]),
        !brk_0 ==> list@.len() == it.index@,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]) is Ok,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> starts(#[trigger] scan(tx@, prefix@)[i].0, prefix@),
        brk_0 ==> list@.len() == hits(tx@, prefix@),
//@loopstart 0
    proof { axiom_scan(tx@, prefix@); assert(kv == it.seq()[it.index@ as int]); }
//@before if ! from_utf8
    proof { let i = it.index@ as int; assert(it.seq()[i] is Ok); assert(it.seq()[i]->Ok_0 == (key, value)); assert(key@ == scan(tx@, prefix@)[i].0); assert(i > 0 ==> starts(scan(tx@, prefix@)[i - 1].0, prefix@));
        if starts(key@, prefix@) { assert(self.db@.dom().contains(key@)); let id = choose|id: u64| key@ == #[trigger] k_data(base(), id); let e = choose|e: Project| #[trigger] rec(self.db@, base(), id, e); assert(rec(self.db@, base(), id, e)); assert(value@ == e.enc()); } }
//@before ListResponse
    proof { axiom_scan(tx@, prefix@); let n = scan(tx@, prefix@).len() as int; assert(!brk_0 && n > 0 ==> starts(scan(tx@, prefix@)[n - 1].0, prefix@)); lemma_listed(self.db@, base(), list@); }
//@end
//@fn src/metadata/src/projects.rs Projects::get_by_token | ret=r block
//@contract
    requires inv::<Project>(self.db@, base()),
    ensures r is Ok ==> exists|id: u64| #[trigger] holds(self.db@, base(), id, r->Ok_0) && has_key(r->Ok_0, base(), k_index(NS(), asc("name"@), utf8(token@))), r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !self.db@.dom().contains(k_index(NS(), asc("name"@), utf8(token@))),
//@start
    proof { lemma_is_idx(base(), asc("name"@), utf8(token@)); }
//@before self . get_by_id_
    proof { let k = k_index(NS(), asc("name"@), utf8(token@)); let e = choose|e: Project| #[trigger] rec(self.db@, base(), id, e) && has_key(e, base(), k); assert(rec(self.db@, base(), id, e)); assert(e.back().ekeys(base()) =~= e.ekeys(base())); }
//@end
//@fn src/metadata/src/projects.rs Projects::increment_events_counter | ret=r mut_self block
//@contract
    requires inv::<Project>(old(self).db@, base()), forall|w: Project| #[trigger] rec(old(self).db@, base(), project_id, w) ==> w.events_count < usize::MAX,
    ensures r is Ok ==> exists|w: Project| #[trigger] rec(old(self).db@, base(), project_id, w) && final(self).db@ == old(self).db@.insert(k_data(base(), project_id), (Project { events_count: (w.events_count + 1) as usize, ..w.back() }).enc()), r is Ok ==> inv::<Project>(final(self).db@, base()),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(), project_id)),
//@before project . events_count
    proof { let w = choose|w: Project| #[trigger] rec(old(self).db@, base(), project_id, w); assert(rec(old(self).db@, base(), project_id, w)); assert(project == w.back()); }
//@before tx . commit
    proof { let w = choose|w: Project| #[trigger] rec(old(self).db@, base(), project_id, w); assert(rec(old(self).db@, base(), project_id, w)); assert(project == Project { events_count: (w.events_count + 1) as usize, ..w.back() }); assert(project.ekeys(base()) =~= w.ekeys(base())); lemma_updated(old(self).db@, base(), project_id, w, project, seq![], seq![]); }
//@end
}
}
}
//@helpers
fn main() {}
