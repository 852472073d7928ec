//@rule unreachable ! ( ) =>> corrupt(data)
//@rule panic ! ( $$x ) =>> corrupt(data)
//@include base.rs
use vstd::prelude::*;
use std::fmt::Debug;
verus! {
global size_of usize == 8;
//@include metaerr.rs
//@include store.rs
//@include keys.rs
//@include stdspec.rs
//@include index.rs
//@include keylemmas.rs
//@include provider.rs
//@include uniq.rs
//@rule where T : Debug =>>
pub open spec fn set<T>(o: OptionalProperty<T>, was: T, is: T) -> bool { match o { OptionalProperty::Some(v) => is == v, OptionalProperty::None => is == was } }
//@item src/common/src/types.rs OptionalProperty | vis=keep
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
pub mod teams { use super::*; broadcast use crate::all;
//@rule team :: Team :: decode =>> decode::<team::Team>
pub mod team { use super::*;
//@item pb:team.rs Team | vis=keep
}
//@item src/metadata/src/teams.rs Team | vis=keep std="clone"
//@item src/metadata/src/teams.rs CreateTeamRequest | vis=keep
//@item src/metadata/src/teams.rs UpdateTeamRequest | vis=keep
//@item src/metadata/src/teams.rs Teams | vis=keep
//@static src/metadata/src/teams.rs NAMESPACE | block
//@contract
    ensures r@ == NS(),
//@end
pub open spec fn NS() -> Seq<u8> { asc("teams"@) }
//@rule IDX_NAME =>> IDX_NAME()
//@static src/metadata/src/teams.rs IDX_NAME | block
//@contract
    ensures r@ == asc("name"@),
//@end
pub open spec fn base(p: u64) -> Seq<u8> { k_org(p, NS()) }
pub open spec fn to_pb(r: Team) -> team::Team { team::Team { id: r.id, created_at: r.created_at.t, created_by: r.created_by, updated_at: s_secs(r.updated_at), updated_by: r.updated_by, organization_id: r.organization_id, name: r.name } }
impl Ent for Team {
    open spec fn enc(self) -> Seq<u8> { pb(to_pb(self)) }
    open spec fn eid(self) -> u64 { self.id }
    open spec fn ekeys(self, ns: Seq<u8>) -> Seq<Option<Seq<u8>>> { seq![Some(k_index(ns, asc("name"@), utf8(self.name@)))] }
    open spec fn back(self) -> Team { let r = self; Team { created_at: Instant { t: r.created_at.t, n: 0 }, updated_at: s_at(s_secs(r.updated_at)), ..r } }
    proof fn back_ok(a: Team) {  }
    proof fn enc_ok(a: Team, b: Team, ns: Seq<u8>) { assert(unpb::<team::Team>(a.enc()) == Some(to_pb(a))); assert(to_pb(a) == to_pb(b)); }
    proof fn keys_ok(a: Team, ns: Seq<u8>) { assert(k_index(ns, asc("name"@), utf8(a.name@)).take((ns + asc("/idx/"@)).len() as int) =~= ns + asc("/idx/"@)); }
}
// reaching this panics: shown unreachable for every value the provider wrote
#[verifier::external_body] fn corrupt<T>(data: &[u8]) -> (r: T) requires forall|x: Team| data@ != #[trigger] x.enc() ensures false { unimplemented!() }
//@fn src/metadata/src/teams.rs index_name_key | ret=r block
//@contract
    ensures key_of(r) == Some(k_index(base(organization_id), asc("name"@), utf8(name@))), r is Some,
//@end
//@fn src/metadata/src/teams.rs index_keys | ret=r block
//@contract
    ensures ks(r@) =~= seq![Some(k_index(base(organization_id), asc("name"@), utf8(name@)))],
//@end
//@fn src/metadata/src/teams.rs serialize | ret=r2 block
//@contract
    ensures r2 is Ok ==> r2->Ok_0@ == (*team).enc(), r2 is Err ==> r2->Err_0 is Bincode,
//@before Ok ( v . encode_to_vec ( ) )
    proof { assert(v == to_pb(*team)); }
//@end
//@fn src/metadata/src/teams.rs deserialize | ret=r2 block
//@contract
    ensures r2 is Ok ==> unpb::<team::Team>(data@) is Some, r2 is Ok ==> is_read(data@, r2->Ok_0), (exists|x: Team| data@ == #[trigger] x.enc()) ==> r2 is Err ==> r2->Err_0 is Bincode, r2 is Err ==> !(r2->Err_0 is NotFound),
//@end
pub open spec fn made(r: Team, p: u64, q: CreateTeamRequest) -> bool { r.organization_id == p && r.updated_at is None && r.updated_by is None && r.created_by == q.created_by && r.name == q.name }
pub open spec fn changed(w: Team, r: Team, q: UpdateTeamRequest) -> bool { r.updated_at is Some && r.updated_by == Some(q.updated_by) && r.id == w.id && r.created_at == w.created_at && r.created_by == w.created_by && r.organization_id == w.organization_id && set(q.name, w.name, r.name) }
impl Teams {
//@fn src/metadata/src/teams.rs Teams::get_by_id_ | ret=r block
//@contract
    ensures final(tx)@ == old(tx)@, r is Ok ==> holds(old(tx)@, base(organization_id), team_id, r->Ok_0), r is Err && r->Err_0 is NotFound ==> !old(tx)@.dom().contains(k_data(base(organization_id), team_id)), inv::<Team>(old(tx)@, base(organization_id)) && r is Err && !(r->Err_0 is NotFound) ==> infra(r->Err_0),
//@end
//@fn src/metadata/src/teams.rs Teams::get_by_id | ret=r block
//@contract
    ensures r is Ok ==> holds(self.db@, base(organization_id), team_id, r->Ok_0), r is Err && r->Err_0 is NotFound ==> !self.db@.dom().contains(k_data(base(organization_id), team_id)), inv::<Team>(self.db@, base(organization_id)) && r is Err && !(r->Err_0 is NotFound) ==> infra(r->Err_0),
//@end
//@fn src/metadata/src/teams.rs Teams::create | ret=r mut_self block
//@contract
    requires inv::<Team>(old(self).db@, base(organization_id)), seq_ok(old(self).db@, k_seq(base(organization_id))),
    ensures r is Ok ==> made(r->Ok_0, organization_id, req) && r->Ok_0.id == counter(old(self).db@, k_seq(base(organization_id)), 1) && step(old(self).db@, final(self).db@, base(organization_id), r->Ok_0.id, None, Some(r->Ok_0)) && may(old(self).db@, base(organization_id), r->Ok_0.id, None, Some(r->Ok_0)) && inv::<Team>(final(self).db@, base(organization_id)),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is AlreadyExists && (old(self).db@.dom().contains(k_index(base(organization_id), asc("name"@), utf8(req.name@)))),
//@before check_insert_constraints
    proof { lemma_some_at(ks(idx_keys@)); }
//@before tx . commit
    proof { lemma_keyseq(team, base(organization_id), ks(idx_keys@)); lemma_created(old(self).db@, base(organization_id), team.id, team); assert(tx@ == created(old(self).db@, base(organization_id), team.id, team)); }
//@end
//@fn src/metadata/src/teams.rs Teams::update | ret=r mut_self block
//@contract
    requires inv::<Team>(old(self).db@, base(organization_id)), 
    ensures r is Ok ==> exists|w: Team| #[trigger] rec(old(self).db@, base(organization_id), team_id, w) && changed(w.back(), r->Ok_0, req) && step(old(self).db@, final(self).db@, base(organization_id), team_id, Some(w), Some(r->Ok_0)) && may(old(self).db@, base(organization_id), team_id, Some(w), Some(r->Ok_0)), r is Ok ==> inv::<Team>(final(self).db@, base(organization_id)),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(organization_id), team_id)) || r->Err_0 is AlreadyExists && (req.name is Some && old(self).db@.dom().contains(k_index(base(organization_id), asc("name"@), utf8(req.name->Some_0@)))),
//@before tx . commit
    proof { let w = choose|w: Team| #[trigger] rec(old(self).db@, base(organization_id), team_id, w); assert(rec(old(self).db@, base(organization_id), team_id, w));
        let a = ks(idx_keys@); let p = ks(idx_prev_keys@); let ns = base(organization_id); Team::keys_ok(w, ns); Team::keys_ok(team, ns);
        if (req.name is Some) { assert(a =~= seq![team.ekeys(ns)[0]]); assert(p =~= seq![w.ekeys(ns)[0]]); let t: Seq<int> = seq![0int]; assert(t[0] == 0);  lemma_among(w, team, ns, a, p, t); }
        if !(req.name is Some) { assert(a =~= seq![]); assert(p =~= seq![]); let t: Seq<int> = seq![];   lemma_among(w, team, ns, a, p, t); }
        lemma_updated(old(self).db@, ns, team_id, w, team, a, p); assert(tx@ == updated(old(self).db@, ns, team_id, team, a, p)); }
//@end
//@fn src/metadata/src/teams.rs Teams::delete | ret=r mut_self block
//@contract
    requires inv::<Team>(old(self).db@, base(organization_id)),
    ensures r is Ok ==> holds(old(self).db@, base(organization_id), team_id, r->Ok_0), r is Ok ==> exists|w: Team| #[trigger] rec(old(self).db@, base(organization_id), team_id, w) && step(old(self).db@, final(self).db@, base(organization_id), team_id, Some(w), None), r is Ok ==> inv::<Team>(final(self).db@, base(organization_id)),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(organization_id), team_id)),
//@before tx . commit
    proof { let w = choose|w: Team| #[trigger] rec(old(self).db@, base(organization_id), team_id, w); assert(rec(old(self).db@, base(organization_id), team_id, w)); lemma_deleted(old(self).db@, base(organization_id), team_id, w);
        assert(team == w.back()); assert(team.ekeys(base(organization_id)) =~= w.ekeys(base(organization_id))); lemma_somes(w.ekeys(base(organization_id))); assert(tx@ == deleted(old(self).db@, base(organization_id), team_id, w)); }
//@end
//@fn src/metadata/src/teams.rs Teams::list | ret=r block
//@contract
    requires inv::<Team>(self.db@, base(organization_id)),
    ensures r is Ok ==> listed(self.db@, base(organization_id), r->Ok_0.data@), r is Err ==> infra(r->Err_0),
//@loop 0 iter=it
    invariant scanned(it.seq(), tx@, k_all(base(organization_id))), tx@ == self.db@, prefix@ == k_all(base(organization_id)), it.index@ <= it.seq().len(),
        forall|i: int| 0 <= i < list@.len() ==> is_read(scan(tx@, prefix@)[i].1, #[trigger] list@[i]),
        !brk_0 ==> list@.len() == it.index@,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]) is Ok,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> starts(#[trigger] scan(tx@, prefix@)[i].0, prefix@),
        brk_0 ==> list@.len() == hits(tx@, prefix@),
//@loopstart 0
    proof { axiom_scan(tx@, prefix@); assert(kv == it.seq()[it.index@ as int]); }
//@before if key . len
    proof { let i = it.index@ as int; assert(it.seq()[i] is Ok); assert(it.seq()[i]->Ok_0 == (key, value)); assert(key@ == scan(tx@, prefix@)[i].0); assert(i > 0 ==> starts(scan(tx@, prefix@)[i - 1].0, prefix@));
        if starts(key@, prefix@) { assert(self.db@.dom().contains(key@)); let id = choose|id: u64| key@ == #[trigger] k_data(base(organization_id), id); let e = choose|e: Team| #[trigger] rec(self.db@, base(organization_id), id, e); assert(rec(self.db@, base(organization_id), id, e)); assert(value@ == e.enc()); } }
//@before ListResponse
    proof { axiom_scan(tx@, prefix@); let n = scan(tx@, prefix@).len() as int; assert(!brk_0 && n > 0 ==> starts(scan(tx@, prefix@)[n - 1].0, prefix@)); lemma_listed(self.db@, base(organization_id), list@); }
//@end
}
}
}
//@helpers
fn main() {}
