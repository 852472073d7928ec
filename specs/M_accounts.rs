//@rule unreachable ! ( ) =>> corrupt(data)
//@rule panic ! ( $$x ) =>> corrupt(data)
//@include base.rs
use vstd::prelude::*;
use std::fmt::Debug;
verus! {
global size_of usize == 8;
//@include metaerr.rs
//@include store.rs
//@include keys.rs
//@include stdspec.rs
//@include index.rs
//@include keylemmas.rs
//@include provider.rs
//@include uniq.rs
//@rule where T : Debug =>>
pub open spec fn set<T>(o: OptionalProperty<T>, was: T, is: T) -> bool { match o { OptionalProperty::Some(v) => is == v, OptionalProperty::None => is == was } }
//@item src/common/src/types.rs OptionalProperty | vis=keep
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
pub mod rbac { use super::*; 
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
}
pub use rbac::*;
pub mod accounts { use super::*; broadcast use crate::all;
//@rule account :: Account :: decode =>> decode::<account::Account>
pub mod account { use super::*;
//@item pb:account.rs Account | vis=keep
//@item pb:account.rs Organization | vis=keep
//@item pb:account.rs Project | vis=keep
//@item pb:account.rs Team | vis=keep
//@item pb:account.rs OrganizationRole | consts=OrganizationRole
//@item pb:account.rs ProjectRole | consts=ProjectRole
//@item pb:account.rs Role | consts=Role
}
//@item src/metadata/src/accounts.rs Account | vis=keep std="clone"
//@item src/metadata/src/accounts.rs CreateAccountRequest | vis=keep
//@item src/metadata/src/accounts.rs UpdateAccountRequest | vis=keep
//@item src/metadata/src/accounts.rs Accounts | vis=keep
//@static src/metadata/src/accounts.rs NAMESPACE | block
//@contract
    ensures r@ == NS(),
//@end
pub open spec fn NS() -> Seq<u8> { asc("accounts"@) }
//@rule IDX_EMAIL =>> IDX_EMAIL()
//@static src/metadata/src/accounts.rs IDX_EMAIL | block
//@contract
    ensures r@ == asc("email"@),
//@end
pub open spec fn base() -> Seq<u8> { NS() }
pub open spec fn with_orgs(a: Account, o: Vec<(u64, OrganizationRole)>) -> Account { Account { organizations: Some(o), ..a } }
pub open spec fn accmade(r: Account, q: CreateAccountRequest) -> bool { r.updated_at is None && r.updated_by is None && r.created_by == q.created_by && r.password_hash == q.password_hash && r.email == q.email && r.name == q.name && r.force_update_password == q.force_update_password && r.force_update_email == q.force_update_email && r.role == q.role && r.organizations == q.organizations && r.projects == q.projects && r.teams == q.teams }
pub open spec fn org_code(r: OrganizationRole) -> i32 { match r { OrganizationRole::Owner => 1i32, OrganizationRole::Admin => 2i32, OrganizationRole::Member => 3i32 } }
pub open spec fn org_of(c: i32) -> OrganizationRole { if c == 1 { OrganizationRole::Owner } else if c == 2 { OrganizationRole::Admin } else { OrganizationRole::Member } }
pub open spec fn org_el(p: (u64, OrganizationRole)) -> account::Organization { account::Organization { id: p.0, role: org_code(p.1) } }
pub open spec fn all_orgs(s: Seq<(u64, OrganizationRole)>) -> Seq<account::Organization> { Seq::new(s.len(), |i: int| org_el(s[i])) }
pub open spec fn org_back(p: account::Organization) -> (u64, OrganizationRole) { (p.id, org_of(p.role)) }
pub open spec fn all_orgs_back(s: Seq<account::Organization>) -> Seq<(u64, OrganizationRole)> { Seq::new(s.len(), |i: int| org_back(s[i])) }
pub open spec fn all_orgs_opt(s: Option<Vec<(u64, OrganizationRole)>>) -> Vec<account::Organization> { match s { Some(v) => vec_of(all_orgs(v@)), None => no_items() } }
pub open spec fn proj_code(r: ProjectRole) -> i32 { match r { ProjectRole::Owner => 1i32, ProjectRole::Admin => 2i32, ProjectRole::Member => 3i32, ProjectRole::Reader => 4i32 } }
pub open spec fn proj_of(c: i32) -> ProjectRole { if c == 1 { ProjectRole::Owner } else if c == 2 { ProjectRole::Admin } else if c == 3 { ProjectRole::Member } else { ProjectRole::Reader } }
pub open spec fn proj_el(p: (u64, ProjectRole)) -> account::Project { account::Project { id: p.0, role: proj_code(p.1) } }
pub open spec fn all_projs(s: Seq<(u64, ProjectRole)>) -> Seq<account::Project> { Seq::new(s.len(), |i: int| proj_el(s[i])) }
pub open spec fn proj_back(p: account::Project) -> (u64, ProjectRole) { (p.id, proj_of(p.role)) }
pub open spec fn all_projs_back(s: Seq<account::Project>) -> Seq<(u64, ProjectRole)> { Seq::new(s.len(), |i: int| proj_back(s[i])) }
pub open spec fn all_projs_opt(s: Option<Vec<(u64, ProjectRole)>>) -> Vec<account::Project> { match s { Some(v) => vec_of(all_projs(v@)), None => no_items() } }
pub open spec fn team_code(r: Role) -> i32 { match r { Role::Admin => 1i32 } }
pub open spec fn team_of(c: i32) -> Role { { Role::Admin } }
pub open spec fn team_el(p: (u64, Role)) -> account::Team { account::Team { id: p.0, role: team_code(p.1) } }
pub open spec fn all_teams(s: Seq<(u64, Role)>) -> Seq<account::Team> { Seq::new(s.len(), |i: int| team_el(s[i])) }
pub open spec fn team_back(p: account::Team) -> (u64, Role) { (p.id, team_of(p.role)) }
pub open spec fn all_teams_back(s: Seq<account::Team>) -> Seq<(u64, Role)> { Seq::new(s.len(), |i: int| team_back(s[i])) }
pub open spec fn all_teams_opt(s: Option<Vec<(u64, Role)>>) -> Vec<account::Team> { match s { Some(v) => vec_of(all_teams(v@)), None => no_items() } }
pub open spec fn to_pb(r: Account) -> account::Account { account::Account { id: r.id, created_at: r.created_at.t, created_by: r.created_by, updated_at: s_secs(r.updated_at), updated_by: r.updated_by, password_hash: r.password_hash, email: r.email, name: r.name, role: match r.role { Some(x) => Some(team_code(x)), None => None }, force_update_password: r.force_update_password, force_update_email: r.force_update_email, organizations: all_orgs_opt(r.organizations), projects: all_projs_opt(r.projects), teams: all_teams_opt(r.teams) } }
impl Ent for Account {
    open spec fn enc(self) -> Seq<u8> { pb(to_pb(self)) }
    open spec fn eid(self) -> u64 { self.id }
    open spec fn ekeys(self, ns: Seq<u8>) -> Seq<Option<Seq<u8>>> { seq![Some(k_index(ns, asc("email"@), utf8(self.email@)))] }
    open spec fn back(self) -> Account { let r = self; Account { created_at: Instant { t: r.created_at.t, n: 0 }, updated_at: s_at(s_secs(r.updated_at)), organizations: if r.organizations is Some && r.organizations->0@.len() == 0 { None } else { r.organizations }, projects: if r.projects is Some && r.projects->0@.len() == 0 { None } else { r.projects }, teams: if r.teams is Some && r.teams->0@.len() == 0 { None } else { r.teams }, ..r } }
    proof fn back_ok(a: Account) {  }
    proof fn enc_ok(a: Account, b: Account, ns: Seq<u8>) { assert(unpb::<account::Account>(a.enc()) == Some(to_pb(a))); assert(to_pb(a) == to_pb(b)); }
    proof fn keys_ok(a: Account, ns: Seq<u8>) { assert(k_index(ns, asc("email"@), utf8(a.email@)).take((ns + asc("/idx/"@)).len() as int) =~= ns + asc("/idx/"@)); }
}
// reaching this panics: shown unreachable for every value the provider wrote
#[verifier::external_body] fn corrupt<T>(data: &[u8]) -> (r: T) requires forall|x: Account| data@ != #[trigger] x.enc() ensures false { unimplemented!() }
//@fn src/metadata/src/accounts.rs index_email_key | ret=r block
//@contract
    ensures key_of(r) == Some(k_index(base(), asc("email"@), utf8(email@))), r is Some,
//@end
//@fn src/metadata/src/accounts.rs index_keys | ret=r block
//@contract
    ensures ks(r@) =~= seq![Some(k_index(base(), asc("email"@), utf8(email@)))],
//@end
impl CreateAccountRequest {
//@fn src/metadata/src/accounts.rs CreateAccountRequest::into_account | ret=r block
//@contract
    ensures r.id == id && r.created_at == created_at && accmade(r, self),
//@end
}
//@fn src/metadata/src/accounts.rs serialize | ret=r2 block
//@contract
    ensures r2 is Ok ==> r2->Ok_0@ == (*acc).enc(), r2 is Err ==> r2->Err_0 is Bincode,
//@rule orgs . iter ( ) . map ( | ( id , role ) | $$e ) . collect :: < Vec < _ > > ( ) =>> { let mut out_ = Vec::new(); let mut k_: usize = 0; while k_ < orgs.len() invariant k_ <= orgs@.len(), out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == org_el(orgs@[i]) decreases orgs@.len() - k_ { let id = &orgs[k_].0; let role = &orgs[k_].1; let e_ = $e; out_.push(e_); k_ += 1; } proof { assert(out_@ =~= all_orgs(orgs@)); } out_ }
//@rule proj . iter ( ) . map ( | ( id , role ) | $$e ) . collect :: < Vec < _ > > ( ) =>> { let mut out_ = Vec::new(); let mut k_: usize = 0; while k_ < proj.len() invariant k_ <= proj@.len(), out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == proj_el(proj@[i]) decreases proj@.len() - k_ { let id = &proj[k_].0; let role = &proj[k_].1; let e_ = $e; out_.push(e_); k_ += 1; } proof { assert(out_@ =~= all_projs(proj@)); } out_ }
//@rule teams . iter ( ) . map ( | ( id , role ) | $$e ) . collect :: < Vec < _ > > ( ) =>> { let mut out_ = Vec::new(); let mut k_: usize = 0; while k_ < teams.len() invariant k_ <= teams@.len(), out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == team_el(teams@[i]) decreases teams@.len() - k_ { let id = &teams[k_].0; let role = &teams[k_].1; let e_ = $e; out_.push(e_); k_ += 1; } proof { assert(out_@ =~= all_teams(teams@)); } out_ }
//@start
    let ghost a0 = *acc;
//@before Ok ( acc . encode_to_vec ( ) )
    proof { assert(acc == to_pb(a0)); }
//@end
//@fn src/metadata/src/accounts.rs deserialize | ret=r2 block
//@contract
    ensures r2 is Ok ==> unpb::<account::Account>(data@) is Some, r2 is Ok ==> is_read(data@, r2->Ok_0), (exists|x: Account| data@ == #[trigger] x.enc()) ==> r2 is Err ==> r2->Err_0 is Bincode, r2 is Err ==> !(r2->Err_0 is NotFound),
//@rule from . organizations . iter ( ) . map ( | org | $$e ) . collect :: < Vec < _ > > ( ) =>> { let mut out_ = Vec::new(); let mut k_: usize = 0; while k_ < from.organizations.len() invariant k_ <= from.organizations@.len(), out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == org_back(from.organizations@[i]) decreases from.organizations@.len() - k_ { let org = &from.organizations[k_]; let e_ = $e; out_.push(e_); k_ += 1; } proof { assert(out_@ =~= all_orgs_back(from.organizations@)); } out_ }
//@rule from . projects . iter ( ) . map ( | proj | $$e ) . collect :: < Vec < _ > > ( ) =>> { let mut out_ = Vec::new(); let mut k_: usize = 0; while k_ < from.projects.len() invariant k_ <= from.projects@.len(), out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == proj_back(from.projects@[i]) decreases from.projects@.len() - k_ { let proj = &from.projects[k_]; let e_ = $e; out_.push(e_); k_ += 1; } proof { assert(out_@ =~= all_projs_back(from.projects@)); } out_ }
//@rule from . teams . iter ( ) . map ( | team | $$e ) . collect :: < Vec < _ > > ( ) =>> { let mut out_ = Vec::new(); let mut k_: usize = 0; while k_ < from.teams.len() invariant k_ <= from.teams@.len(), out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == team_back(from.teams@[i]) decreases from.teams@.len() - k_ { let team = &from.teams[k_]; let e_ = $e; out_.push(e_); k_ += 1; } proof { assert(out_@ =~= all_teams_back(from.teams@)); } out_ }
//@before Ok ( to )
    proof { assert forall|x: Account| data@ == #[trigger] x.enc() implies to == x.back() by {
        assert(from == to_pb(x)); let b = x.back();
        if x.organizations is Some { assert(from.organizations@ == all_orgs(x.organizations->0@)); assert(all_orgs_back(all_orgs(x.organizations->0@)) =~= x.organizations->0@); }
        if x.projects is Some { assert(from.projects@ == all_projs(x.projects->0@)); assert(all_projs_back(all_projs(x.projects->0@)) =~= x.projects->0@); }
        if x.teams is Some { assert(from.teams@ == all_teams(x.teams->0@)); assert(all_teams_back(all_teams(x.teams->0@)) =~= x.teams->0@); }
        assert(to.organizations == b.organizations); assert(to.projects == b.projects); assert(to.teams == b.teams); assert(to.role == b.role);
    } }
//@end
pub open spec fn made(r: Account, q: CreateAccountRequest) -> bool { accmade(r, q) }
pub open spec fn changed(w: Account, r: Account, q: UpdateAccountRequest) -> bool { r.updated_at is Some && r.updated_by == Some(q.updated_by) && r.id == w.id && r.created_at == w.created_at && r.created_by == w.created_by && set(q.password_hash, w.password_hash, r.password_hash) && set(q.email, w.email, r.email) && set(q.name, w.name, r.name) && set(q.force_update_password, w.force_update_password, r.force_update_password) && set(q.force_update_email, w.force_update_email, r.force_update_email) && set(q.role, w.role, r.role) && set(q.organizations, w.organizations, r.organizations) && set(q.projects, w.projects, r.projects) && set(q.teams, w.teams, r.teams) }
impl Accounts {
//@fn src/metadata/src/accounts.rs Accounts::get_by_id_ | ret=r block
//@contract
    ensures final(tx)@ == old(tx)@, r is Ok ==> holds(old(tx)@, base(), id, r->Ok_0), r is Err && r->Err_0 is NotFound ==> !old(tx)@.dom().contains(k_data(base(), id)), inv::<Account>(old(tx)@, base()) && r is Err && !(r->Err_0 is NotFound) ==> infra(r->Err_0),
//@end
//@fn src/metadata/src/accounts.rs Accounts::get_by_id | ret=r block
//@contract
    ensures r is Ok ==> holds(self.db@, base(), id, r->Ok_0), r is Err && r->Err_0 is NotFound ==> !self.db@.dom().contains(k_data(base(), id)), inv::<Account>(self.db@, base()) && r is Err && !(r->Err_0 is NotFound) ==> infra(r->Err_0),
//@end
//@fn src/metadata/src/accounts.rs Accounts::create | ret=r mut_self block
//@contract
    requires inv::<Account>(old(self).db@, base()), seq_ok(old(self).db@, k_seq(base())),
    ensures r is Ok ==> made(r->Ok_0, req) && r->Ok_0.id == counter(old(self).db@, k_seq(base()), 1) && step(old(self).db@, final(self).db@, base(), r->Ok_0.id, None, Some(r->Ok_0)) && may(old(self).db@, base(), r->Ok_0.id, None, Some(r->Ok_0)) && inv::<Account>(final(self).db@, base()),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is AlreadyExists && (old(self).db@.dom().contains(k_index(base(), asc("email"@), utf8(req.email@)))),
//@before check_insert_constraints
    proof { lemma_some_at(ks(idx_keys@)); }
//@before tx . commit
    proof { lemma_keyseq(account, base(), ks(idx_keys@)); lemma_created(old(self).db@, base(), account.id, account); assert(tx@ == created(old(self).db@, base(), account.id, account)); }
//@end
//@fn src/metadata/src/accounts.rs Accounts::update | ret=r mut_self block
//@contract
    requires inv::<Account>(old(self).db@, base()), 
    ensures r is Ok ==> exists|w: Account| #[trigger] rec(old(self).db@, base(), account_id, w) && changed(w.back(), r->Ok_0, req) && step(old(self).db@, final(self).db@, base(), account_id, Some(w), Some(r->Ok_0)) && may(old(self).db@, base(), account_id, Some(w), Some(r->Ok_0)), r is Ok ==> inv::<Account>(final(self).db@, base()),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(), account_id)) || r->Err_0 is AlreadyExists && (req.email is Some && old(self).db@.dom().contains(k_index(base(), asc("email"@), utf8(req.email->Some_0@)))),
//@before tx . commit
    proof { let w = choose|w: Account| #[trigger] rec(old(self).db@, base(), account_id, w); assert(rec(old(self).db@, base(), account_id, w));
        let a = ks(idx_keys@); let p = ks(idx_prev_keys@); let ns = base(); Account::keys_ok(w, ns); Account::keys_ok(account, ns);
        if (req.email is Some) { assert(a =~= seq![account.ekeys(ns)[0]]); assert(p =~= seq![w.ekeys(ns)[0]]); let t: Seq<int> = seq![0int]; assert(t[0] == 0);  lemma_among(w, account, ns, a, p, t); }
        if !(req.email is Some) { assert(a =~= seq![]); assert(p =~= seq![]); let t: Seq<int> = seq![];   lemma_among(w, account, ns, a, p, t); }
        lemma_updated(old(self).db@, ns, account_id, w, account, a, p); assert(tx@ == updated(old(self).db@, ns, account_id, account, a, p)); }
//@end
//@fn src/metadata/src/accounts.rs Accounts::delete | ret=r mut_self block
//@contract
    requires inv::<Account>(old(self).db@, base()),
    ensures r is Ok ==> holds(old(self).db@, base(), id, r->Ok_0), r is Ok ==> exists|w: Account| #[trigger] rec(old(self).db@, base(), id, w) && step(old(self).db@, final(self).db@, base(), id, Some(w), None), r is Ok ==> inv::<Account>(final(self).db@, base()),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(), id)),
//@before tx . commit
    proof { let w = choose|w: Account| #[trigger] rec(old(self).db@, base(), id, w); assert(rec(old(self).db@, base(), id, w)); lemma_deleted(old(self).db@, base(), id, w);
        assert(account == w.back()); assert(account.ekeys(base()) =~= w.ekeys(base())); lemma_somes(w.ekeys(base())); assert(tx@ == deleted(old(self).db@, base(), id, w)); }
//@end
//@fn src/metadata/src/accounts.rs Accounts::list | ret=r block
//@contract
    requires inv::<Account>(self.db@, base()),
    ensures r is Ok ==> listed(self.db@, base(), r->Ok_0.data@), r is Err ==> infra(r->Err_0),
//@loop 0 iter=it
    invariant scanned(it.seq(), tx@, k_all(base())), tx@ == self.db@, prefix@ == k_all(base()), it.index@ <= it.seq().len(),
        forall|i: int| 0 <= i < list@.len() ==> is_read(scan(tx@, prefix@)[i].1, #[trigger] list@[i]),
        !brk_0 ==> list@.len() == it.index@,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]) is Ok,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> starts(#[trigger] scan(tx@, prefix@)[i].0, prefix@),
        brk_0 ==> list@.len() == hits(tx@, prefix@),
//@loopstart 0
    proof { axiom_scan(tx@, prefix@); assert(kv == it.seq()[it.index@ as int]); }
//@before if ! from_utf8
    proof { let i = it.index@ as int; assert(it.seq()[i] is Ok); assert(it.seq()[i]->Ok_0 == (key, value)); assert(key@ == scan(tx@, prefix@)[i].0); assert(i > 0 ==> starts(scan(tx@, prefix@)[i - 1].0, prefix@));
        if starts(key@, prefix@) { assert(self.db@.dom().contains(key@)); let id = choose|id: u64| key@ == #[trigger] k_data(base(), id); let e = choose|e: Account| #[trigger] rec(self.db@, base(), id, e); assert(rec(self.db@, base(), id, e)); assert(value@ == e.enc()); } }
//@before ListResponse
    proof { axiom_scan(tx@, prefix@); let n = scan(tx@, prefix@).len() as int; assert(!brk_0 && n > 0 ==> starts(scan(tx@, prefix@)[n - 1].0, prefix@)); lemma_listed(self.db@, base(), list@); }
//@end
//@fn src/metadata/src/accounts.rs Accounts::get_by_email | ret=r block
//@contract
    requires inv::<Account>(self.db@, base()),
    ensures r is Ok ==> exists|id: u64| #[trigger] holds(self.db@, base(), id, r->Ok_0) && has_key(r->Ok_0, base(), k_index(NS(), asc("email"@), utf8(email@))), r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !self.db@.dom().contains(k_index(NS(), asc("email"@), utf8(email@))),
//@start
    proof { lemma_is_idx(base(), asc("email"@), utf8(email@)); }
//@before self . get_by_id_
    proof { let k = k_index(NS(), asc("email"@), utf8(email@)); let e = choose|e: Account| #[trigger] rec(self.db@, base(), id, e) && has_key(e, base(), k); assert(rec(self.db@, base(), id, e)); assert(e.back().ekeys(base()) =~= e.ekeys(base())); }
//@end
//@fn src/metadata/src/accounts.rs Accounts::add_organization_ | ret=r vis=keep block
//@rule account . organizations . get_or_insert ( Vec :: new ( ) ) =>> get_or_insert(&mut account.organizations)
//@rule orgs . iter ( ) . any ( | ( id , _ ) | * id == org_id ) =>> any_id(orgs, org_id)
//@contract
    requires inv::<Account>(old(tx)@, base()),
    ensures r is Ok ==> exists|w: Account, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(old(tx)@, base(), member_id, w) && !has_id(s_or_empty(w.back().organizations)@, org_id) && o@ == s_or_empty(w.back().organizations)@.push((org_id, role)) && final(tx)@ == old(tx)@.insert(k_data(base(), member_id), (#[trigger] with_orgs(w.back(), o)).enc()), r is Ok ==> inv::<Account>(final(tx)@, base()),
        r is Err ==> infra(r->Err_0) || r->Err_0 is AlreadyExists && (exists|w: Account| #[trigger] rec(old(tx)@, base(), member_id, w) && has_id(s_or_empty(w.back().organizations)@, org_id)) || r->Err_0 is NotFound && !old(tx)@.dom().contains(k_data(base(), member_id)),
//@before tx . put
    proof {  let w = choose|w: Account| #[trigger] rec(old(tx)@, base(), member_id, w); assert(rec(old(tx)@, base(), member_id, w)); let o = account.organizations->0; assert(account == with_orgs(w.back(), o)); assert(account.ekeys(base()) =~= w.ekeys(base())); lemma_updated(old(tx)@, base(), member_id, w, account, seq![], seq![]); assert(!has_id(s_or_empty(w.back().organizations)@, org_id) && o@ == s_or_empty(w.back().organizations)@.push((org_id, role))); }
//@end
//@fn src/metadata/src/accounts.rs Accounts::remove_organization_ | ret=r vis=keep block
//@rule account . organizations . get_or_insert ( Vec :: new ( ) ) =>> get_or_insert(&mut account.organizations)
//@rule orgs . iter ( ) . all ( | ( id , _ ) | * id != org_id ) =>> !any_id(orgs, org_id)
//@rule orgs . retain ( | ( id , _ ) | * id != org_id ) =>> retain_other(orgs, org_id)
//@contract
    requires inv::<Account>(old(tx)@, base()),
    ensures r is Ok ==> exists|w: Account, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(old(tx)@, base(), member_id, w) && has_id(s_or_empty(w.back().organizations)@, org_id) && o@ == drop_id(s_or_empty(w.back().organizations)@, org_id) && final(tx)@ == old(tx)@.insert(k_data(base(), member_id), (#[trigger] with_orgs(w.back(), o)).enc()), r is Ok ==> inv::<Account>(final(tx)@, base()),
        r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && (exists|w: Account| #[trigger] rec(old(tx)@, base(), member_id, w) && !has_id(s_or_empty(w.back().organizations)@, org_id)) || r->Err_0 is NotFound && !old(tx)@.dom().contains(k_data(base(), member_id)),
//@before tx . put
    proof {  let w = choose|w: Account| #[trigger] rec(old(tx)@, base(), member_id, w); assert(rec(old(tx)@, base(), member_id, w)); let o = account.organizations->0; assert(account == with_orgs(w.back(), o)); assert(account.ekeys(base()) =~= w.ekeys(base())); lemma_updated(old(tx)@, base(), member_id, w, account, seq![], seq![]); assert(has_id(s_or_empty(w.back().organizations)@, org_id) && o@ == drop_id(s_or_empty(w.back().organizations)@, org_id)); }
//@end
//@fn src/metadata/src/accounts.rs Accounts::change_organization_role_ | loops=1 ret=r vis=keep block
//@rule account . organizations . get_or_insert ( Vec :: new ( ) ) =>> get_or_insert(&mut account.organizations)
//@rule for ( id , r ) in orgs . iter_mut ( ) { if * id == org_id { * r = role ; $$b } } =>> if set_first(orgs, org_id, role) { $b }
//@contract
    requires inv::<Account>(old(tx)@, base()),
    ensures r is Ok ==> exists|w: Account, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(old(tx)@, base(), member_id, w) && first_set(s_or_empty(w.back().organizations)@, o@, org_id, role) && final(tx)@ == old(tx)@.insert(k_data(base(), member_id), (#[trigger] with_orgs(w.back(), o)).enc()), r is Ok ==> inv::<Account>(final(tx)@, base()),
        r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && (exists|w: Account| #[trigger] rec(old(tx)@, base(), member_id, w) && !has_id(s_or_empty(w.back().organizations)@, org_id)) || r->Err_0 is NotFound && !old(tx)@.dom().contains(k_data(base(), member_id)),
//@before tx . put
    proof {  let w = choose|w: Account| #[trigger] rec(old(tx)@, base(), member_id, w); assert(rec(old(tx)@, base(), member_id, w)); let o = account.organizations->0; assert(account == with_orgs(w.back(), o)); assert(account.ekeys(base()) =~= w.ekeys(base())); lemma_updated(old(tx)@, base(), member_id, w, account, seq![], seq![]); assert(first_set(s_or_empty(w.back().organizations)@, o@, org_id, role)); }
//@end
}
}
}
//@helpers
fn main() {}
