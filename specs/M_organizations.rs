//@rule unreachable ! ( ) =>> corrupt(data)
//@rule panic ! ( $$x ) =>> corrupt(data)
//@include base.rs
use vstd::prelude::*;
use std::fmt::Debug;
verus! {
global size_of usize == 8;
//@include metaerr.rs
//@include store.rs
//@include keys.rs
//@include stdspec.rs
//@include index.rs
//@include keylemmas.rs
//@include provider.rs
//@include uniq.rs
//@rule where T : Debug =>>
pub open spec fn set<T>(o: OptionalProperty<T>, was: T, is: T) -> bool { match o { OptionalProperty::Some(v) => is == v, OptionalProperty::None => is == was } }
//@item src/common/src/types.rs OptionalProperty | vis=keep
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
pub mod rbac { use super::*; 
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
}
pub use rbac::*;
pub mod accounts { use super::*; broadcast use crate::all;
//@rule account :: Account :: decode =>> decode::<account::Account>
pub mod account { use super::*;
//@item pb:account.rs Account | vis=keep
//@item pb:account.rs Organization | vis=keep
//@item pb:account.rs Project | vis=keep
//@item pb:account.rs Team | vis=keep
//@item pb:account.rs OrganizationRole | consts=OrganizationRole
//@item pb:account.rs ProjectRole | consts=ProjectRole
//@item pb:account.rs Role | consts=Role
}
//@item src/metadata/src/accounts.rs Account | vis=keep std="clone"
//@item src/metadata/src/accounts.rs CreateAccountRequest | vis=keep
//@item src/metadata/src/accounts.rs UpdateAccountRequest | vis=keep
//@item src/metadata/src/accounts.rs Accounts | vis=keep
//@static src/metadata/src/accounts.rs NAMESPACE | block
//@contract
    ensures r@ == NS(),
//@end
pub open spec fn NS() -> Seq<u8> { asc("accounts"@) }
//@rule IDX_EMAIL =>> IDX_EMAIL()
//@static src/metadata/src/accounts.rs IDX_EMAIL | block
//@contract
    ensures r@ == asc("email"@),
//@end
pub open spec fn base() -> Seq<u8> { NS() }
pub open spec fn with_orgs(a: Account, o: Vec<(u64, OrganizationRole)>) -> Account { Account { organizations: Some(o), ..a } }
pub open spec fn accmade(r: Account, q: CreateAccountRequest) -> bool { r.updated_at is None && r.updated_by is None && r.created_by == q.created_by && r.password_hash == q.password_hash && r.email == q.email && r.name == q.name && r.force_update_password == q.force_update_password && r.force_update_email == q.force_update_email && r.role == q.role && r.organizations == q.organizations && r.projects == q.projects && r.teams == q.teams }
pub open spec fn org_code(r: OrganizationRole) -> i32 { match r { OrganizationRole::Owner => 1i32, OrganizationRole::Admin => 2i32, OrganizationRole::Member => 3i32 } }
pub open spec fn org_of(c: i32) -> OrganizationRole { if c == 1 { OrganizationRole::Owner } else if c == 2 { OrganizationRole::Admin } else { OrganizationRole::Member } }
pub open spec fn org_el(p: (u64, OrganizationRole)) -> account::Organization { account::Organization { id: p.0, role: org_code(p.1) } }
pub open spec fn all_orgs(s: Seq<(u64, OrganizationRole)>) -> Seq<account::Organization> { Seq::new(s.len(), |i: int| org_el(s[i])) }
pub open spec fn org_back(p: account::Organization) -> (u64, OrganizationRole) { (p.id, org_of(p.role)) }
pub open spec fn all_orgs_back(s: Seq<account::Organization>) -> Seq<(u64, OrganizationRole)> { Seq::new(s.len(), |i: int| org_back(s[i])) }
pub open spec fn all_orgs_opt(s: Option<Vec<(u64, OrganizationRole)>>) -> Vec<account::Organization> { match s { Some(v) => vec_of(all_orgs(v@)), None => no_items() } }
pub open spec fn proj_code(r: ProjectRole) -> i32 { match r { ProjectRole::Owner => 1i32, ProjectRole::Admin => 2i32, ProjectRole::Member => 3i32, ProjectRole::Reader => 4i32 } }
pub open spec fn proj_of(c: i32) -> ProjectRole { if c == 1 { ProjectRole::Owner } else if c == 2 { ProjectRole::Admin } else if c == 3 { ProjectRole::Member } else { ProjectRole::Reader } }
pub open spec fn proj_el(p: (u64, ProjectRole)) -> account::Project { account::Project { id: p.0, role: proj_code(p.1) } }
pub open spec fn all_projs(s: Seq<(u64, ProjectRole)>) -> Seq<account::Project> { Seq::new(s.len(), |i: int| proj_el(s[i])) }
pub open spec fn proj_back(p: account::Project) -> (u64, ProjectRole) { (p.id, proj_of(p.role)) }
pub open spec fn all_projs_back(s: Seq<account::Project>) -> Seq<(u64, ProjectRole)> { Seq::new(s.len(), |i: int| proj_back(s[i])) }
pub open spec fn all_projs_opt(s: Option<Vec<(u64, ProjectRole)>>) -> Vec<account::Project> { match s { Some(v) => vec_of(all_projs(v@)), None => no_items() } }
pub open spec fn team_code(r: Role) -> i32 { match r { Role::Admin => 1i32 } }
pub open spec fn team_of(c: i32) -> Role { { Role::Admin } }
pub open spec fn team_el(p: (u64, Role)) -> account::Team { account::Team { id: p.0, role: team_code(p.1) } }
pub open spec fn all_teams(s: Seq<(u64, Role)>) -> Seq<account::Team> { Seq::new(s.len(), |i: int| team_el(s[i])) }
pub open spec fn team_back(p: account::Team) -> (u64, Role) { (p.id, team_of(p.role)) }
pub open spec fn all_teams_back(s: Seq<account::Team>) -> Seq<(u64, Role)> { Seq::new(s.len(), |i: int| team_back(s[i])) }
pub open spec fn all_teams_opt(s: Option<Vec<(u64, Role)>>) -> Vec<account::Team> { match s { Some(v) => vec_of(all_teams(v@)), None => no_items() } }
pub open spec fn to_pb(r: Account) -> account::Account { account::Account { id: r.id, created_at: r.created_at.t, created_by: r.created_by, updated_at: s_secs(r.updated_at), updated_by: r.updated_by, password_hash: r.password_hash, email: r.email, name: r.name, role: match r.role { Some(x) => Some(team_code(x)), None => None }, force_update_password: r.force_update_password, force_update_email: r.force_update_email, organizations: all_orgs_opt(r.organizations), projects: all_projs_opt(r.projects), teams: all_teams_opt(r.teams) } }
impl Ent for Account {
    open spec fn enc(self) -> Seq<u8> { pb(to_pb(self)) }
    open spec fn eid(self) -> u64 { self.id }
    open spec fn ekeys(self, ns: Seq<u8>) -> Seq<Option<Seq<u8>>> { seq![Some(k_index(ns, asc("email"@), utf8(self.email@)))] }
    open spec fn back(self) -> Account { let r = self; Account { created_at: Instant { t: r.created_at.t, n: 0 }, updated_at: s_at(s_secs(r.updated_at)), organizations: if r.organizations is Some && r.organizations->0@.len() == 0 { None } else { r.organizations }, projects: if r.projects is Some && r.projects->0@.len() == 0 { None } else { r.projects }, teams: if r.teams is Some && r.teams->0@.len() == 0 { None } else { r.teams }, ..r } }
    proof fn back_ok(a: Account) {  }
    proof fn enc_ok(a: Account, b: Account, ns: Seq<u8>) { assert(unpb::<account::Account>(a.enc()) == Some(to_pb(a))); assert(to_pb(a) == to_pb(b)); }
    proof fn keys_ok(a: Account, ns: Seq<u8>) { assert(k_index(ns, asc("email"@), utf8(a.email@)).take((ns + asc("/idx/"@)).len() as int) =~= ns + asc("/idx/"@)); }
}
// reaching this panics: shown unreachable for every value the provider wrote
#[verifier::external_body] fn corrupt<T>(data: &[u8]) -> (r: T) requires forall|x: Account| data@ != #[trigger] x.enc() ensures false { unimplemented!() }
//@fn src/metadata/src/accounts.rs index_email_key | ret=r block
//@contract
    ensures key_of(r) == Some(k_index(base(), asc("email"@), utf8(email@))), r is Some,
//@end
//@fn src/metadata/src/accounts.rs index_keys | ret=r block
//@contract
    ensures ks(r@) =~= seq![Some(k_index(base(), asc("email"@), utf8(email@)))],
//@end
impl CreateAccountRequest {
//@fn src/metadata/src/accounts.rs CreateAccountRequest::into_account | ret=r block
//@contract
    ensures r.id == id && r.created_at == created_at && accmade(r, self),
//@end
}
//@fn src/metadata/src/accounts.rs serialize | ret=r2 block
//@contract
    ensures r2 is Ok ==> r2->Ok_0@ == (*acc).enc(), r2 is Err ==> r2->Err_0 is Bincode,
//@rule orgs . iter ( ) . map ( | ( id , role ) | $$e ) . collect :: < Vec < _ > > ( ) =>> { let mut out_ = Vec::new(); let mut k_: usize = 0; while k_ < orgs.len() invariant k_ <= orgs@.len(), out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == org_el(orgs@[i]) decreases orgs@.len() - k_ { let id = &orgs[k_].0; let role = &orgs[k_].1; let e_ = $e; out_.push(e_); k_ += 1; } proof { assert(out_@ =~= all_orgs(orgs@)); } out_ }
//@rule proj . iter ( ) . map ( | ( id , role ) | $$e ) . collect :: < Vec < _ > > ( ) =>> { let mut out_ = Vec::new(); let mut k_: usize = 0; while k_ < proj.len() invariant k_ <= proj@.len(), out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == proj_el(proj@[i]) decreases proj@.len() - k_ { let id = &proj[k_].0; let role = &proj[k_].1; let e_ = $e; out_.push(e_); k_ += 1; } proof { assert(out_@ =~= all_projs(proj@)); } out_ }
//@rule teams . iter ( ) . map ( | ( id , role ) | $$e ) . collect :: < Vec < _ > > ( ) =>> { let mut out_ = Vec::new(); let mut k_: usize = 0; while k_ < teams.len() invariant k_ <= teams@.len(), out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == team_el(teams@[i]) decreases teams@.len() - k_ { let id = &teams[k_].0; let role = &teams[k_].1; let e_ = $e; out_.push(e_); k_ += 1; } proof { assert(out_@ =~= all_teams(teams@)); } out_ }
//@start
    let ghost a0 = *acc;
//@before Ok ( acc . encode_to_vec ( ) )
    proof { assert(acc == to_pb(a0)); }
//@end
//@fn src/metadata/src/accounts.rs deserialize | ret=r2 block
//@contract
    ensures r2 is Ok ==> unpb::<account::Account>(data@) is Some, r2 is Ok ==> is_read(data@, r2->Ok_0), (exists|x: Account| data@ == #[trigger] x.enc()) ==> r2 is Err ==> r2->Err_0 is Bincode, r2 is Err ==> !(r2->Err_0 is NotFound),
//@rule from . organizations . iter ( ) . map ( | org | $$e ) . collect :: < Vec < _ > > ( ) =>> { let mut out_ = Vec::new(); let mut k_: usize = 0; while k_ < from.organizations.len() invariant k_ <= from.organizations@.len(), out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == org_back(from.organizations@[i]) decreases from.organizations@.len() - k_ { let org = &from.organizations[k_]; let e_ = $e; out_.push(e_); k_ += 1; } proof { assert(out_@ =~= all_orgs_back(from.organizations@)); } out_ }
//@rule from . projects . iter ( ) . map ( | proj | $$e ) . collect :: < Vec < _ > > ( ) =>> { let mut out_ = Vec::new(); let mut k_: usize = 0; while k_ < from.projects.len() invariant k_ <= from.projects@.len(), out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == proj_back(from.projects@[i]) decreases from.projects@.len() - k_ { let proj = &from.projects[k_]; let e_ = $e; out_.push(e_); k_ += 1; } proof { assert(out_@ =~= all_projs_back(from.projects@)); } out_ }
//@rule from . teams . iter ( ) . map ( | team | $$e ) . collect :: < Vec < _ > > ( ) =>> { let mut out_ = Vec::new(); let mut k_: usize = 0; while k_ < from.teams.len() invariant k_ <= from.teams@.len(), out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == team_back(from.teams@[i]) decreases from.teams@.len() - k_ { let team = &from.teams[k_]; let e_ = $e; out_.push(e_); k_ += 1; } proof { assert(out_@ =~= all_teams_back(from.teams@)); } out_ }
//@before Ok ( to )
    proof { assert forall|x: Account| data@ == #[trigger] x.enc() implies to == x.back() by {
        assert(from == to_pb(x)); let b = x.back();
        if x.organizations is Some { assert(from.organizations@ == all_orgs(x.organizations->0@)); assert(all_orgs_back(all_orgs(x.organizations->0@)) =~= x.organizations->0@); }
        if x.projects is Some { assert(from.projects@ == all_projs(x.projects->0@)); assert(all_projs_back(all_projs(x.projects->0@)) =~= x.projects->0@); }
        if x.teams is Some { assert(from.teams@ == all_teams(x.teams->0@)); assert(all_teams_back(all_teams(x.teams->0@)) =~= x.teams->0@); }
        assert(to.organizations == b.organizations); assert(to.projects == b.projects); assert(to.teams == b.teams); assert(to.role == b.role);
    } }
//@end
pub open spec fn made(r: Account, q: CreateAccountRequest) -> bool { accmade(r, q) }
pub open spec fn changed(w: Account, r: Account, q: UpdateAccountRequest) -> bool { r.updated_at is Some && r.updated_by == Some(q.updated_by) && r.id == w.id && r.created_at == w.created_at && r.created_by == w.created_by && set(q.password_hash, w.password_hash, r.password_hash) && set(q.email, w.email, r.email) && set(q.name, w.name, r.name) && set(q.force_update_password, w.force_update_password, r.force_update_password) && set(q.force_update_email, w.force_update_email, r.force_update_email) && set(q.role, w.role, r.role) && set(q.organizations, w.organizations, r.organizations) && set(q.projects, w.projects, r.projects) && set(q.teams, w.teams, r.teams) }
impl Accounts {
//@fn src/metadata/src/accounts.rs Accounts::get_by_id_ | ret=r block
//@contract
    ensures final(tx)@ == old(tx)@, r is Ok ==> holds(old(tx)@, base(), id, r->Ok_0), r is Err && r->Err_0 is NotFound ==> !old(tx)@.dom().contains(k_data(base(), id)), inv::<Account>(old(tx)@, base()) && r is Err && !(r->Err_0 is NotFound) ==> infra(r->Err_0),
//@end
//@fn src/metadata/src/accounts.rs Accounts::get_by_id | ret=r block
//@contract
    ensures r is Ok ==> holds(self.db@, base(), id, r->Ok_0), r is Err && r->Err_0 is NotFound ==> !self.db@.dom().contains(k_data(base(), id)), inv::<Account>(self.db@, base()) && r is Err && !(r->Err_0 is NotFound) ==> infra(r->Err_0),
//@end
//@fn src/metadata/src/accounts.rs Accounts::create | ret=r mut_self block
//@contract
    requires inv::<Account>(old(self).db@, base()), seq_ok(old(self).db@, k_seq(base())),
    ensures r is Ok ==> made(r->Ok_0, req) && r->Ok_0.id == counter(old(self).db@, k_seq(base()), 1) && step(old(self).db@, final(self).db@, base(), r->Ok_0.id, None, Some(r->Ok_0)) && may(old(self).db@, base(), r->Ok_0.id, None, Some(r->Ok_0)) && inv::<Account>(final(self).db@, base()),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is AlreadyExists && (old(self).db@.dom().contains(k_index(base(), asc("email"@), utf8(req.email@)))),
//@before check_insert_constraints
    proof { lemma_some_at(ks(idx_keys@)); }
//@before tx . commit
    proof { lemma_keyseq(account, base(), ks(idx_keys@)); lemma_created(old(self).db@, base(), account.id, account); assert(tx@ == created(old(self).db@, base(), account.id, account)); }
//@end
//@fn src/metadata/src/accounts.rs Accounts::update | ret=r mut_self block
//@contract
    requires inv::<Account>(old(self).db@, base()), 
    ensures r is Ok ==> exists|w: Account| #[trigger] rec(old(self).db@, base(), account_id, w) && changed(w.back(), r->Ok_0, req) && step(old(self).db@, final(self).db@, base(), account_id, Some(w), Some(r->Ok_0)) && may(old(self).db@, base(), account_id, Some(w), Some(r->Ok_0)), r is Ok ==> inv::<Account>(final(self).db@, base()),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(), account_id)) || r->Err_0 is AlreadyExists && (req.email is Some && old(self).db@.dom().contains(k_index(base(), asc("email"@), utf8(req.email->Some_0@)))),
//@before tx . commit
    proof { let w = choose|w: Account| #[trigger] rec(old(self).db@, base(), account_id, w); assert(rec(old(self).db@, base(), account_id, w));
        let a = ks(idx_keys@); let p = ks(idx_prev_keys@); let ns = base(); Account::keys_ok(w, ns); Account::keys_ok(account, ns);
        if (req.email is Some) { assert(a =~= seq![account.ekeys(ns)[0]]); assert(p =~= seq![w.ekeys(ns)[0]]); let t: Seq<int> = seq![0int]; assert(t[0] == 0);  lemma_among(w, account, ns, a, p, t); }
        if !(req.email is Some) { assert(a =~= seq![]); assert(p =~= seq![]); let t: Seq<int> = seq![];   lemma_among(w, account, ns, a, p, t); }
        lemma_updated(old(self).db@, ns, account_id, w, account, a, p); assert(tx@ == updated(old(self).db@, ns, account_id, account, a, p)); }
//@end
//@fn src/metadata/src/accounts.rs Accounts::delete | ret=r mut_self block
//@contract
    requires inv::<Account>(old(self).db@, base()),
    ensures r is Ok ==> holds(old(self).db@, base(), id, r->Ok_0), r is Ok ==> exists|w: Account| #[trigger] rec(old(self).db@, base(), id, w) && step(old(self).db@, final(self).db@, base(), id, Some(w), None), r is Ok ==> inv::<Account>(final(self).db@, base()),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(), id)),
//@before tx . commit
    proof { let w = choose|w: Account| #[trigger] rec(old(self).db@, base(), id, w); assert(rec(old(self).db@, base(), id, w)); lemma_deleted(old(self).db@, base(), id, w);
        assert(account == w.back()); assert(account.ekeys(base()) =~= w.ekeys(base())); lemma_somes(w.ekeys(base())); assert(tx@ == deleted(old(self).db@, base(), id, w)); }
//@end
//@fn src/metadata/src/accounts.rs Accounts::list | ret=r block
//@contract
    requires inv::<Account>(self.db@, base()),
    ensures r is Ok ==> listed(self.db@, base(), r->Ok_0.data@), r is Err ==> infra(r->Err_0),
//@loop 0 iter=it
    invariant scanned(it.seq(), tx@, k_all(base())), tx@ == self.db@, prefix@ == k_all(base()), it.index@ <= it.seq().len(),
        forall|i: int| 0 <= i < list@.len() ==> is_read(scan(tx@, prefix@)[i].1, #[trigger] list@[i]),
        !brk_0 ==> list@.len() == it.index@,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]) is Ok,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> starts(#[trigger] scan(tx@, prefix@)[i].0, prefix@),
        brk_0 ==> list@.len() == hits(tx@, prefix@),
//@loopstart 0
    proof { axiom_scan(tx@, prefix@); assert(kv == it.seq()[it.index@ as int]); }
//@before if ! from_utf8
    proof { let i = it.index@ as int; assert(it.seq()[i] is Ok); assert(it.seq()[i]->Ok_0 == (key, value)); assert(key@ == scan(tx@, prefix@)[i].0); assert(i > 0 ==> starts(scan(tx@, prefix@)[i - 1].0, prefix@));
        if starts(key@, prefix@) { assert(self.db@.dom().contains(key@)); let id = choose|id: u64| key@ == #[trigger] k_data(base(), id); let e = choose|e: Account| #[trigger] rec(self.db@, base(), id, e); assert(rec(self.db@, base(), id, e)); assert(value@ == e.enc()); } }
//@before ListResponse
    proof { axiom_scan(tx@, prefix@); let n = scan(tx@, prefix@).len() as int; assert(!brk_0 && n > 0 ==> starts(scan(tx@, prefix@)[n - 1].0, prefix@)); lemma_listed(self.db@, base(), list@); }
//@end
//@fn src/metadata/src/accounts.rs Accounts::get_by_email | ret=r block
//@contract
    requires inv::<Account>(self.db@, base()),
    ensures r is Ok ==> exists|id: u64| #[trigger] holds(self.db@, base(), id, r->Ok_0) && has_key(r->Ok_0, base(), k_index(NS(), asc("email"@), utf8(email@))), r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !self.db@.dom().contains(k_index(NS(), asc("email"@), utf8(email@))),
//@start
    proof { lemma_is_idx(base(), asc("email"@), utf8(email@)); }
//@before self . get_by_id_
    proof { let k = k_index(NS(), asc("email"@), utf8(email@)); let e = choose|e: Account| #[trigger] rec(self.db@, base(), id, e) && has_key(e, base(), k); assert(rec(self.db@, base(), id, e)); assert(e.back().ekeys(base()) =~= e.ekeys(base())); }
//@end
//@fn src/metadata/src/accounts.rs Accounts::add_organization_ | ret=r vis=keep block
//@rule account . organizations . get_or_insert ( Vec :: new ( ) ) =>> get_or_insert(&mut account.organizations)
//@rule orgs . iter ( ) . any ( | ( id , _ ) | * id == org_id ) =>> any_id(orgs, org_id)
//@contract
    requires inv::<Account>(old(tx)@, base()),
    ensures r is Ok ==> exists|w: Account, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(old(tx)@, base(), member_id, w) && !has_id(s_or_empty(w.back().organizations)@, org_id) && o@ == s_or_empty(w.back().organizations)@.push((org_id, role)) && final(tx)@ == old(tx)@.insert(k_data(base(), member_id), (#[trigger] with_orgs(w.back(), o)).enc()), r is Ok ==> inv::<Account>(final(tx)@, base()),
        r is Err ==> infra(r->Err_0) || r->Err_0 is AlreadyExists && (exists|w: Account| #[trigger] rec(old(tx)@, base(), member_id, w) && has_id(s_or_empty(w.back().organizations)@, org_id)) || r->Err_0 is NotFound && !old(tx)@.dom().contains(k_data(base(), member_id)),
//@before tx . put
    proof {  let w = choose|w: Account| #[trigger] rec(old(tx)@, base(), member_id, w); assert(rec(old(tx)@, base(), member_id, w)); let o = account.organizations->0; assert(account == with_orgs(w.back(), o)); assert(account.ekeys(base()) =~= w.ekeys(base())); lemma_updated(old(tx)@, base(), member_id, w, account, seq![], seq![]); assert(!has_id(s_or_empty(w.back().organizations)@, org_id) && o@ == s_or_empty(w.back().organizations)@.push((org_id, role))); }
//@end
//@fn src/metadata/src/accounts.rs Accounts::remove_organization_ | ret=r vis=keep block
//@rule account . organizations . get_or_insert ( Vec :: new ( ) ) =>> get_or_insert(&mut account.organizations)
//@rule orgs . iter ( ) . all ( | ( id , _ ) | * id != org_id ) =>> !any_id(orgs, org_id)
//@rule orgs . retain ( | ( id , _ ) | * id != org_id ) =>> retain_other(orgs, org_id)
//@contract
    requires inv::<Account>(old(tx)@, base()),
    ensures r is Ok ==> exists|w: Account, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(old(tx)@, base(), member_id, w) && has_id(s_or_empty(w.back().organizations)@, org_id) && o@ == drop_id(s_or_empty(w.back().organizations)@, org_id) && final(tx)@ == old(tx)@.insert(k_data(base(), member_id), (#[trigger] with_orgs(w.back(), o)).enc()), r is Ok ==> inv::<Account>(final(tx)@, base()),
        r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && (exists|w: Account| #[trigger] rec(old(tx)@, base(), member_id, w) && !has_id(s_or_empty(w.back().organizations)@, org_id)) || r->Err_0 is NotFound && !old(tx)@.dom().contains(k_data(base(), member_id)),
//@before tx . put
    proof {  let w = choose|w: Account| #[trigger] rec(old(tx)@, base(), member_id, w); assert(rec(old(tx)@, base(), member_id, w)); let o = account.organizations->0; assert(account == with_orgs(w.back(), o)); assert(account.ekeys(base()) =~= w.ekeys(base())); lemma_updated(old(tx)@, base(), member_id, w, account, seq![], seq![]); assert(has_id(s_or_empty(w.back().organizations)@, org_id) && o@ == drop_id(s_or_empty(w.back().organizations)@, org_id)); }
//@end
//@fn src/metadata/src/accounts.rs Accounts::change_organization_role_ | loops=1 ret=r vis=keep block
//@rule account . organizations . get_or_insert ( Vec :: new ( ) ) =>> get_or_insert(&mut account.organizations)
//@rule for ( id , r ) in orgs . iter_mut ( ) { if * id == org_id { * r = role ; $$b } } =>> if set_first(orgs, org_id, role) { $b }
//@contract
    requires inv::<Account>(old(tx)@, base()),
    ensures r is Ok ==> exists|w: Account, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(old(tx)@, base(), member_id, w) && first_set(s_or_empty(w.back().organizations)@, o@, org_id, role) && final(tx)@ == old(tx)@.insert(k_data(base(), member_id), (#[trigger] with_orgs(w.back(), o)).enc()), r is Ok ==> inv::<Account>(final(tx)@, base()),
        r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && (exists|w: Account| #[trigger] rec(old(tx)@, base(), member_id, w) && !has_id(s_or_empty(w.back().organizations)@, org_id)) || r->Err_0 is NotFound && !old(tx)@.dom().contains(k_data(base(), member_id)),
//@before tx . put
    proof {  let w = choose|w: Account| #[trigger] rec(old(tx)@, base(), member_id, w); assert(rec(old(tx)@, base(), member_id, w)); let o = account.organizations->0; assert(account == with_orgs(w.back(), o)); assert(account.ekeys(base()) =~= w.ekeys(base())); lemma_updated(old(tx)@, base(), member_id, w, account, seq![], seq![]); assert(first_set(s_or_empty(w.back().organizations)@, o@, org_id, role)); }
//@end
}
}
pub mod organizations { use super::*; broadcast use crate::all;
//@rule organization :: Organization :: decode =>> decode::<organization::Organization>
//@rule Arc < Accounts > =>> Accounts
//@rule role . clone ( ) as i32 =>> role_code(role)
pub mod organization { use super::*;
//@item pb:organization.rs Organization | vis=keep
//@item pb:organization.rs Member | vis=keep
}
//@item src/metadata/src/organizations.rs Organization | vis=keep std="clone"
//@item src/metadata/src/organizations.rs CreateOrganizationRequest | vis=keep
//@item src/metadata/src/organizations.rs UpdateOrganizationRequest | vis=keep
//@item src/metadata/src/organizations.rs Organizations | vis=keep
//@static src/metadata/src/organizations.rs NAMESPACE | block
//@contract
    ensures r@ == NS(),
//@end
pub open spec fn NS() -> Seq<u8> { asc("organizations"@) }
//@rule IDX_NAME =>> IDX_NAME()
//@static src/metadata/src/organizations.rs IDX_NAME | block
//@contract
    ensures r@ == asc("name"@),
//@end
pub open spec fn base() -> Seq<u8> { NS() }
use super::accounts::{self, Accounts, Account, account};
pub mod rolec { use super::*;
//@item src/common/src/rbac.rs OrganizationRole | consts=OrganizationRole
}
// `role as i32`: the discriminant declared in the source
#[verifier::external_body] pub fn role_code(r: &OrganizationRole) -> (c: i32) ensures c == (match *r { OrganizationRole::Owner => rolec::OrganizationRole::Owner, OrganizationRole::Admin => rolec::OrganizationRole::Admin, OrganizationRole::Member => rolec::OrganizationRole::Member }) { unimplemented!() }
pub open spec fn mem_code(r: OrganizationRole) -> i32 { match r { OrganizationRole::Owner => 1i32, OrganizationRole::Admin => 2i32, OrganizationRole::Member => 3i32 } }
pub open spec fn mem_of(c: i32) -> OrganizationRole { if c == 1 { OrganizationRole::Owner } else if c == 2 { OrganizationRole::Admin } else { OrganizationRole::Member } }
pub open spec fn mem_el(p: (u64, OrganizationRole)) -> organization::Member { organization::Member { id: p.0, role: mem_code(p.1) } }
pub open spec fn mems(s: Seq<(u64, OrganizationRole)>) -> Seq<organization::Member> { Seq::new(s.len(), |i: int| mem_el(s[i])) }
pub open spec fn mem_back(p: organization::Member) -> (u64, OrganizationRole) { (p.id, mem_of(p.role)) }
pub open spec fn mems_back(s: Seq<organization::Member>) -> Seq<(u64, OrganizationRole)> { Seq::new(s.len(), |i: int| mem_back(s[i])) }
pub open spec fn mems_opt(s: Option<Vec<(u64, OrganizationRole)>>) -> Vec<organization::Member> { match s { Some(v) => vec_of(mems(v@)), None => no_items() } }
pub open spec fn to_pb(r: Organization) -> organization::Organization { organization::Organization { id: r.id, created_at: r.created_at.t, created_by: r.created_by, updated_at: s_secs(r.updated_at), updated_by: r.updated_by, name: r.name, members: vec_of(mems(r.members@)) } }
impl Ent for Organization {
    open spec fn enc(self) -> Seq<u8> { pb(to_pb(self)) }
    open spec fn eid(self) -> u64 { self.id }
    open spec fn ekeys(self, ns: Seq<u8>) -> Seq<Option<Seq<u8>>> { seq![Some(k_index(ns, asc("name"@), utf8(self.name@)))] }
    open spec fn back(self) -> Organization { let r = self; Organization { created_at: Instant { t: r.created_at.t, n: 0 }, updated_at: s_at(s_secs(r.updated_at)), ..r } }
    proof fn back_ok(a: Organization) {  }
    proof fn enc_ok(a: Organization, b: Organization, ns: Seq<u8>) { assert(unpb::<organization::Organization>(a.enc()) == Some(to_pb(a))); assert(to_pb(a) == to_pb(b)); }
    proof fn keys_ok(a: Organization, ns: Seq<u8>) { assert(k_index(ns, asc("name"@), utf8(a.name@)).take((ns + asc("/idx/"@)).len() as int) =~= ns + asc("/idx/"@)); }
}
// reaching this panics: shown unreachable for every value the provider wrote
#[verifier::external_body] fn corrupt<T>(data: &[u8]) -> (r: T) requires forall|x: Organization| data@ != #[trigger] x.enc() ensures false { unimplemented!() }
//@fn src/metadata/src/organizations.rs index_name_key | ret=r block
//@contract
    ensures key_of(r) == Some(k_index(base(), asc("name"@), utf8(name@))), r is Some,
//@end
//@fn src/metadata/src/organizations.rs index_keys | ret=r block
//@contract
    ensures ks(r@) =~= seq![Some(k_index(base(), asc("name"@), utf8(name@)))],
//@end

pub type Members = Seq<(u64, OrganizationRole)>;
pub open spec fn with_members(r: Organization, v: Vec<(u64, OrganizationRole)>) -> Organization { Organization { members: v, ..r } }
pub open spec fn orgs_of(a: Account) -> Members { s_or_empty(a.organizations)@ }
// both sides of a membership say the same, and nobody belongs to an organization that was never created
pub open spec fn linked(m: Store) -> bool {
    &&& forall|i: u64, o: Organization, j: u64, a: Account| #[trigger] rec(m, base(), i, o) && #[trigger] rec(m, accounts::base(), j, a) ==> role_of(o.members@, j) == role_of(orgs_of(a), i)
    &&& forall|j: u64, a: Account, i: u64| #[trigger] rec(m, accounts::base(), j, a) && #[trigger] has_id(orgs_of(a), i) ==> m.dom().contains(k_seq(base())) && i <= un_le(m[k_seq(base())])
}
pub proof fn lemma_kinds_apart() ensures forall|k: Seq<u8>| #![trigger starts(k, accounts::base())] #![trigger starts(k, base())] !(starts(k, accounts::base()) && starts(k, base()))
{ reveal_strlit("accounts"); reveal_strlit("organizations"); assert forall|k: Seq<u8>| #![trigger starts(k, accounts::base())] #![trigger starts(k, base())] !(starts(k, accounts::base()) && starts(k, base())) by { if starts(k, accounts::base()) && starts(k, base()) { assert(k.take(accounts::base().len() as int)[0] == k[0]); assert(k.take(base().len() as int)[0] == k[0]); } } }
proof fn lemma_same_orgs(a: Account, b: Account) requires a.enc() == b.enc() ensures orgs_of(a) == orgs_of(b)
{ assert(unpb::<account::Account>(a.enc()) == Some(accounts::to_pb(a))); assert(accounts::to_pb(a).organizations == accounts::to_pb(b).organizations); assert(accounts::to_pb(a).organizations@ =~= accounts::all_orgs(orgs_of(a))); assert(accounts::to_pb(b).organizations@ =~= accounts::all_orgs(orgs_of(b)));
  assert(accounts::all_orgs_back(accounts::all_orgs(orgs_of(a))) =~= orgs_of(a)); assert(accounts::all_orgs_back(accounts::all_orgs(orgs_of(b))) =~= orgs_of(b)); }
proof fn lemma_same_members(a: Organization, b: Organization) requires a.enc() == b.enc() ensures a.members@ == b.members@
{ assert(unpb::<organization::Organization>(a.enc()) == Some(to_pb(a))); assert(to_pb(a).members@ =~= mems(a.members@)); assert(to_pb(b).members@ =~= mems(b.members@)); assert(mems_back(mems(a.members@)) =~= a.members@); assert(mems_back(mems(b.members@)) =~= b.members@); }
pub open spec fn relinked(m: Store, id: u64, member: u64, w: Organization, a: Account, v: Vec<(u64, OrganizationRole)>, o: Vec<(u64, OrganizationRole)>) -> Store { m.insert(k_data(accounts::base(), member), accounts::with_orgs(a.back(), o).enc()).insert(k_data(base(), id), with_members(w.back(), v).enc()) }
proof fn lemma_link(m: Store, id: u64, member: u64, w: Organization, a: Account, v: Vec<(u64, OrganizationRole)>, o: Vec<(u64, OrganizationRole)>, x: Option<OrganizationRole>)
    requires inv::<Organization>(m, base()), inv::<Account>(m, accounts::base()), linked(m), rec(m, base(), id, w), rec(m, accounts::base(), member, a),
        forall|j: u64| #[trigger] role_of(v@, j) == (if j == member { x } else { role_of(w.members@, j) }), forall|i: u64| #[trigger] role_of(o@, i) == (if i == id { x } else { role_of(orgs_of(a), i) })
    ensures inv::<Organization>(relinked(m, id, member, w, a, v, o), base()), inv::<Account>(relinked(m, id, member, w, a, v, o), accounts::base()), linked(relinked(m, id, member, w, a, v, o))
{
    let n = relinked(m, id, member, w, a, v, o); let ka = k_data(accounts::base(), member); let ko = k_data(base(), id); let a1 = accounts::with_orgs(a.back(), o); let w1 = with_members(w.back(), v);
    lemma_kinds_apart(); lemma_under(accounts::base(), member); lemma_under(base(), id); lemma_seq_data(base(), id);
    let m1 = m.insert(ka, a1.enc());
    assert(a1.ekeys(accounts::base()) =~= a.ekeys(accounts::base())); assert(w1.ekeys(base()) =~= w.ekeys(base()));
    lemma_updated(m, accounts::base(), member, a, a1, seq![], seq![]); assert(m1 == updated(m, accounts::base(), member, a1, seq![], seq![]));
    assert forall|k: Seq<u8>| starts(k, base()) implies #[trigger] same_at(m, m1, k) by { assert(k != ka); } lemma_frame::<Organization>(m, m1, base()); assert(rec(m1, base(), id, w));
    lemma_updated(m1, base(), id, w, w1, seq![], seq![]); assert(n == updated(m1, base(), id, w1, seq![], seq![]));
    assert forall|k: Seq<u8>| starts(k, accounts::base()) implies #[trigger] same_at(m1, n, k) by { assert(k != ko); } lemma_frame::<Account>(m1, n, accounts::base());
    lemma_under(base(), 0); assert(n[k_seq(base())] == m[k_seq(base())]);
    assert forall|i: u64, o2: Organization| #[trigger] rec(n, base(), i, o2) implies (i != id ==> rec(m, base(), i, o2)) && (i == id ==> o2.members@ == v@) by { if i != id { if k_data(base(), i) == ko { lemma_data_key(base(), i, id); } lemma_under(base(), i); assert(k_data(base(), i) != ka); } else { lemma_same_members(o2, w1); } }
    assert forall|j: u64, a2: Account| #[trigger] rec(n, accounts::base(), j, a2) implies (j != member ==> rec(m, accounts::base(), j, a2)) && (j == member ==> orgs_of(a2) == o@) by { if j != member { if k_data(accounts::base(), j) == ka { lemma_data_key(accounts::base(), j, member); } lemma_under(accounts::base(), j); assert(k_data(accounts::base(), j) != ko); } else { lemma_under(accounts::base(), j); assert(ka != ko); lemma_same_orgs(a2, a1); assert(orgs_of(a1) == o@); } }
    assert forall|i: u64, o2: Organization, j: u64, a2: Account| #[trigger] rec(n, base(), i, o2) && #[trigger] rec(n, accounts::base(), j, a2) implies role_of(o2.members@, j) == role_of(orgs_of(a2), i) by {
        if i != id && j != member { } else if i == id && j != member { assert(role_of(v@, j) == role_of(w.members@, j)); } else if i != id { assert(role_of(o@, i) == role_of(orgs_of(a), i)); } else { assert(role_of(v@, j) == x); assert(role_of(o@, i) == x); }
    }
    assert forall|j: u64, a2: Account, i: u64| #[trigger] rec(n, accounts::base(), j, a2) && #[trigger] has_id(orgs_of(a2), i) implies n.dom().contains(k_seq(base())) && i <= un_le(n[k_seq(base())]) by {
        if j == member { lemma_role_none(o@, i); lemma_role_none(orgs_of(a), i); assert(role_of(o@, i) is Some); if i == id { assert(m.dom().contains(k_data(base(), id))); } else { assert(has_id(orgs_of(a), i)); } } else { assert(rec(m, accounts::base(), j, a2)); }
    }
}
// a step among the organizations that keeps the member list, or removes the record, keeps both sides in agreement
proof fn lemma_kept(m: Store, n: Store, id: u64, w: Organization, is: Option<Organization>)
    requires inv::<Organization>(m, base()), inv::<Account>(m, accounts::base()), linked(m), step(m, n, base(), id, Some(w), is), rec(m, base(), id, w), is is Some ==> is->0.members@ == w.members@, is is Some ==> is->0.eid() == id
    ensures linked(n), inv::<Account>(n, accounts::base())
{
    lemma_kinds_apart(); lemma_outside(m, n, base(), id, Some(w), is); assert forall|k: Seq<u8>| starts(k, accounts::base()) implies #[trigger] same_at(m, n, k) by { assert(!starts(k, base())); } lemma_frame::<Account>(m, n, accounts::base());
    lemma_seq_data(base(), id); let ks_ = k_seq(base()); assert(!keyed(is, base(), ks_)) by { if keyed(is, base(), ks_) { lemma_keys(is->0, base(), ks_); } } assert(!keyed(Some(w), base(), ks_)) by { if keyed(Some(w), base(), ks_) { lemma_keys(w, base(), ks_); } } assert(n.dom().contains(ks_) <==> m.dom().contains(ks_));
    assert forall|i: u64, o2: Organization| #[trigger] rec(n, base(), i, o2) implies (i != id ==> rec(m, base(), i, o2)) && (i == id ==> is is Some && o2.members@ == w.members@) by {
        let k = k_data(base(), i); assert(n.dom().contains(k));
        if i != id { if k == k_data(base(), id) { lemma_data_key(base(), i, id); } lemma_seq_data(base(), i); if keyed(is, base(), k) { lemma_keys(is->0, base(), k); } if keyed(Some(w), base(), k) { lemma_keys(w, base(), k); } assert(n.dom().contains(k) <==> m.dom().contains(k)); } else { lemma_same_members(o2, is->0); }
    }
    assert forall|i: u64, o2: Organization, j: u64, a2: Account| #[trigger] rec(n, base(), i, o2) && #[trigger] rec(n, accounts::base(), j, a2) implies role_of(o2.members@, j) == role_of(orgs_of(a2), i) by { assert(rec(m, accounts::base(), j, a2)); if i == id { assert(role_of(w.members@, j) == role_of(orgs_of(a2), i)); } }
    assert forall|j: u64, a2: Account, i: u64| #[trigger] rec(n, accounts::base(), j, a2) && #[trigger] has_id(orgs_of(a2), i) implies n.dom().contains(k_seq(base())) && i <= un_le(n[k_seq(base())]) by { assert(rec(m, accounts::base(), j, a2)); }
}
proof fn lemma_new_org(m: Store, m1: Store, org: Organization, by: u64, a: Account, o: Vec<(u64, OrganizationRole)>)
    requires inv::<Organization>(m, base()), inv::<Account>(m, accounts::base()), linked(m), step(m, m1, base(), org.id, None, Some(org)), org.id == counter(m, k_seq(base()), 1), inv::<Organization>(m1, base()),
        org.members@ =~= seq![(by, OrganizationRole::Owner)], rec(m, accounts::base(), by, a), o@ == orgs_of(a).push((org.id, OrganizationRole::Owner))
    ensures ({ let n = m1.insert(k_data(accounts::base(), by), accounts::with_orgs(a.back(), o).enc()); inv::<Organization>(n, base()) && inv::<Account>(n, accounts::base()) && linked(n) })
{
    let a1 = accounts::with_orgs(a.back(), o); let ka = k_data(accounts::base(), by); let n = m1.insert(ka, a1.enc()); let id = org.id;
    lemma_kinds_apart(); lemma_under(accounts::base(), by); lemma_under(base(), id); lemma_outside(m, m1, base(), id, None, Some(org));
    assert forall|k: Seq<u8>| starts(k, accounts::base()) implies #[trigger] same_at(m, m1, k) by { assert(!starts(k, base())); } lemma_frame::<Account>(m, m1, accounts::base()); assert(rec(m1, accounts::base(), by, a));
    assert(a1.ekeys(accounts::base()) =~= a.ekeys(accounts::base())); lemma_updated(m1, accounts::base(), by, a, a1, seq![], seq![]); assert(n == updated(m1, accounts::base(), by, a1, seq![], seq![]));
    assert forall|k: Seq<u8>| starts(k, base()) implies #[trigger] same_at(m1, n, k) by { assert(k != ka); } lemma_frame::<Organization>(m1, n, base());
    assert(n[k_seq(base())] == le(id));
    assert forall|i: u64, o2: Organization| #[trigger] rec(n, base(), i, o2) implies (i != id ==> rec(m, base(), i, o2)) && (i == id ==> o2.members@ == org.members@) by {
        assert(rec(m1, base(), i, o2)); let k = k_data(base(), i);
        if i != id { if k == k_data(base(), id) { lemma_data_key(base(), i, id); } lemma_seq_data(base(), i); if keyed(Some(org), base(), k) { lemma_keys(org, base(), k); } assert(m1.dom().contains(k) <==> m.dom().contains(k)); } else { lemma_same_members(o2, org); }
    }
    assert forall|j: u64, a2: Account| #[trigger] rec(n, accounts::base(), j, a2) implies (j != by ==> rec(m, accounts::base(), j, a2)) && (j == by ==> orgs_of(a2) == o@) by { if j != by { if k_data(accounts::base(), j) == ka { lemma_data_key(accounts::base(), j, by); } assert(rec(m1, accounts::base(), j, a2)); } else { lemma_same_orgs(a2, a1); assert(orgs_of(a1) == o@); } }
    assert forall|i: u64, o2: Organization, j: u64, a2: Account| #[trigger] rec(n, base(), i, o2) && #[trigger] rec(n, accounts::base(), j, a2) implies role_of(o2.members@, j) == role_of(orgs_of(a2), i) by {
        lemma_role_push(orgs_of(a), id, OrganizationRole::Owner, i); let s = org.members@; assert(s[0] == (by, OrganizationRole::Owner)); assert(s.skip(1) =~= Seq::empty()); assert(role_of(s.skip(1), j) is None);
        if i == id { lemma_role_none(if j == by { orgs_of(a) } else { orgs_of(a2) }, id); if j == by { if has_id(orgs_of(a), id) { assert(false); } } else { if has_id(orgs_of(a2), id) { assert(false); } } }
    }
    assert forall|j: u64, a2: Account, i: u64| #[trigger] rec(n, accounts::base(), j, a2) && #[trigger] has_id(orgs_of(a2), i) implies n.dom().contains(k_seq(base())) && i <= un_le(n[k_seq(base())]) by {
        if j == by { lemma_role_push(orgs_of(a), id, OrganizationRole::Owner, i); lemma_role_none(o@, i); lemma_role_none(orgs_of(a), i); if i != id { assert(has_id(orgs_of(a), i)); } } else { assert(has_id(orgs_of(a2), i)); }
    }
}
//@fn src/metadata/src/organizations.rs serialize | ret=r2 block
//@contract
    ensures r2 is Ok ==> r2->Ok_0@ == (*org).enc(), r2 is Err ==> r2->Err_0 is Bincode,
//@rule org . members . iter ( ) . map ( | ( id , role ) | $$e ) . collect ( ) =>> { let mut out_ = Vec::new(); let mut k_: usize = 0; while k_ < org.members.len() invariant k_ <= org.members@.len(), out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == mem_el(org.members@[i]) decreases org.members@.len() - k_ { let id = &org.members[k_].0; let role = &org.members[k_].1; let e_ = $e; out_.push(e_); k_ += 1; } proof { assert(out_@ =~= mems(org.members@)); } out_ }
//@before Ok ( v . encode_to_vec ( ) )
    proof { assert(v == to_pb(*org)); }
//@end
//@fn src/metadata/src/organizations.rs deserialize | ret=r2 block
//@contract
    ensures r2 is Ok ==> unpb::<organization::Organization>(data@) is Some, r2 is Ok ==> is_read(data@, r2->Ok_0), (exists|x: Organization| data@ == #[trigger] x.enc()) ==> r2 is Err ==> r2->Err_0 is Bincode, r2 is Err ==> !(r2->Err_0 is NotFound),
//@rule from . members . iter ( ) . map ( | m | $$e ) . collect ( ) =>> { let mut out_ = Vec::new(); let mut k_: usize = 0; while k_ < from.members.len() invariant k_ <= from.members@.len(), out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == mem_back(from.members@[i]) decreases from.members@.len() - k_ { let m = &from.members[k_]; let e_ = $e; out_.push(e_); k_ += 1; } proof { assert(out_@ =~= mems_back(from.members@)); assert forall|x: Organization| data@ == #[trigger] x.enc() implies out_ == x.members by { assert(from == to_pb(x)); assert(from.members@ == mems(x.members@)); assert(mems_back(mems(x.members@)) =~= x.members@); assert(out_@ == x.members@); } } out_ }
//@end
pub open spec fn made(r: Organization, q: CreateOrganizationRequest) -> bool { r.updated_at is None && r.updated_by is None && r.members@ =~= seq![(q.created_by, OrganizationRole::Owner)] && r.created_by == q.created_by && r.name == q.name }
pub open spec fn changed(w: Organization, r: Organization, q: UpdateOrganizationRequest) -> bool { r.updated_at is Some && r.updated_by == Some(q.updated_by) && r.id == w.id && r.created_at == w.created_at && r.created_by == w.created_by && r.members == w.members && set(q.name, w.name, r.name) }
impl Organizations {
//@fn src/metadata/src/organizations.rs Organizations::get_by_id_ | ret=r block
//@contract
    ensures final(tx)@ == old(tx)@, r is Ok ==> holds(old(tx)@, base(), id, r->Ok_0), r is Err && r->Err_0 is NotFound ==> !old(tx)@.dom().contains(k_data(base(), id)), inv::<Organization>(old(tx)@, base()) && r is Err && !(r->Err_0 is NotFound) ==> infra(r->Err_0),
//@end
//@fn src/metadata/src/organizations.rs Organizations::get_by_id | ret=r block
//@contract
    ensures r is Ok ==> holds(self.db@, base(), id, r->Ok_0), r is Err && r->Err_0 is NotFound ==> !self.db@.dom().contains(k_data(base(), id)), inv::<Organization>(self.db@, base()) && r is Err && !(r->Err_0 is NotFound) ==> infra(r->Err_0),
//@end
//@fn src/metadata/src/organizations.rs Organizations::create | ret=r mut_self block
//@contract
    requires inv::<Organization>(old(self).db@, base()), inv::<Account>(old(self).db@, accounts::base()), linked(old(self).db@), seq_ok(old(self).db@, k_seq(base())),
    ensures r is Ok ==> made(r->Ok_0, req) && r->Ok_0.id == counter(old(self).db@, k_seq(base()), 1) && may(old(self).db@, base(), r->Ok_0.id, None, Some(r->Ok_0)) && exists|a: Account, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(old(self).db@, accounts::base(), req.created_by, a) && o@ == orgs_of(a).push((r->Ok_0.id, OrganizationRole::Owner))
            && final(self).db@ == created(old(self).db@, base(), r->Ok_0.id, r->Ok_0).insert(k_data(accounts::base(), req.created_by), (#[trigger] accounts::with_orgs(a.back(), o)).enc()),
        r is Ok ==> inv::<Organization>(final(self).db@, base()) && inv::<Account>(final(self).db@, accounts::base()) && linked(final(self).db@),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is AlreadyExists && old(self).db@.dom().contains(k_index(base(), asc("name"@), utf8(req.name@))) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(accounts::base(), req.created_by)),
//@start
    let ghost m0 = old(self).db@;
//@before check_insert_constraints
    proof { lemma_some_at(ks(idx_keys@)); }
//@before self . accs
    let ghost m1 = tx@;
    proof {
        lemma_keyseq(org, base(), ks(idx_keys@)); lemma_created(m0, base(), org.id, org); assert(m1 == created(m0, base(), org.id, org));
        lemma_kinds_apart(); lemma_outside(m0, m1, base(), org.id, None, Some(org)); assert forall|k: Seq<u8>| starts(k, accounts::base()) implies #[trigger] same_at(m0, m1, k) by { assert(!starts(k, base())); } lemma_frame::<Account>(m0, m1, accounts::base());
        lemma_under(accounts::base(), req.created_by); assert(same_at(m0, m1, k_data(accounts::base(), req.created_by)));
        assert forall|a: Account| #[trigger] rec(m1, accounts::base(), req.created_by, a) implies !has_id(orgs_of(a), org.id) by { assert(rec(m0, accounts::base(), req.created_by, a)); if has_id(orgs_of(a), org.id) { assert(false); } }
    }
//@before tx . commit
    proof {
        let (a, o) = choose|a: Account, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(m1, accounts::base(), req.created_by, a) && o@ == orgs_of(a).push((org.id, OrganizationRole::Owner)) && tx@ == m1.insert(k_data(accounts::base(), req.created_by), (#[trigger] accounts::with_orgs(a.back(), o)).enc());
        assert(rec(m0, accounts::base(), req.created_by, a)); lemma_new_org(m0, m1, org, req.created_by, a, o);
    }
//@end
//@fn src/metadata/src/organizations.rs Organizations::update_ | ret=r block
//@contract
    requires inv::<Organization>(old(tx)@, base()), 
    ensures r is Ok ==> exists|w: Organization| #[trigger] rec(old(tx)@, base(), id, w) && changed(w.back(), r->Ok_0, req) && step(old(tx)@, final(tx)@, base(), id, Some(w), Some(r->Ok_0)) && may(old(tx)@, base(), id, Some(w), Some(r->Ok_0)), r is Ok ==> inv::<Organization>(final(tx)@, base()),
        r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(tx)@.dom().contains(k_data(base(), id)) || r->Err_0 is AlreadyExists && (req.name is Some && old(tx)@.dom().contains(k_index(base(), asc("name"@), utf8(req.name->Some_0@)))),
//@before Ok ( org )
    proof { let w = choose|w: Organization| #[trigger] rec(old(tx)@, base(), id, w); assert(rec(old(tx)@, base(), id, w));
        let a = ks(idx_keys@); let p = ks(idx_prev_keys@); let ns = base(); Organization::keys_ok(w, ns); Organization::keys_ok(org, ns);
        if (req.name is Some) { assert(a =~= seq![org.ekeys(ns)[0]]); assert(p =~= seq![w.ekeys(ns)[0]]); let t: Seq<int> = seq![0int]; assert(t[0] == 0);  lemma_among(w, org, ns, a, p, t); }
        if !(req.name is Some) { assert(a =~= seq![]); assert(p =~= seq![]); let t: Seq<int> = seq![];   lemma_among(w, org, ns, a, p, t); }
        lemma_updated(old(tx)@, ns, id, w, org, a, p); assert(tx@ == updated(old(tx)@, ns, id, org, a, p)); }
//@end
//@fn src/metadata/src/organizations.rs Organizations::update | ret=r mut_self block
//@contract
    requires inv::<Organization>(old(self).db@, base()), inv::<Account>(old(self).db@, accounts::base()), linked(old(self).db@),
    ensures r is Ok ==> exists|w: Organization| #[trigger] rec(old(self).db@, base(), id, w) && changed(w.back(), r->Ok_0, req) && step(old(self).db@, final(self).db@, base(), id, Some(w), Some(r->Ok_0)) && may(old(self).db@, base(), id, Some(w), Some(r->Ok_0)), r is Ok ==> inv::<Organization>(final(self).db@, base()) && inv::<Account>(final(self).db@, accounts::base()) && linked(final(self).db@),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(), id)) || r->Err_0 is AlreadyExists && (req.name is Some && old(self).db@.dom().contains(k_index(base(), asc("name"@), utf8(req.name->Some_0@)))),
//@before tx . commit
    proof { let m0 = old(self).db@; let w = choose|w: Organization| #[trigger] rec(m0, base(), id, w) && changed(w.back(), org, req) && step(m0, tx@, base(), id, Some(w), Some(org)) && may(m0, base(), id, Some(w), Some(org)); lemma_kept(m0, tx@, id, w, Some(org)); }
//@end
//@fn src/metadata/src/organizations.rs Organizations::delete | ret=r mut_self block
//@contract
    requires inv::<Organization>(old(self).db@, base()),
    ensures r is Ok ==> holds(old(self).db@, base(), id, r->Ok_0), r is Ok ==> exists|w: Organization| #[trigger] rec(old(self).db@, base(), id, w) && step(old(self).db@, final(self).db@, base(), id, Some(w), None), r is Ok ==> inv::<Organization>(final(self).db@, base()),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(), id)),
//@before tx . commit
    proof { let w = choose|w: Organization| #[trigger] rec(old(self).db@, base(), id, w); assert(rec(old(self).db@, base(), id, w)); lemma_deleted(old(self).db@, base(), id, w);
        assert(org == w.back()); assert(org.ekeys(base()) =~= w.ekeys(base())); lemma_somes(w.ekeys(base())); assert(tx@ == deleted(old(self).db@, base(), id, w)); }
//@end
//@fn src/metadata/src/organizations.rs Organizations::list | ret=r block
//@contract
    requires inv::<Organization>(self.db@, base()),
    ensures r is Ok ==> listed(self.db@, base(), r->Ok_0.data@), r is Err ==> infra(r->Err_0),
//@loop 0 iter=it
    invariant scanned(it.seq(), tx@, k_all(base())), tx@ == self.db@, prefix@ == k_all(base()), it.index@ <= it.seq().len(),
        forall|i: int| 0 <= i < list@.len() ==> is_read(scan(tx@, prefix@)[i].1, #[trigger] list@[i]),
        !brk_0 ==> list@.len() == it.index@,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]) is Ok,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> starts(#[trigger] scan(tx@, prefix@)[i].0, prefix@),
        brk_0 ==> list@.len() == hits(tx@, prefix@),
//@loopstart 0
    proof { axiom_scan(tx@, prefix@); assert(kv == it.seq()[it.index@ as int]); }
//@before if ! from_utf8
    proof { let i = it.index@ as int; assert(it.seq()[i] is Ok); assert(it.seq()[i]->Ok_0 == (key, value)); assert(key@ == scan(tx@, prefix@)[i].0); assert(i > 0 ==> starts(scan(tx@, prefix@)[i - 1].0, prefix@));
        if starts(key@, prefix@) { assert(self.db@.dom().contains(key@)); let id = choose|id: u64| key@ == #[trigger] k_data(base(), id); let e = choose|e: Organization| #[trigger] rec(self.db@, base(), id, e); assert(rec(self.db@, base(), id, e)); assert(value@ == e.enc()); } }
//@before ListResponse
    proof { axiom_scan(tx@, prefix@); let n = scan(tx@, prefix@).len() as int; assert(!brk_0 && n > 0 ==> starts(scan(tx@, prefix@)[n - 1].0, prefix@)); lemma_listed(self.db@, base(), list@); }
//@end
//@fn src/metadata/src/organizations.rs Organizations::add_member | ret=r mut_self block
//@rule org . members . iter ( ) . any ( | ( id , _ ) | * id == member_id ) =>> any_id(&org.members, member_id)
//@contract
    requires inv::<Organization>(old(self).db@, base()), inv::<Account>(old(self).db@, accounts::base()), linked(old(self).db@),
    ensures r is Ok ==> exists|w: Organization, a: Account, v: Vec<(u64, OrganizationRole)>, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(old(self).db@, base(), id, w) && #[trigger] rec(old(self).db@, accounts::base(), member_id, a) && !has_id(w.members@, member_id) && v@ == w.members@.push((member_id, role)) && !has_id(orgs_of(a), id) && o@ == orgs_of(a).push((id, role)) && final(self).db@ == #[trigger] relinked(old(self).db@, id, member_id, w, a, v, o),
        r is Ok ==> inv::<Organization>(final(self).db@, base()) && inv::<Account>(final(self).db@, accounts::base()) && linked(final(self).db@),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(), id)) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(accounts::base(), member_id)) || r->Err_0 is AlreadyExists && exists|w: Organization| #[trigger] rec(old(self).db@, base(), id, w) && has_id(w.members@, member_id),
//@start
    let ghost m0 = old(self).db@;
//@before self . accs
    proof {
        let w = choose|w: Organization| #[trigger] rec(m0, base(), id, w); assert(rec(m0, base(), id, w));
        assert forall|a: Account| #[trigger] rec(m0, accounts::base(), member_id, a) implies (has_id(orgs_of(a), id) <==> has_id(w.members@, member_id)) by { lemma_role_none(orgs_of(a), id); lemma_role_none(w.members@, member_id); }
    }
//@before tx . commit
    proof {
        let w = choose|w: Organization| #[trigger] rec(m0, base(), id, w); assert(rec(m0, base(), id, w)); let v = org.members; assert(org == with_members(w.back(), v));
        lemma_kinds_apart(); lemma_under(accounts::base(), member_id); lemma_under(base(), id); let ka = k_data(accounts::base(), member_id);
        assert(tx@[ka] == tx@.remove(k_data(base(), id))[ka]);
        let (a, o) = choose|a: Account, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(m0, accounts::base(), member_id, a) && (!has_id(orgs_of(a), id) && o@ == orgs_of(a).push((id, role))) && tx@ == m0.insert(ka, (#[trigger] accounts::with_orgs(a.back(), o)).enc()).insert(k_data(base(), id), org.enc());
        assert(tx@ == relinked(m0, id, member_id, w, a, v, o));
        assert forall|j: u64| #[trigger] role_of(v@, j) == (if j == member_id { Some(role) } else { role_of(w.members@, j) }) by { lemma_role_none(w.members@, member_id); lemma_role_push(w.members@, member_id, role, j); }
        assert forall|i: u64| #[trigger] role_of(o@, i) == (if i == id { Some(role) } else { role_of(orgs_of(a), i) }) by { lemma_role_none(orgs_of(a), id); lemma_role_push(orgs_of(a), id, role, i); }
        lemma_link(m0, id, member_id, w, a, v, o, Some(role));
    }
//@end
//@fn src/metadata/src/organizations.rs Organizations::remove_member | ret=r mut_self block
//@rule org . members . iter ( ) . any ( | ( id , _ ) | * id == member_id ) =>> any_id(&org.members, member_id)
//@rule org . members . retain ( | ( id , _ ) | * id != member_id ) =>> retain_other(&mut org.members, member_id)
//@contract
    requires inv::<Organization>(old(self).db@, base()), inv::<Account>(old(self).db@, accounts::base()), linked(old(self).db@),
    ensures r is Ok ==> exists|w: Organization, a: Account, v: Vec<(u64, OrganizationRole)>, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(old(self).db@, base(), id, w) && #[trigger] rec(old(self).db@, accounts::base(), member_id, a) && has_id(w.members@, member_id) && v@ == drop_id(w.members@, member_id) && has_id(orgs_of(a), id) && o@ == drop_id(orgs_of(a), id) && final(self).db@ == #[trigger] relinked(old(self).db@, id, member_id, w, a, v, o),
        r is Ok ==> inv::<Organization>(final(self).db@, base()) && inv::<Account>(final(self).db@, accounts::base()) && linked(final(self).db@),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(), id)) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(accounts::base(), member_id)) || r->Err_0 is NotFound && exists|w: Organization| #[trigger] rec(old(self).db@, base(), id, w) && !has_id(w.members@, member_id),
//@start
    let ghost m0 = old(self).db@;
//@before self . accs
    proof {
        let w = choose|w: Organization| #[trigger] rec(m0, base(), id, w); assert(rec(m0, base(), id, w));
        assert forall|a: Account| #[trigger] rec(m0, accounts::base(), member_id, a) implies (has_id(orgs_of(a), id) <==> has_id(w.members@, member_id)) by { lemma_role_none(orgs_of(a), id); lemma_role_none(w.members@, member_id); }
    }
//@before tx . commit
    proof {
        let w = choose|w: Organization| #[trigger] rec(m0, base(), id, w); assert(rec(m0, base(), id, w)); let v = org.members; assert(org == with_members(w.back(), v));
        lemma_kinds_apart(); lemma_under(accounts::base(), member_id); lemma_under(base(), id); let ka = k_data(accounts::base(), member_id);
        assert(tx@[ka] == tx@.remove(k_data(base(), id))[ka]);
        let (a, o) = choose|a: Account, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(m0, accounts::base(), member_id, a) && (has_id(orgs_of(a), id) && o@ == drop_id(orgs_of(a), id)) && tx@ == m0.insert(ka, (#[trigger] accounts::with_orgs(a.back(), o)).enc()).insert(k_data(base(), id), org.enc());
        assert(tx@ == relinked(m0, id, member_id, w, a, v, o));
        assert forall|j: u64| #[trigger] role_of(v@, j) == (if j == member_id { None } else { role_of(w.members@, j) }) by { lemma_role_drop(w.members@, member_id, j); }
        assert forall|i: u64| #[trigger] role_of(o@, i) == (if i == id { None } else { role_of(orgs_of(a), i) }) by { lemma_role_drop(orgs_of(a), id, i); }
        lemma_link(m0, id, member_id, w, a, v, o, None);
    }
//@end
//@fn src/metadata/src/organizations.rs Organizations::change_member_role | ret=r mut_self block
//@rule if let Some ( member ) = org . members . iter_mut ( ) . find ( | ( id , _ ) | * id == member_id ) { member . 1 = role . clone ( ) ; $$b } =>> if set_first(&mut org.members, member_id, role.clone()) { $b }
//@contract
    requires inv::<Organization>(old(self).db@, base()), inv::<Account>(old(self).db@, accounts::base()), linked(old(self).db@),
    ensures r is Ok ==> exists|w: Organization, a: Account, v: Vec<(u64, OrganizationRole)>, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(old(self).db@, base(), id, w) && #[trigger] rec(old(self).db@, accounts::base(), member_id, a) && first_set(w.members@, v@, member_id, role) && first_set(orgs_of(a), o@, id, role) && final(self).db@ == #[trigger] relinked(old(self).db@, id, member_id, w, a, v, o),
        r is Ok ==> inv::<Organization>(final(self).db@, base()) && inv::<Account>(final(self).db@, accounts::base()) && linked(final(self).db@),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(), id)) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(accounts::base(), member_id)) || r->Err_0 is NotFound && exists|w: Organization| #[trigger] rec(old(self).db@, base(), id, w) && !has_id(w.members@, member_id),
//@start
    let ghost m0 = old(self).db@;
//@before self . accs
    proof {
        let w = choose|w: Organization| #[trigger] rec(m0, base(), id, w); assert(rec(m0, base(), id, w));
        assert forall|a: Account| #[trigger] rec(m0, accounts::base(), member_id, a) implies (has_id(orgs_of(a), id) <==> has_id(w.members@, member_id)) by { lemma_role_none(orgs_of(a), id); lemma_role_none(w.members@, member_id); }
    }
//@before tx . commit
    proof {
        let w = choose|w: Organization| #[trigger] rec(m0, base(), id, w); assert(rec(m0, base(), id, w)); let v = org.members; assert(org == with_members(w.back(), v));
        lemma_kinds_apart(); lemma_under(accounts::base(), member_id); lemma_under(base(), id); let ka = k_data(accounts::base(), member_id);
        assert(tx@[ka] == tx@.remove(k_data(base(), id))[ka]);
        let (a, o) = choose|a: Account, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(m0, accounts::base(), member_id, a) && (first_set(orgs_of(a), o@, id, role)) && tx@ == m0.insert(ka, (#[trigger] accounts::with_orgs(a.back(), o)).enc()).insert(k_data(base(), id), org.enc());
        assert(tx@ == relinked(m0, id, member_id, w, a, v, o));
        assert forall|j: u64| #[trigger] role_of(v@, j) == (if j == member_id { Some(role) } else { role_of(w.members@, j) }) by { lemma_role_set(w.members@, v@, member_id, role, j); }
        assert forall|i: u64| #[trigger] role_of(o@, i) == (if i == id { Some(role) } else { role_of(orgs_of(a), i) }) by { lemma_role_set(orgs_of(a), o@, id, role, i); }
        lemma_link(m0, id, member_id, w, a, v, o, Some(role));
    }
//@end
}
}
}
//@helpers
fn main() {}
