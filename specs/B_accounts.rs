//@include base.rs
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::fmt::Debug;
verus! {
//@item src/common/src/rbac.rs Permission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
//@item src/platform/src/context.rs Context | vis=keep
//@include rbacspec.rs
//@include handlers.rs
pub mod metadata { use super::*;
pub mod metadata { use super::*;
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
}
pub mod accounts { use super::*;
//@item src/metadata/src/accounts.rs Account | vis=keep
//@item src/metadata/src/accounts.rs CreateAccountRequest | vis=keep
//@item src/metadata/src/accounts.rs UpdateAccountRequest | vis=keep
#[verifier::external_body] pub fn no_change() -> (r: UpdateAccountRequest) ensures r.password_hash is None, r.force_update_password is None, r.force_update_email is None { unimplemented!() }
#[verifier::external_body] pub struct Accounts { x: u8 }
impl Accounts {
    #[verifier::external_body] pub fn create(&self, req: CreateAccountRequest) -> (r: Result<Account>) requires 
        server_ok(caller(), Permission::ManageAccounts),
        req.created_by == caller().account_id,
        ensures r is Ok ==> did(1, req, r->Ok_0), r is Err ==> refused(1, req) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn get_by_id(&self, id: u64) -> (r: Result<Account>) requires 
        server_ok(caller(), Permission::ManageAccounts),
        ensures r is Ok ==> did(2, id, r->Ok_0), r is Err ==> refused(2, id) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn list(&self, ) -> (r: Result<metadata::ListResponse<Account>>) requires 
        server_ok(caller(), Permission::ManageAccounts),
        ensures r is Ok ==> did(3, (), r->Ok_0), r is Err ==> refused(3, ()) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn update(&self, id: u64, req: UpdateAccountRequest) -> (r: Result<Account>) requires 
        server_ok(caller(), Permission::ManageAccounts),
        req.updated_by == caller().account_id,
        ensures r is Ok ==> did(4, (id, req), r->Ok_0), r is Err ==> refused(4, (id, req)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn delete(&self, id: u64) -> (r: Result<Account>) requires 
        server_ok(caller(), Permission::ManageAccounts),
        ensures r is Ok ==> did(5, id, r->Ok_0), r is Err ==> refused(5, id) && !(r->Err_0 is Forbidden) { unimplemented!() }
}
}
}
pub uninterp spec fn hash_of(h: String, password: Seq<char>) -> bool;
pub uninterp spec fn no_hash(password: Seq<char>) -> bool;
#[verifier::external_body] pub fn make_password_hash(password: &str) -> (r: Result<String>) ensures r is Ok ==> hash_of(r->Ok_0, password@), r is Err ==> no_hash(password@) && !(r->Err_0 is Forbidden) { unimplemented!() }
pub mod accounts { use super::*; use crate::metadata::accounts::Accounts as MDAccounts; use crate::metadata::accounts::no_change;
//@item src/platform/src/accounts.rs Account | vis=keep
//@item src/platform/src/accounts.rs CreateAccountRequest | vis=keep
//@item src/platform/src/accounts.rs UpdateAccountRequest | vis=keep
//@item src/platform/src/accounts.rs Accounts | vis=keep
impl Conv<Account> for metadata::accounts::Account { open spec fn cv(self, r: Account) -> bool { self.id == r.id && self.created_at == r.created_at && self.created_by == r.created_by && self.updated_at == r.updated_at && self.updated_by == r.updated_by && self.email == r.email && self.name == r.name && self.force_update_password == r.force_update_password && self.force_update_email == r.force_update_email && self.role == r.role && self.organizations == r.organizations && self.projects == r.projects && self.teams == r.teams }
//@fn src/platform/src/accounts.rs [Into<Account> for metadata::accounts::Account]::into | name=conv ret=r block
//@end
}
pub open spec fn made(x: CreateAccountRequest, q: metadata::accounts::CreateAccountRequest) -> bool { q.created_by == caller().account_id && hash_of(q.password_hash, x.password@) && x.email == q.email && x.name == q.name && x.force_update_password == q.force_update_password && x.force_update_email == q.force_update_email && x.role == q.role && x.organizations == q.organizations && x.projects == q.projects && x.teams == q.teams }
pub open spec fn changed(x: UpdateAccountRequest, q: metadata::accounts::UpdateAccountRequest) -> bool { q.updated_by == caller().account_id && x.email == q.email && x.name == q.name && x.role == q.role && x.organizations == q.organizations && x.projects == q.projects && x.teams == q.teams && x.force_update_password == q.force_update_password && q.force_update_email is None && match x.password { OptionalProperty::Some(p) => q.password_hash is Some && hash_of(q.password_hash->Some_0, p@), OptionalProperty::None => q.password_hash is None } }
impl Accounts {
//@fn src/platform/src/accounts.rs Accounts::create | ret=r block args=ctx,req
//@contract
    requires ctx == caller(), 
    ensures !(server_ok(caller(), Permission::ManageAccounts)) ==> forbidden(r),
        (server_ok(caller(), Permission::ManageAccounts)) && r is Ok ==> exists|q: metadata::accounts::CreateAccountRequest, m: metadata::accounts::Account| #[trigger] did(1, q, m) && made(req, q) && m.cv(r->Ok_0),
        (server_ok(caller(), Permission::ManageAccounts)) && r is Err ==> no_hash(req.password@) || exists|q: metadata::accounts::CreateAccountRequest| #[trigger] refused(1, q) && made(req, q),
//@end
//@fn src/platform/src/accounts.rs Accounts::get_by_id | ret=r block args=ctx,id
//@contract
    requires ctx == caller(), 
    ensures !(server_ok(caller(), Permission::ManageAccounts)) ==> forbidden(r),
        (server_ok(caller(), Permission::ManageAccounts)) && r is Ok ==> exists|m: metadata::accounts::Account| #[trigger] did(2, id, m) && m.cv(r->Ok_0),
        (server_ok(caller(), Permission::ManageAccounts)) && r is Err ==> refused(2, id),
//@end
//@fn src/platform/src/accounts.rs Accounts::list | ret=r block args=ctx
//@contract
    requires ctx == caller(), 
    ensures !(server_ok(caller(), Permission::ManageAccounts)) ==> forbidden(r),
        (server_ok(caller(), Permission::ManageAccounts)) && r is Ok ==> exists|m: metadata::metadata::ListResponse<metadata::accounts::Account>| #[trigger] did(3, (), m) && cv_list(m, r->Ok_0),
        (server_ok(caller(), Permission::ManageAccounts)) && r is Err ==> refused(3, ()),
//@end
//@fn src/platform/src/accounts.rs Accounts::update | ret=r block args=ctx,id,req
//@contract
    requires ctx == caller(), 
    ensures !(server_ok(caller(), Permission::ManageAccounts)) ==> forbidden(r),
        (server_ok(caller(), Permission::ManageAccounts)) && r is Ok ==> exists|q: metadata::accounts::UpdateAccountRequest, m: metadata::accounts::Account| #[trigger] did(4, (id, q), m) && changed(req, q) && m.cv(r->Ok_0),
        (server_ok(caller(), Permission::ManageAccounts)) && r is Err ==> (req.password is Some && no_hash(req.password->Some_0@)) || exists|q: metadata::accounts::UpdateAccountRequest| #[trigger] refused(4, (id, q)) && changed(req, q),
//@end
//@fn src/platform/src/accounts.rs Accounts::delete | ret=r block args=ctx,id
//@contract
    requires ctx == caller(), 
    ensures !(server_ok(caller(), Permission::ManageAccounts)) ==> forbidden(r),
        (server_ok(caller(), Permission::ManageAccounts)) && r is Ok ==> exists|m: metadata::accounts::Account| #[trigger] did(5, id, m) && m.cv(r->Ok_0),
        (server_ok(caller(), Permission::ManageAccounts)) && r is Err ==> refused(5, id),
//@end
}
}
//@helpers
} // verus!
fn main() {}
