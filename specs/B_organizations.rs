//@include base.rs
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::fmt::Debug;
verus! {
//@item src/common/src/rbac.rs Permission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
//@item src/platform/src/context.rs Context | vis=keep
//@include rbacspec.rs
//@include handlers.rs
pub mod metadata { use super::*;
pub mod metadata { use super::*;
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
}
pub struct MetadataProvider { pub organizations: organizations::Organizations }
pub mod organizations { use super::*;
//@item src/metadata/src/organizations.rs Organization | vis=keep
//@item src/metadata/src/organizations.rs CreateOrganizationRequest | vis=keep
//@item src/metadata/src/organizations.rs UpdateOrganizationRequest | vis=keep
#[verifier::external_body] pub struct Organizations { x: u8 }
impl Organizations {
    #[verifier::external_body] pub fn create(&self, req: CreateOrganizationRequest) -> (r: Result<Organization>) requires 
        server_ok(caller(), Permission::ManageOrganizations),
        req.created_by == caller().account_id,
        ensures r is Ok ==> did(1, req, r->Ok_0), r is Err ==> refused(1, req) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn get_by_id(&self, id: u64) -> (r: Result<Organization>) requires 
        may_org(caller(), id, OrganizationPermission::ViewOrganization),
        ensures r is Ok ==> did(2, id, r->Ok_0), r is Err ==> refused(2, id) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn list(&self, ) -> (r: Result<metadata::ListResponse<Organization>>) requires 
        server_ok(caller(), Permission::ViewOrganizations),
        ensures r is Ok ==> did(3, (), r->Ok_0), r is Err ==> refused(3, ()) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn update(&self, id: u64, req: UpdateOrganizationRequest) -> (r: Result<Organization>) requires 
        may_org(caller(), id, OrganizationPermission::ManageOrganization),
        req.updated_by == caller().account_id,
        ensures r is Ok ==> did(4, (id, req), r->Ok_0), r is Err ==> refused(4, (id, req)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn delete(&self, id: u64) -> (r: Result<Organization>) requires 
        server_ok(caller(), Permission::ManageOrganizations),
        ensures r is Ok ==> did(5, id, r->Ok_0), r is Err ==> refused(5, id) && !(r->Err_0 is Forbidden) { unimplemented!() }
}
}
}
pub mod organizations { use super::*; use crate::metadata::MetadataProvider;
//@item src/platform/src/organizations.rs Organization | vis=keep
//@item src/platform/src/organizations.rs CreateOrganizationRequest | vis=keep
//@item src/platform/src/organizations.rs UpdateOrganizationRequest | vis=keep
//@item src/platform/src/organizations.rs Organizations | vis=keep
impl Conv<Organization> for metadata::organizations::Organization { open spec fn cv(self, r: Organization) -> bool { self.id == r.id && self.created_at == r.created_at && self.updated_at == r.updated_at && self.created_by == r.created_by && self.updated_by == r.updated_by && self.name == r.name } fn conv(self) -> (r: Organization) { c4(self) } }
//@fn src/platform/src/organizations.rs [From<metadata::organizations::Organization> for crate::organizations::Organization]::from | name=c4 ret=r block args=x_
//@rule Self =>> Organization
//@contract
    ensures x_.cv(r),
//@end
pub open spec fn seen() -> spec_fn(metadata::organizations::Organization) -> bool { |o_: metadata::organizations::Organization| may_org(caller(), o_.id, OrganizationPermission::ViewOrganization) }
impl Organizations {
//@fn src/platform/src/organizations.rs Organizations::create | ret=r block args=ctx,req
//@contract
    requires ctx == caller(), 
    ensures !(server_ok(caller(), Permission::ManageOrganizations)) ==> forbidden(r),
        (server_ok(caller(), Permission::ManageOrganizations)) && r is Ok ==> exists|q: metadata::organizations::CreateOrganizationRequest, m: metadata::organizations::Organization| #[trigger] did(1, q, m) && q.created_by == caller().account_id && q.name == req.name && m.cv(r->Ok_0),
        (server_ok(caller(), Permission::ManageOrganizations)) && r is Err ==> exists|q: metadata::organizations::CreateOrganizationRequest| #[trigger] refused(1, q) && q.created_by == caller().account_id && q.name == req.name,
//@end
//@fn src/platform/src/organizations.rs Organizations::get_by_id | ret=r block args=ctx,id
//@contract
    requires ctx == caller(), 
    ensures !(may_org(caller(), id, OrganizationPermission::ViewOrganization)) ==> forbidden(r),
        (may_org(caller(), id, OrganizationPermission::ViewOrganization)) && r is Ok ==> exists|m: metadata::organizations::Organization| #[trigger] did(2, id, m) && m.cv(r->Ok_0),
        (may_org(caller(), id, OrganizationPermission::ViewOrganization)) && r is Err ==> refused(2, id),
//@end
//@fn src/platform/src/organizations.rs Organizations::list | ret=r block args=ctx
//@contract
    requires ctx == caller(), 
    ensures !(server_ok(caller(), Permission::ViewOrganizations)) ==> forbidden(r),
        (server_ok(caller(), Permission::ViewOrganizations)) && r is Ok ==> exists|m: metadata::metadata::ListResponse<metadata::organizations::Organization>| #[trigger] did(3, (), m) && cv_all(m.data@.filter(seen()), r->Ok_0.data@) && r->Ok_0.meta.next == m.meta.next,
        (server_ok(caller(), Permission::ViewOrganizations)) && r is Err ==> refused(3, ()),
//@rule resp . data . into_iter ( ) . filter ( | o | $$e ) . collect :: < Vec < _ > > ( ) =>> { let src_ = resp.data; let mut out_: Vec<metadata::organizations::Organization> = Vec::new(); let mut k_: usize = 0; proof { reveal(Seq::filter); } while k_ < src_.len() invariant k_ <= src_@.len(), out_@ == src_@.take(k_ as int).filter(seen()) decreases src_@.len() - k_ { let o = &src_[k_]; let keep_ = $e; proof { reveal(Seq::filter); assert(src_@.take(k_ + 1).drop_last() =~= src_@.take(k_ as int)); assert(src_@.take(k_ + 1).last() == src_@[k_ as int]); } if keep_ { out_.push(same_as(o)); } k_ += 1; } proof { assert(src_@.take(k_ as int) =~= src_@); } out_ }
//@end
//@fn src/platform/src/organizations.rs Organizations::update | ret=r block args=ctx,id,req
//@contract
    requires ctx == caller(), 
    ensures !(may_org(caller(), id, OrganizationPermission::ManageOrganization)) ==> forbidden(r),
        (may_org(caller(), id, OrganizationPermission::ManageOrganization)) && r is Ok ==> exists|q: metadata::organizations::UpdateOrganizationRequest, m: metadata::organizations::Organization| #[trigger] did(4, (id, q), m) && q.updated_by == caller().account_id && q.name == req.name && m.cv(r->Ok_0),
        (may_org(caller(), id, OrganizationPermission::ManageOrganization)) && r is Err ==> exists|q: metadata::organizations::UpdateOrganizationRequest| #[trigger] refused(4, (id, q)) && q.updated_by == caller().account_id && q.name == req.name,
//@end
//@fn src/platform/src/organizations.rs Organizations::delete | ret=r block args=ctx,id
//@contract
    requires ctx == caller(), 
    ensures !(server_ok(caller(), Permission::ManageOrganizations)) ==> forbidden(r),
        (server_ok(caller(), Permission::ManageOrganizations)) && r is Ok ==> exists|m: metadata::organizations::Organization| #[trigger] did(5, id, m) && m.cv(r->Ok_0),
        (server_ok(caller(), Permission::ManageOrganizations)) && r is Err ==> refused(5, id),
//@end
}
}
//@helpers
} // verus!
fn main() {}
