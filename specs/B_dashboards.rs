//@include base.rs
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::fmt::Debug;
verus! {
//@item src/common/src/rbac.rs Permission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
//@item src/platform/src/context.rs Context | vis=keep
//@include rbacspec.rs
//@include handlers.rs
pub mod metadata { use super::*;
pub mod metadata { use super::*;
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
}
pub mod dashboards { use super::*;
//@item src/metadata/src/dashboards.rs Type | vis=keep
//@item src/metadata/src/dashboards.rs Panel | vis=keep
//@item src/metadata/src/dashboards.rs Dashboard | vis=keep
//@item src/metadata/src/dashboards.rs CreateDashboardRequest | vis=keep
//@item src/metadata/src/dashboards.rs UpdateDashboardRequest | vis=keep
#[verifier::external_body] pub struct Dashboards { x: u8 }
impl Dashboards {
    #[verifier::external_body] pub fn create(&self, project_id: u64, req: CreateDashboardRequest) -> (r: Result<Dashboard>) requires 
        may(project_id, ProjectPermission::ManageReports),
        req.created_by == caller().account_id,
        ensures r is Ok ==> did(1, (project_id, req), r->Ok_0), r is Err ==> refused(1, (project_id, req)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn get_by_id(&self, project_id: u64, id: u64) -> (r: Result<Dashboard>) requires 
        may(project_id, ProjectPermission::ExploreReports),
        ensures r is Ok ==> did(2, (project_id, id), r->Ok_0), r is Err ==> refused(2, (project_id, id)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn list(&self, project_id: u64) -> (r: Result<metadata::ListResponse<Dashboard>>) requires 
        may(project_id, ProjectPermission::ExploreReports),
        ensures r is Ok ==> did(3, project_id, r->Ok_0), r is Err ==> refused(3, project_id) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn update(&self, project_id: u64, id: u64, req: UpdateDashboardRequest) -> (r: Result<Dashboard>) requires 
        may(project_id, ProjectPermission::ManageReports),
        req.updated_by == caller().account_id,
        ensures r is Ok ==> did(4, (project_id, id, req), r->Ok_0), r is Err ==> refused(4, (project_id, id, req)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn delete(&self, project_id: u64, id: u64) -> (r: Result<Dashboard>) requires 
        may(project_id, ProjectPermission::ManageReports),
        ensures r is Ok ==> did(5, (project_id, id), r->Ok_0), r is Err ==> refused(5, (project_id, id)) && !(r->Err_0 is Forbidden) { unimplemented!() }
}
}
}
pub mod dashboards { use super::*; use crate::metadata::dashboards::Dashboards as MDDashboards;
//@item src/platform/src/dashboards.rs Type | vis=keep
//@item src/platform/src/dashboards.rs Panel | vis=keep
//@item src/platform/src/dashboards.rs Dashboard | vis=keep
//@item src/platform/src/dashboards.rs CreateDashboardRequest | vis=keep
//@item src/platform/src/dashboards.rs UpdateDashboardRequest | vis=keep
//@item src/platform/src/dashboards.rs Dashboards | vis=keep
impl Conv<metadata::dashboards::Type> for crate::dashboards::Type { open spec fn cv(self, r: metadata::dashboards::Type) -> bool { match self { crate::dashboards::Type::Report => r == metadata::dashboards::Type::Report } } fn conv(self) -> (r: metadata::dashboards::Type) { c6(self) } }
//@fn src/platform/src/dashboards.rs [From<crate::dashboards::Type> for metadata::dashboards::Type]::from | name=c6 ret=r block args=x_
//@rule Self =>> metadata::dashboards::Type
//@contract
    ensures x_.cv(r),
//@end
impl Conv<crate::dashboards::Type> for metadata::dashboards::Type { open spec fn cv(self, r: crate::dashboards::Type) -> bool { match self { metadata::dashboards::Type::Report => r == crate::dashboards::Type::Report } } fn conv(self) -> (r: crate::dashboards::Type) { c7(self) } }
//@fn src/platform/src/dashboards.rs [From<metadata::dashboards::Type> for crate::dashboards::Type]::from | name=c7 ret=r block args=x_
//@rule Self =>> crate::dashboards::Type
//@contract
    ensures x_.cv(r),
//@end
impl Conv<metadata::dashboards::Panel> for crate::dashboards::Panel { open spec fn cv(self, r: metadata::dashboards::Panel) -> bool { self.report_id == r.report_id && self.x == r.x && self.y == r.y && self.w == r.w && self.h == r.h && self.typ.cv(r.typ) } fn conv(self) -> (r: metadata::dashboards::Panel) { c8(self) } }
//@fn src/platform/src/dashboards.rs [From<crate::dashboards::Panel> for metadata::dashboards::Panel]::from | name=c8 ret=r block args=x_
//@rule Self =>> metadata::dashboards::Panel
//@contract
    ensures x_.cv(r),
//@end
impl Conv<crate::dashboards::Panel> for metadata::dashboards::Panel { open spec fn cv(self, r: crate::dashboards::Panel) -> bool { self.report_id == r.report_id && self.x == r.x && self.y == r.y && self.w == r.w && self.h == r.h && self.typ.cv(r.typ) } fn conv(self) -> (r: crate::dashboards::Panel) { c9(self) } }
//@fn src/platform/src/dashboards.rs [From<metadata::dashboards::Panel> for crate::dashboards::Panel]::from | name=c9 ret=r block args=x_
//@rule Self =>> crate::dashboards::Panel
//@contract
    ensures x_.cv(r),
//@end
impl Conv<crate::dashboards::Dashboard> for metadata::dashboards::Dashboard { open spec fn cv(self, r: crate::dashboards::Dashboard) -> bool { self.id == r.id && self.created_at == r.created_at && self.updated_at == r.updated_at && self.created_by == r.created_by && self.updated_by == r.updated_by && self.project_id == r.project_id && self.tags == r.tags && self.name == r.name && self.description == r.description && self.panels.cv(r.panels) } fn conv(self) -> (r: crate::dashboards::Dashboard) { c10(self) } }
//@fn src/platform/src/dashboards.rs [From<metadata::dashboards::Dashboard> for crate::dashboards::Dashboard]::from | name=c10 ret=r block args=x_
//@rule Self =>> crate::dashboards::Dashboard
//@contract
    ensures x_.cv(r),
//@end
pub open spec fn made(x: CreateDashboardRequest, q: metadata::dashboards::CreateDashboardRequest) -> bool { q.created_by == caller().account_id && x.tags == q.tags && x.name == q.name && x.description == q.description && x.panels.cv(q.panels) }
pub open spec fn changed(x: UpdateDashboardRequest, q: metadata::dashboards::UpdateDashboardRequest) -> bool { q.updated_by == caller().account_id && x.tags == q.tags && x.name == q.name && x.description == q.description && x.panels.cv(q.panels) }
impl Dashboards {
//@fn src/platform/src/dashboards.rs Dashboards::create | ret=r block args=ctx,project_id,req
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ManageReports)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ManageReports)) && r is Ok ==> exists|q: metadata::dashboards::CreateDashboardRequest, m: metadata::dashboards::Dashboard| #[trigger] did(1, (project_id, q), m) && made(req, q) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ManageReports)) && r is Err ==> exists|q: metadata::dashboards::CreateDashboardRequest| #[trigger] refused(1, (project_id, q)) && made(req, q),
//@end
//@fn src/platform/src/dashboards.rs Dashboards::get_by_id | ret=r block args=ctx,project_id,id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ExploreReports)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Ok ==> exists|m: metadata::dashboards::Dashboard| #[trigger] did(2, (project_id, id), m) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Err ==> refused(2, (project_id, id)),
//@end
//@fn src/platform/src/dashboards.rs Dashboards::list | ret=r block args=ctx,project_id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ExploreReports)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Ok ==> exists|m: metadata::metadata::ListResponse<metadata::dashboards::Dashboard>| #[trigger] did(3, project_id, m) && cv_list(m, r->Ok_0),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Err ==> refused(3, project_id),
//@end
//@fn src/platform/src/dashboards.rs Dashboards::update | ret=r block args=ctx,project_id,id,req
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ManageReports)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ManageReports)) && r is Ok ==> exists|q: metadata::dashboards::UpdateDashboardRequest, m: metadata::dashboards::Dashboard| #[trigger] did(4, (project_id, id, q), m) && changed(req, q) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ManageReports)) && r is Err ==> exists|q: metadata::dashboards::UpdateDashboardRequest| #[trigger] refused(4, (project_id, id, q)) && changed(req, q),
//@end
//@fn src/platform/src/dashboards.rs Dashboards::delete | ret=r block args=ctx,project_id,id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ManageReports)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ManageReports)) && r is Ok ==> exists|m: metadata::dashboards::Dashboard| #[trigger] did(5, (project_id, id), m) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ManageReports)) && r is Err ==> refused(5, (project_id, id)),
//@end
}
}
//@helpers
} // verus!
fn main() {}
