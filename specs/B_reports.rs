//@include base.rs
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::fmt::Debug;
verus! {
//@item src/common/src/rbac.rs Permission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
//@item src/platform/src/context.rs Context | vis=keep
//@include rbacspec.rs
//@include handlers.rs
pub mod metadata { use super::*;
pub mod metadata { use super::*;
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
}
pub mod reports { use super::*;
//@item src/metadata/src/reports.rs Type | vis=keep
//@item src/metadata/src/reports.rs Query | vis=keep
//@item src/metadata/src/reports.rs Report | vis=keep
//@item src/metadata/src/reports.rs CreateReportRequest | vis=keep
//@item src/metadata/src/reports.rs UpdateReportRequest | vis=keep
#[verifier::external_body] pub struct EventSegmentationRequest { x: u8 }
#[verifier::external_body] pub struct Funnel { x: u8 }
#[verifier::external_body] pub struct Reports { x: u8 }
impl Reports {
    #[verifier::external_body] pub fn create(&self, project_id: u64, req: CreateReportRequest) -> (r: Result<Report>) requires 
        may(project_id, ProjectPermission::ManageReports),
        req.created_by == caller().account_id,
        ensures r is Ok ==> did(1, (project_id, req), r->Ok_0), r is Err ==> refused(1, (project_id, req)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn get_by_id(&self, project_id: u64, id: u64) -> (r: Result<Report>) requires 
        may(project_id, ProjectPermission::ExploreReports),
        ensures r is Ok ==> did(2, (project_id, id), r->Ok_0), r is Err ==> refused(2, (project_id, id)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn list(&self, project_id: u64) -> (r: Result<metadata::ListResponse<Report>>) requires 
        may(project_id, ProjectPermission::ExploreReports),
        ensures r is Ok ==> did(3, project_id, r->Ok_0), r is Err ==> refused(3, project_id) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn update(&self, project_id: u64, id: u64, req: UpdateReportRequest) -> (r: Result<Report>) requires 
        may(project_id, ProjectPermission::ManageReports),
        req.updated_by == caller().account_id,
        ensures r is Ok ==> did(4, (project_id, id, req), r->Ok_0), r is Err ==> refused(4, (project_id, id, req)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn delete(&self, project_id: u64, id: u64) -> (r: Result<Report>) requires 
        may(project_id, ProjectPermission::ManageReports),
        ensures r is Ok ==> did(5, (project_id, id), r->Ok_0), r is Err ==> refused(5, (project_id, id)) && !(r->Err_0 is Forbidden) { unimplemented!() }
}
}
}
pub mod reports { use super::*; use crate::metadata::reports::Reports as MDReports;
//@item src/platform/src/reports.rs Type | vis=keep
//@item src/platform/src/reports.rs Query | vis=keep
//@item src/platform/src/reports.rs Report | vis=keep
//@item src/platform/src/reports.rs CreateReportRequest | vis=keep
//@item src/platform/src/reports.rs UpdateReportRequest | vis=keep
//@item src/platform/src/reports.rs Reports | vis=keep
#[verifier::external_body] pub struct EventSegmentationRequest { x: u8 }
#[verifier::external_body] pub struct FunnelRequest { x: u8 }
pub uninterp spec fn seg_in(a: EventSegmentationRequest, r: metadata::reports::EventSegmentationRequest) -> bool;
impl Conv<metadata::reports::EventSegmentationRequest> for EventSegmentationRequest { open spec fn cv(self, r: metadata::reports::EventSegmentationRequest) -> bool { seg_in(self, r) } #[verifier::external_body] fn conv(self) -> (r: metadata::reports::EventSegmentationRequest) { unimplemented!() } }
pub uninterp spec fn seg_out(a: metadata::reports::EventSegmentationRequest, r: EventSegmentationRequest) -> bool;
impl Conv<EventSegmentationRequest> for metadata::reports::EventSegmentationRequest { open spec fn cv(self, r: EventSegmentationRequest) -> bool { seg_out(self, r) } #[verifier::external_body] fn conv(self) -> (r: EventSegmentationRequest) { unimplemented!() } }
pub uninterp spec fn fun_in(a: FunnelRequest, r: metadata::reports::Funnel) -> bool;
impl Conv<metadata::reports::Funnel> for FunnelRequest { open spec fn cv(self, r: metadata::reports::Funnel) -> bool { fun_in(self, r) } #[verifier::external_body] fn conv(self) -> (r: metadata::reports::Funnel) { unimplemented!() } }
pub uninterp spec fn fun_out(a: metadata::reports::Funnel, r: FunnelRequest) -> bool;
impl Conv<FunnelRequest> for metadata::reports::Funnel { open spec fn cv(self, r: FunnelRequest) -> bool { fun_out(self, r) } #[verifier::external_body] fn conv(self) -> (r: FunnelRequest) { unimplemented!() } }
impl Conv<Query> for metadata::reports::Query { open spec fn cv(self, r: Query) -> bool { match (self, r) { (metadata::reports::Query::EventSegmentation(x), Query::EventSegmentation(y)) => x.cv(y), (metadata::reports::Query::Funnel(x), Query::Funnel(y)) => x.cv(y), _ => false } } fn conv(self) -> (r: Query) { c7(self) } }
//@fn src/platform/src/reports.rs [From<metadata::reports::Query> for Query]::from | name=c7 ret=r block args=x_
//@rule Self =>> Query
//@contract
    ensures x_.cv(r),
//@end
impl Conv<metadata::reports::Query> for Query { open spec fn cv(self, r: metadata::reports::Query) -> bool { match (self, r) { (Query::EventSegmentation(x), metadata::reports::Query::EventSegmentation(y)) => x.cv(y), (Query::Funnel(x), metadata::reports::Query::Funnel(y)) => x.cv(y), _ => false } } fn conv(self) -> (r: metadata::reports::Query) { c8(self) } }
//@fn src/platform/src/reports.rs [From<Query> for metadata::reports::Query]::from | name=c8 ret=r block args=x_
//@rule Self =>> metadata::reports::Query
//@contract
    ensures x_.cv(r),
//@end
impl Conv<Type> for metadata::reports::Type { open spec fn cv(self, r: Type) -> bool { match self { metadata::reports::Type::EventSegmentation => r == Type::EventSegmentation, metadata::reports::Type::Funnel => r == Type::Funnel } } fn conv(self) -> (r: Type) { c9(self) } }
//@fn src/platform/src/reports.rs [From<metadata::reports::Type> for Type]::from | name=c9 ret=r block args=x_
//@rule Self =>> Type
//@contract
    ensures x_.cv(r),
//@end
impl Conv<metadata::reports::Type> for Type { open spec fn cv(self, r: metadata::reports::Type) -> bool { match self { Type::EventSegmentation => r == metadata::reports::Type::EventSegmentation, Type::Funnel => r == metadata::reports::Type::Funnel } } fn conv(self) -> (r: metadata::reports::Type) { c10(self) } }
//@fn src/platform/src/reports.rs [From<Type> for metadata::reports::Type]::from | name=c10 ret=r block args=x_
//@rule Self =>> metadata::reports::Type
//@contract
    ensures x_.cv(r),
//@end
impl Conv<Report> for metadata::reports::Report { open spec fn cv(self, r: Report) -> bool { self.id == r.id && self.created_at == r.created_at && self.updated_at == r.updated_at && self.created_by == r.created_by && self.updated_by == r.updated_by && self.project_id == r.project_id && self.tags == r.tags && self.name == r.name && self.description == r.description && self.typ.cv(r.typ) && self.query.cv(r.query) } fn conv(self) -> (r: Report) { c11(self) } }
//@fn src/platform/src/reports.rs [From<metadata::reports::Report> for Report]::from | name=c11 ret=r block args=x_
//@rule Self =>> Report
//@contract
    ensures x_.cv(r),
//@end
pub open spec fn made(x: CreateReportRequest, q: metadata::reports::CreateReportRequest) -> bool { q.created_by == caller().account_id && x.tags == q.tags && x.name == q.name && x.description == q.description && x.typ.cv(q.typ) && x.query.cv(q.query) }
pub open spec fn changed(x: UpdateReportRequest, q: metadata::reports::UpdateReportRequest) -> bool { q.updated_by == caller().account_id && x.tags == q.tags && x.name == q.name && x.description == q.description && x.typ.cv(q.typ) && x.query.cv(q.query) }
impl Reports {
//@fn src/platform/src/reports.rs Reports::create | ret=r block args=ctx,project_id,req
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ManageReports)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ManageReports)) && r is Ok ==> exists|q: metadata::reports::CreateReportRequest, m: metadata::reports::Report| #[trigger] did(1, (project_id, q), m) && made(req, q) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ManageReports)) && r is Err ==> exists|q: metadata::reports::CreateReportRequest| #[trigger] refused(1, (project_id, q)) && made(req, q),
//@end
//@fn src/platform/src/reports.rs Reports::get_by_id | ret=r block args=ctx,project_id,id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ExploreReports)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Ok ==> exists|m: metadata::reports::Report| #[trigger] did(2, (project_id, id), m) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Err ==> refused(2, (project_id, id)),
//@end
//@fn src/platform/src/reports.rs Reports::list | ret=r block args=ctx,project_id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ExploreReports)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Ok ==> exists|m: metadata::metadata::ListResponse<metadata::reports::Report>| #[trigger] did(3, project_id, m) && cv_list(m, r->Ok_0),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Err ==> refused(3, project_id),
//@end
//@fn src/platform/src/reports.rs Reports::update | ret=r block args=ctx,project_id,id,req
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ManageReports)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ManageReports)) && r is Ok ==> exists|q: metadata::reports::UpdateReportRequest, m: metadata::reports::Report| #[trigger] did(4, (project_id, id, q), m) && changed(req, q) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ManageReports)) && r is Err ==> exists|q: metadata::reports::UpdateReportRequest| #[trigger] refused(4, (project_id, id, q)) && changed(req, q),
//@end
//@fn src/platform/src/reports.rs Reports::delete | ret=r block args=ctx,project_id,id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ManageReports)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ManageReports)) && r is Ok ==> exists|m: metadata::reports::Report| #[trigger] did(5, (project_id, id), m) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ManageReports)) && r is Err ==> refused(5, (project_id, id)),
//@end
}
}
//@helpers
} // verus!
fn main() {}
