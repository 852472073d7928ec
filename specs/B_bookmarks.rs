//@include base.rs
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::fmt::Debug;
verus! {
//@item src/common/src/rbac.rs Permission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
//@item src/platform/src/context.rs Context | vis=keep
//@include rbacspec.rs
//@include handlers.rs
pub mod metadata { use super::*;
pub mod metadata { use super::*;
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
}
pub mod reports { use super::*;
//@item src/metadata/src/reports.rs Query | vis=keep
#[verifier::external_body] pub struct EventSegmentationRequest { x: u8 }
#[verifier::external_body] pub struct Funnel { x: u8 }
}
pub mod bookmarks { use super::*;
//@item src/metadata/src/bookmarks.rs Bookmark | vis=keep
//@item src/metadata/src/bookmarks.rs CreateBookmarkRequest | vis=keep
pub use crate::metadata::reports::Query;
#[verifier::external_body] pub struct Bookmarks { x: u8 }
impl Bookmarks {
    #[verifier::external_body] pub fn create(&self, project_id: u64, req: CreateBookmarkRequest) -> (r: Result<Bookmark>) requires 
        may(project_id, ProjectPermission::ExploreReports),
        req.created_by == caller().account_id,
        ensures r is Ok ==> did(1, (project_id, req), r->Ok_0), r is Err ==> refused(1, (project_id, req)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn get_by_id(&self, project_id: u64, account_id: u64, id: &str) -> (r: Result<Bookmark>) requires 
        may(project_id, ProjectPermission::ExploreReports),
        account_id == caller().account_id,
        ensures r is Ok ==> did(2, (project_id, account_id, id@), r->Ok_0), r is Err ==> refused(2, (project_id, account_id, id@)) && !(r->Err_0 is Forbidden) { unimplemented!() }
}
}
}
pub mod bookmarks { use super::*; use crate::metadata::bookmarks::Bookmarks as MDBookmarks;
//@item src/platform/src/bookmarks.rs Bookmark | vis=keep
//@item src/platform/src/bookmarks.rs CreateBookmarkRequest | vis=keep
//@item src/platform/src/bookmarks.rs Bookmarks | vis=keep
//@item src/platform/src/reports.rs Query | vis=keep
#[verifier::external_body] pub struct EventSegmentationRequest { x: u8 }
#[verifier::external_body] pub struct FunnelRequest { x: u8 }
pub uninterp spec fn seg_in(a: EventSegmentationRequest, r: metadata::reports::EventSegmentationRequest) -> bool;
impl Conv<metadata::reports::EventSegmentationRequest> for EventSegmentationRequest { open spec fn cv(self, r: metadata::reports::EventSegmentationRequest) -> bool { seg_in(self, r) } #[verifier::external_body] fn conv(self) -> (r: metadata::reports::EventSegmentationRequest) { unimplemented!() } }
pub uninterp spec fn seg_out(a: metadata::reports::EventSegmentationRequest, r: EventSegmentationRequest) -> bool;
impl Conv<EventSegmentationRequest> for metadata::reports::EventSegmentationRequest { open spec fn cv(self, r: EventSegmentationRequest) -> bool { seg_out(self, r) } #[verifier::external_body] fn conv(self) -> (r: EventSegmentationRequest) { unimplemented!() } }
pub uninterp spec fn fun_in(a: FunnelRequest, r: metadata::reports::Funnel) -> bool;
impl Conv<metadata::reports::Funnel> for FunnelRequest { open spec fn cv(self, r: metadata::reports::Funnel) -> bool { fun_in(self, r) } #[verifier::external_body] fn conv(self) -> (r: metadata::reports::Funnel) { unimplemented!() } }
pub uninterp spec fn fun_out(a: metadata::reports::Funnel, r: FunnelRequest) -> bool;
impl Conv<FunnelRequest> for metadata::reports::Funnel { open spec fn cv(self, r: FunnelRequest) -> bool { fun_out(self, r) } #[verifier::external_body] fn conv(self) -> (r: FunnelRequest) { unimplemented!() } }
impl Conv<Query> for metadata::reports::Query { open spec fn cv(self, r: Query) -> bool { match (self, r) { (metadata::reports::Query::EventSegmentation(x), Query::EventSegmentation(y)) => x.cv(y), (metadata::reports::Query::Funnel(x), Query::Funnel(y)) => x.cv(y), _ => false } } fn conv(self) -> (r: Query) { c5(self) } }
//@fn src/platform/src/reports.rs [From<metadata::reports::Query> for Query]::from | name=c5 ret=r block args=x_
//@rule Self =>> Query
//@contract
    ensures x_.cv(r),
//@end
impl Conv<metadata::reports::Query> for Query { open spec fn cv(self, r: metadata::reports::Query) -> bool { match (self, r) { (Query::EventSegmentation(x), metadata::reports::Query::EventSegmentation(y)) => x.cv(y), (Query::Funnel(x), metadata::reports::Query::Funnel(y)) => x.cv(y), _ => false } } fn conv(self) -> (r: metadata::reports::Query) { c6(self) } }
//@fn src/platform/src/reports.rs [From<Query> for metadata::reports::Query]::from | name=c6 ret=r block args=x_
//@rule Self =>> metadata::reports::Query
//@contract
    ensures x_.cv(r),
//@end
impl Conv<Bookmark> for metadata::bookmarks::Bookmark { open spec fn cv(self, r: Bookmark) -> bool { self.id == r.id && self.created_at == r.created_at && self.created_by == r.created_by && self.project_id == r.project_id && self.query.cv(r.query) } fn conv(self) -> (r: Bookmark) { c7(self) } }
//@fn src/platform/src/bookmarks.rs [From<metadata::bookmarks::Bookmark> for Bookmark]::from | name=c7 ret=r block args=x_
//@rule Self =>> Bookmark
//@contract
    ensures x_.cv(r),
//@end
impl Bookmarks {
//@fn src/platform/src/bookmarks.rs Bookmarks::create | ret=r block args=ctx,project_id,req
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ExploreReports)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Ok ==> exists|q: metadata::bookmarks::CreateBookmarkRequest, m: metadata::bookmarks::Bookmark| #[trigger] did(1, (project_id, q), m) && q.created_by == caller().account_id && req.query.cv(q.query) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Err ==> exists|q: metadata::bookmarks::CreateBookmarkRequest| #[trigger] refused(1, (project_id, q)) && q.created_by == caller().account_id && req.query.cv(q.query),
//@end
//@fn src/platform/src/bookmarks.rs Bookmarks::get | ret=r block args=ctx,project_id,id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ExploreReports)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Ok ==> exists|m: metadata::bookmarks::Bookmark| #[trigger] did(2, (project_id, caller().account_id, id@), m) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Err ==> refused(2, (project_id, caller().account_id, id@)),
//@end
}
}
//@helpers
} // verus!
fn main() {}
