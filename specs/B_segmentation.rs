//@rule dbg ! ( $$e ) ; =>>
//@rule DateTime :: from_timestamp_millis ( $$e ) . unwrap ( ) =>> moment()
//@rule Utc :: now ( ) =>> moment()
//@rule validate_request =>> checked_request
//@known validate_request
//@include base.rs
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::fmt::Debug;
verus! {
//@item src/common/src/rbac.rs Permission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
//@item src/platform/src/context.rs Context | vis=keep
//@include rbacspec.rs
//@include handlers.rs
pub mod metadata { use super::*;
pub mod metadata { use super::*;
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
}
#[verifier::external_body] pub struct MetadataProvider { x: u8 }
}
#[verifier::external_body] pub fn moment() -> Instant { unimplemented!() }
pub mod query { use super::*; 
//@item src/query/src/context.rs Format | vis=keep
pub struct Context { pub project_id: u64, pub format: Format, pub cur_time: Instant }
#[verifier::external_body] pub struct Cells { x: u8 } impl Cells { #[verifier::external_body] pub fn is_empty(&self) -> bool { unimplemented!() } }
pub struct Column { pub data: Cells } pub struct DataTable { pub columns: Vec<Column> }
pub mod event_segmentation { use super::*;
#[verifier::external_body] pub struct EventSegmentationProvider { x: u8 }
#[verifier::external_body] pub struct EventSegmentation { x: u8 }
impl EventSegmentationProvider {
    #[verifier::external_body] pub fn event_segmentation(&self, ctx: crate::query::Context, req: EventSegmentation) -> (r: Result<DataTable>) requires may(ctx.project_id, ProjectPermission::ExploreReports), ensures r is Ok ==> did(9, (ctx.project_id, ctx.format, req), r->Ok_0), r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() }
}
} }
//@item src/platform/src/lib.rs QueryResponseFormat | vis=keep
//@item src/platform/src/lib.rs QueryParams | vis=keep
#[verifier::external_body] pub struct QueryResponse { x: u8 }
impl QueryResponse { #[verifier::external_body] pub fn columns_to_json(columns: Vec<query::Column>) -> (r: Result<QueryResponse>) ensures r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() } #[verifier::external_body] pub fn columns_to_json_compact(columns: Vec<query::Column>) -> (r: Result<QueryResponse>) ensures r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() } }
// the answer's shape follows the format asked for
pub open spec fn fmt(q: QueryParams) -> query::Format { match q.format { Some(QueryResponseFormat::JsonCompact) => query::Format::Compact, _ => query::Format::Regular } }
pub mod event_segmentation { use super::*; use crate::metadata::MetadataProvider; use crate::query::Format; use crate::query::event_segmentation; use crate::query::event_segmentation::EventSegmentationProvider;
//@item src/platform/src/event_segmentation.rs EventSegmentation | vis=keep
#[verifier::external_body] pub struct EventSegmentationRequest { x: u8 }
pub uninterp spec fn asked(a: EventSegmentationRequest, r: crate::query::event_segmentation::EventSegmentation) -> bool;
pub uninterp spec fn fixed(p: u64, a: crate::query::event_segmentation::EventSegmentation, r: crate::query::event_segmentation::EventSegmentation) -> bool;
impl Conv<crate::query::event_segmentation::EventSegmentation> for EventSegmentationRequest { open spec fn cv(self, r: crate::query::event_segmentation::EventSegmentation) -> bool { asked(self, r) } #[verifier::external_body] fn conv(self) -> (r: crate::query::event_segmentation::EventSegmentation) { unimplemented!() } }
#[verifier::external_body] pub fn fix_request(md: &MetadataProvider, project_id: u64, req: crate::query::event_segmentation::EventSegmentation) -> (r: Result<crate::query::event_segmentation::EventSegmentation>) requires may(project_id, ProjectPermission::ExploreReports), ensures r is Ok ==> fixed(project_id, req, r->Ok_0), r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() }
#[verifier::external_body] pub fn checked_request(md: &MetadataProvider, project_id: u64, req: &EventSegmentationRequest) -> (r: Result<()>) requires may(project_id, ProjectPermission::ExploreReports), ensures r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() }
impl EventSegmentation {
//@fn src/platform/src/event_segmentation.rs EventSegmentation::event_segmentation | ret=r block args=ctx,project_id,req,query
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ExploreReports)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Ok ==> exists|a: crate::query::event_segmentation::EventSegmentation, q: crate::query::event_segmentation::EventSegmentation, m: crate::query::DataTable| req.cv(a) && #[trigger] fixed(project_id, a, q) && #[trigger] did(9, (project_id, fmt(query), q), m),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Err ==> !forbidden(r),
//@end
}
}
//@helpers
} // verus!
fn main() {}
