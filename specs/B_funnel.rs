//@rule dbg ! ( $$e ) ; =>>
//@rule DateTime :: from_timestamp_millis ( $$e ) . unwrap ( ) =>> moment()
//@rule Utc :: now ( ) =>> moment()
//@rule qdata . steps . iter ( ) . map ( | step | $$e ) . collect :: < Vec < _ > > ( ) =>> same_steps(&qdata.steps)
//@rule qdata . groups =>> qdata.groups
//@rule validate_request =>> checked_request
//@known validate_request
//@include base.rs
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::fmt::Debug;
verus! {
//@item src/common/src/rbac.rs Permission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
//@item src/platform/src/context.rs Context | vis=keep
//@include rbacspec.rs
//@include handlers.rs
pub mod metadata { use super::*;
pub mod metadata { use super::*;
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
}
#[verifier::external_body] pub struct MetadataProvider { x: u8 }
}
#[verifier::external_body] pub fn moment() -> Instant { unimplemented!() }
pub mod query { use super::*; 
//@item src/query/src/context.rs Format | vis=keep
pub struct Context { pub project_id: u64, pub format: Format, pub cur_time: Instant }
#[verifier::external_body] pub struct Cells { x: u8 } impl Cells { #[verifier::external_body] pub fn is_empty(&self) -> bool { unimplemented!() } }
pub struct Column { pub data: Cells } pub struct DataTable { pub columns: Vec<Column> }
pub mod funnel { use super::*;
#[verifier::external_body] pub struct FunnelProvider { x: u8 }
#[verifier::external_body] pub struct Funnel { x: u8 }
#[verifier::external_body] pub struct Steps { x: u8 }
pub struct Answer { pub groups: Vec<String>, pub steps: Steps }
impl FunnelProvider {
    #[verifier::external_body] pub fn funnel(&self, ctx: crate::query::Context, req: Funnel) -> (r: Result<Answer>) requires may(ctx.project_id, ProjectPermission::ExploreReports), ensures r is Ok ==> did(9, (ctx.project_id, ctx.format, req), r->Ok_0), r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() }
}
} }
//@item src/platform/src/lib.rs QueryResponseFormat | vis=keep
//@item src/platform/src/lib.rs QueryParams | vis=keep
#[verifier::external_body] pub struct QueryResponse { x: u8 }
impl QueryResponse { #[verifier::external_body] pub fn columns_to_json(columns: Vec<query::Column>) -> (r: Result<QueryResponse>) ensures r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() } #[verifier::external_body] pub fn columns_to_json_compact(columns: Vec<query::Column>) -> (r: Result<QueryResponse>) ensures r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() } }
// the answer's shape follows the format asked for
pub open spec fn fmt(q: QueryParams) -> query::Format { match q.format { Some(QueryResponseFormat::JsonCompact) => query::Format::Compact, _ => query::Format::Regular } }
pub mod funnel { use super::*; use crate::metadata::MetadataProvider; use crate::query::Format; use crate::query::funnel; use crate::query::funnel::FunnelProvider;
//@item src/platform/src/funnel.rs Funnel | vis=keep
#[verifier::external_body] pub struct FunnelRequest { x: u8 }
pub uninterp spec fn asked(a: FunnelRequest, r: crate::query::funnel::Funnel) -> bool;
pub uninterp spec fn fixed(p: u64, a: crate::query::funnel::Funnel, r: crate::query::funnel::Funnel) -> bool;
impl Conv<crate::query::funnel::Funnel> for FunnelRequest { open spec fn cv(self, r: crate::query::funnel::Funnel) -> bool { asked(self, r) } #[verifier::external_body] fn conv(self) -> (r: crate::query::funnel::Funnel) { unimplemented!() } }
#[verifier::external_body] pub fn fix_request(md: &MetadataProvider, project_id: u64, req: crate::query::funnel::Funnel) -> (r: Result<crate::query::funnel::Funnel>) requires may(project_id, ProjectPermission::ExploreReports), ensures r is Ok ==> fixed(project_id, req, r->Ok_0), r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() }
#[verifier::external_body] pub fn checked_request(md: &MetadataProvider, project_id: u64, req: &FunnelRequest) -> (r: Result<()>) requires may(project_id, ProjectPermission::ExploreReports), ensures r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() }
#[verifier::external_body] pub struct FunnelSteps { x: u8 } pub struct FunnelResponse { pub groups: Vec<String>, pub steps: FunnelSteps }
pub uninterp spec fn step_rows(a: crate::query::funnel::Steps, b: FunnelSteps) -> bool;
#[verifier::external_body] pub fn same_steps(a: &crate::query::funnel::Steps) -> (r: FunnelSteps) ensures step_rows(*a, r) { unimplemented!() }
impl Funnel {
//@fn src/platform/src/funnel.rs Funnel::funnel | ret=r block args=ctx,project_id,req,query
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ExploreReports)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Ok ==> exists|a: crate::query::funnel::Funnel, q: crate::query::funnel::Funnel, m: crate::query::funnel::Answer| req.cv(a) && #[trigger] fixed(project_id, a, q) && #[trigger] did(9, (project_id, fmt(query), q), m) && m.groups == r->Ok_0.groups && step_rows(m.steps, r->Ok_0.steps),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Err ==> !forbidden(r),
//@end
}
}
//@helpers
} // verus!
fn main() {}
