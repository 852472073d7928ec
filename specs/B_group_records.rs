//@rule dbg ! ( $$e ) ; =>>
//@rule DateTime :: from_timestamp_millis ( $$e ) . unwrap ( ) =>> moment()
//@rule Utc :: now ( ) =>> moment()
//@rule Arc < event_records :: EventRecordsProvider > =>> event_records::Provider
//@rule Arc < query :: event_records :: EventRecordsProvider > =>> event_records::Provider
//@rule validate_search_request =>> checked_request
//@known validate_search_request
//@include base.rs
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::fmt::Debug;
verus! {
//@item src/common/src/rbac.rs Permission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
//@item src/platform/src/context.rs Context | vis=keep
//@include rbacspec.rs
//@include handlers.rs
pub mod metadata { use super::*;
pub mod metadata { use super::*;
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
}
#[verifier::external_body] pub struct MetadataProvider { x: u8 }
}
#[verifier::external_body] pub fn moment() -> Instant { unimplemented!() }
pub mod query { use super::*; 
//@item src/query/src/context.rs Format | vis=keep
pub struct Context { pub project_id: u64, pub format: Format, pub cur_time: Instant }
#[verifier::external_body] pub struct Cells { x: u8 } impl Cells { #[verifier::external_body] pub fn is_empty(&self) -> bool { unimplemented!() } }
pub struct Column { pub data: Cells } pub struct DataTable { pub columns: Vec<Column> }
pub mod group_records { use super::*;
#[verifier::external_body] pub struct GroupRecordsProvider { x: u8 }
#[verifier::external_body] pub struct GroupRecordsSearchRequest { x: u8 }
#[verifier::external_body] pub struct GroupRecord { x: u8 }
impl GroupRecordsProvider {
    #[verifier::external_body] pub fn search(&self, ctx: crate::query::Context, req: GroupRecordsSearchRequest) -> (r: Result<DataTable>) requires may(ctx.project_id, ProjectPermission::ExploreReports), ensures r is Ok ==> did(9, (ctx.project_id, ctx.format, req), r->Ok_0), r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn get_by_id(&self, ctx: crate::query::Context, group_id: usize, id: String) -> (r: Result<GroupRecord>) requires may(ctx.project_id, ProjectPermission::ExploreReports), ensures r is Ok ==> did(9, (ctx.project_id, ctx.format, (group_id, id)), r->Ok_0), r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() }
}
} }
//@item src/platform/src/lib.rs QueryResponseFormat | vis=keep
//@item src/platform/src/lib.rs QueryParams | vis=keep
#[verifier::external_body] pub struct QueryResponse { x: u8 }
impl QueryResponse { #[verifier::external_body] pub fn columns_to_json(columns: Vec<query::Column>) -> (r: Result<QueryResponse>) ensures r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() } #[verifier::external_body] pub fn columns_to_json_compact(columns: Vec<query::Column>) -> (r: Result<QueryResponse>) ensures r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() } }
// the answer's shape follows the format asked for
pub open spec fn fmt(q: QueryParams) -> query::Format { match q.format { Some(QueryResponseFormat::JsonCompact) => query::Format::Compact, _ => query::Format::Regular } }
pub mod group_records { use super::*; use crate::metadata::MetadataProvider; use crate::query::Format; use crate::query::group_records; use crate::query::group_records::GroupRecordsProvider;
//@item src/platform/src/group_records.rs GroupRecords | vis=keep
#[verifier::external_body] pub struct GroupRecordsSearchRequest { x: u8 }
pub uninterp spec fn asked(a: GroupRecordsSearchRequest, r: crate::query::group_records::GroupRecordsSearchRequest) -> bool;
pub uninterp spec fn fixed(p: u64, a: crate::query::group_records::GroupRecordsSearchRequest, r: crate::query::group_records::GroupRecordsSearchRequest) -> bool;
impl Conv<crate::query::group_records::GroupRecordsSearchRequest> for GroupRecordsSearchRequest { open spec fn cv(self, r: crate::query::group_records::GroupRecordsSearchRequest) -> bool { asked(self, r) } #[verifier::external_body] fn conv(self) -> (r: crate::query::group_records::GroupRecordsSearchRequest) { unimplemented!() } }
#[verifier::external_body] pub fn fix_search_request(md: &MetadataProvider, project_id: u64, req: crate::query::group_records::GroupRecordsSearchRequest) -> (r: Result<crate::query::group_records::GroupRecordsSearchRequest>) requires may(project_id, ProjectPermission::ExploreReports), ensures r is Ok ==> fixed(project_id, req, r->Ok_0), r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() }
#[verifier::external_body] pub fn checked_request(md: &MetadataProvider, project_id: u64, req: &GroupRecordsSearchRequest) -> (r: Result<()>) requires may(project_id, ProjectPermission::ExploreReports), ensures r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() }
#[verifier::external_body] pub struct GroupRecord { x: u8 }
pub uninterp spec fn shown(a: crate::query::group_records::GroupRecord, r: GroupRecord) -> bool;
impl Conv<GroupRecord> for crate::query::group_records::GroupRecord { open spec fn cv(self, r: GroupRecord) -> bool { shown(self, r) } #[verifier::external_body] fn conv(self) -> (r: GroupRecord) { unimplemented!() } }
impl GroupRecords {
//@fn src/platform/src/group_records.rs GroupRecords::search | ret=r block args=ctx,project_id,req,query
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ExploreReports)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Ok ==> exists|a: crate::query::group_records::GroupRecordsSearchRequest, q: crate::query::group_records::GroupRecordsSearchRequest, m: crate::query::DataTable| req.cv(a) && #[trigger] fixed(project_id, a, q) && #[trigger] did(9, (project_id, fmt(query), q), m),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Err ==> !forbidden(r),
//@end
//@fn src/platform/src/group_records.rs GroupRecords::get_by_id | ret=r block args=ctx,project_id,group_id,id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ExploreReports)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Ok ==> exists|m: crate::query::group_records::GroupRecord| #[trigger] did(9, (project_id, crate::query::Format::Regular, (group_id, id)), m) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Err ==> !forbidden(r),
//@end
}
}
//@helpers
} // verus!
fn main() {}
