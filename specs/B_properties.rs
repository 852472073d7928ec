//@rule Arc < metadata :: properties :: Properties > =>> metadata::properties::Properties
//@rule validate_request =>> checked_request
//@known validate_request
//@include base.rs
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::fmt::Debug;
verus! {
//@item src/common/src/rbac.rs Permission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
//@item src/platform/src/context.rs Context | vis=keep
//@include rbacspec.rs
//@include handlers.rs
pub mod metadata { use super::*;
pub mod metadata { use super::*;
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
}
#[verifier::external_body] pub struct MetadataProvider { x: u8 }
pub mod properties { use super::*;
//@item src/metadata/src/properties.rs Status | vis=keep
//@item src/metadata/src/properties.rs Type | vis=keep
//@item src/metadata/src/properties.rs DictionaryType | vis=keep
//@item src/metadata/src/properties.rs Property | vis=keep
//@item src/metadata/src/properties.rs UpdatePropertyRequest | vis=keep
#[verifier::external_body] pub fn no_change() -> (r: UpdatePropertyRequest) ensures r.name is None, r.typ is None, r.data_type is None, r.is_system is None, r.nullable is None, r.is_array is None { unimplemented!() }
#[verifier::external_body] pub struct Properties { x: u8 }
impl Properties {
    #[verifier::external_body] pub fn get_by_id(&self, project_id: u64, id: u64) -> (r: Result<Property>) requires 
        may(project_id, ProjectPermission::ViewSchema),
        ensures r is Ok ==> did(2, (project_id, id), r->Ok_0), r is Err ==> refused(2, (project_id, id)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn list(&self, project_id: u64) -> (r: Result<metadata::ListResponse<Property>>) requires 
        may(project_id, ProjectPermission::ViewSchema),
        ensures r is Ok ==> did(3, project_id, r->Ok_0), r is Err ==> refused(3, project_id) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn update(&self, project_id: u64, id: u64, req: UpdatePropertyRequest) -> (r: Result<Property>) requires 
        may(project_id, ProjectPermission::ManageSchema),
        req.updated_by == caller().account_id,
        ensures r is Ok ==> did(4, (project_id, id, req), r->Ok_0), r is Err ==> refused(4, (project_id, id, req)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn delete(&self, project_id: u64, id: u64) -> (r: Result<Property>) requires 
        may(project_id, ProjectPermission::DeleteSchema),
        ensures r is Ok ==> did(5, (project_id, id), r->Ok_0), r is Err ==> refused(5, (project_id, id)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn get_by_name(&self, project_id: u64, name: &str) -> (r: Result<Property>) requires may(project_id, ProjectPermission::ViewSchema), ensures r is Ok ==> did(8, (project_id, name@), r->Ok_0), r is Err ==> refused(8, (project_id, name@)) && !(r->Err_0 is Forbidden) { unimplemented!() }
}
}
}
pub mod types { use super::*;
//@item src/common/src/types.rs DType | vis=keep
}
pub use types::*;
pub mod query { use super::*; pub struct Context { pub project_id: u64 } impl Context { pub fn new(project_id: u64) -> (r: Context) ensures r.project_id == project_id { Context { project_id } } }
pub mod properties { use super::*; #[verifier::external_body] pub struct PropertyValues { x: u8 } #[verifier::external_body] pub struct Values { x: u8 } #[verifier::external_body] pub struct PropertiesProvider { x: u8 }
impl PropertiesProvider { #[verifier::external_body] pub fn values(&self, ctx: crate::query::Context, req: PropertyValues) -> (r: Result<Values>) requires may(ctx.project_id, ProjectPermission::ExploreReports), ensures r is Ok ==> did(9, (ctx.project_id, req), r->Ok_0), r is Err ==> refused(9, (ctx.project_id, req)) && !(r->Err_0 is Forbidden) { unimplemented!() } } } }
pub mod properties { use super::*; use crate::metadata::properties; use crate::query::properties::PropertiesProvider; use crate::metadata::properties::no_change; use crate::metadata::MetadataProvider;
//@item src/platform/src/properties.rs Status | vis=keep
//@item src/platform/src/properties.rs Type | vis=keep
//@item src/platform/src/properties.rs DictionaryType | vis=keep
//@item src/platform/src/properties.rs Property | vis=keep
//@item src/platform/src/properties.rs UpdatePropertyRequest | vis=keep
//@item src/platform/src/properties.rs Properties | vis=keep
impl Conv<Status> for metadata::properties::Status { open spec fn cv(self, r: Status) -> bool { match self { metadata::properties::Status::Enabled => r == Status::Enabled, metadata::properties::Status::Disabled => r == Status::Disabled } } fn conv(self) -> (r: Status) { c6(self) } }
//@fn src/platform/src/properties.rs [From<metadata::properties::Status> for Status]::from | name=c6 ret=r block args=x_
//@rule Self =>> Status
//@contract
    ensures x_.cv(r),
//@end
impl Conv<metadata::properties::Status> for Status { open spec fn cv(self, r: metadata::properties::Status) -> bool { match self { Status::Enabled => r == metadata::properties::Status::Enabled, Status::Disabled => r == metadata::properties::Status::Disabled } } fn conv(self) -> (r: metadata::properties::Status) { c7(self) } }
//@fn src/platform/src/properties.rs [From<Status> for metadata::properties::Status]::from | name=c7 ret=r block args=x_
//@rule Self =>> metadata::properties::Status
//@contract
    ensures x_.cv(r),
//@end
impl Conv<DictionaryType> for metadata::properties::DictionaryType { open spec fn cv(self, r: DictionaryType) -> bool { match self { metadata::properties::DictionaryType::Int8 => r == DictionaryType::Int8, metadata::properties::DictionaryType::Int16 => r == DictionaryType::Int16, metadata::properties::DictionaryType::Int32 => r == DictionaryType::Int32, metadata::properties::DictionaryType::Int64 => r == DictionaryType::Int64 } }
//@fn src/platform/src/properties.rs [Into<DictionaryType> for properties::DictionaryType]::into | name=conv ret=r block
//@end
}
impl Conv<Property> for metadata::properties::Property { open spec fn cv(self, r: Property) -> bool { self.id == r.id && self.created_at == r.created_at && self.updated_at == r.updated_at && self.created_by == r.created_by && self.updated_by == r.updated_by && self.project_id == r.project_id && self.tags == r.tags && self.name == r.name && self.display_name == r.display_name && self.description == r.description && self.order == r.order && self.data_type == r.data_type && self.hidden == r.hidden && self.is_system == r.is_system && self.nullable == r.nullable && self.is_array == r.is_array && self.is_dictionary == r.is_dictionary && r.events is None && self.status.cv(r.status) && self.dictionary_type.cv(r.dictionary_type) && match self.typ { metadata::properties::Type::Event => r.typ == Type::Event && r.group_id is None, metadata::properties::Type::Group(g) => r.typ == Type::Group && r.group_id == Some(g) } }
//@fn src/platform/src/properties.rs [Into<Property> for metadata::properties::Property]::into | name=conv ret=r block
//@end
}
pub open spec fn changed(x: UpdatePropertyRequest, q: metadata::properties::UpdatePropertyRequest) -> bool { q.updated_by == caller().account_id && x.tags == q.tags && x.display_name == q.display_name && x.description == q.description && x.status.cv(q.status) && q.name is None && q.typ is None && q.data_type is None && q.is_system is None && q.nullable is None && q.is_array is None && q.is_dictionary is None && q.dictionary_type is None }
#[verifier::external_body] pub struct ListPropertyValuesRequest { x: u8 }
#[verifier::external_body] pub struct Value { x: u8 }
pub uninterp spec fn values_in(a: ListPropertyValuesRequest, r: crate::query::properties::PropertyValues) -> bool;
pub uninterp spec fn values_out(a: crate::query::properties::Values, r: ListResponse<Value>) -> bool;
impl Conv<crate::query::properties::PropertyValues> for ListPropertyValuesRequest { open spec fn cv(self, r: crate::query::properties::PropertyValues) -> bool { values_in(self, r) } #[verifier::external_body] fn conv(self) -> (r: crate::query::properties::PropertyValues) { unimplemented!() } }
impl Conv<ListResponse<Value>> for crate::query::properties::Values { open spec fn cv(self, r: ListResponse<Value>) -> bool { values_out(self, r) } #[verifier::external_body] fn conv(self) -> (r: ListResponse<Value>) { unimplemented!() } }
#[verifier::external_body] pub fn checked_request(md: &MetadataProvider, project_id: u64, req: &ListPropertyValuesRequest) -> (r: Result<()>) requires may(project_id, ProjectPermission::ExploreReports), ensures r is Err ==> refused(10, (project_id, *req)) && !(r->Err_0 is Forbidden) { unimplemented!() }
impl Properties {
//@fn src/platform/src/properties.rs Properties::get_by_id | ret=r block args=ctx,project_id,id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ViewSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ViewSchema)) && r is Ok ==> exists|m: metadata::properties::Property| #[trigger] did(2, (project_id, id), m) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ViewSchema)) && r is Err ==> refused(2, (project_id, id)),
//@end
//@fn src/platform/src/properties.rs Properties::list | ret=r block args=ctx,project_id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ViewSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ViewSchema)) && r is Ok ==> exists|m: metadata::metadata::ListResponse<metadata::properties::Property>| #[trigger] did(3, project_id, m) && cv_list(m, r->Ok_0),
        (may(project_id, ProjectPermission::ViewSchema)) && r is Err ==> refused(3, project_id),
//@end
//@fn src/platform/src/properties.rs Properties::update | ret=r block args=ctx,project_id,id,req
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ManageSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ManageSchema)) && r is Ok ==> exists|q: metadata::properties::UpdatePropertyRequest, m: metadata::properties::Property| #[trigger] did(4, (project_id, id, q), m) && changed(req, q) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ManageSchema)) && r is Err ==> exists|q: metadata::properties::UpdatePropertyRequest| #[trigger] refused(4, (project_id, id, q)) && changed(req, q),
//@end
//@fn src/platform/src/properties.rs Properties::delete | ret=r block args=ctx,project_id,id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::DeleteSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::DeleteSchema)) && r is Ok ==> exists|m: metadata::properties::Property| #[trigger] did(5, (project_id, id), m) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::DeleteSchema)) && r is Err ==> refused(5, (project_id, id)),
//@end
//@fn src/platform/src/properties.rs Properties::get_by_name | ret=r block args=ctx,project_id,name
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ViewSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ViewSchema)) && r is Ok ==> exists|m: metadata::properties::Property| #[trigger] did(8, (project_id, name@), m) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ViewSchema)) && r is Err ==> refused(8, (project_id, name@)),
//@end
//@fn src/platform/src/properties.rs Properties::values | ret=r block args=ctx,project_id,req
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ExploreReports)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Ok ==> exists|q: crate::query::properties::PropertyValues, m: crate::query::properties::Values| #[trigger] did(9, (project_id, q), m) && req.cv(q) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ExploreReports)) && r is Err ==> refused(10, (project_id, req)) || exists|q: crate::query::properties::PropertyValues| #[trigger] refused(9, (project_id, q)) && req.cv(q),
//@end
}
}
//@helpers
} // verus!
fn main() {}
