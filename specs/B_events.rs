//@include base.rs
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::fmt::Debug;
verus! {
//@item src/common/src/rbac.rs Permission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
//@item src/platform/src/context.rs Context | vis=keep
//@include rbacspec.rs
//@include handlers.rs
pub mod metadata { use super::*;
pub mod metadata { use super::*;
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
}
pub mod events { use super::*;
//@item src/metadata/src/events.rs Status | vis=keep
//@item src/metadata/src/events.rs Event | vis=keep
//@item src/metadata/src/events.rs CreateEventRequest | vis=keep
//@item src/metadata/src/events.rs UpdateEventRequest | vis=keep
#[verifier::external_body] pub fn no_change() -> (r: UpdateEventRequest) ensures r.name is None, r.is_system is None, r.event_properties is None, r.user_properties is None, r.custom_properties is None { unimplemented!() }
#[verifier::external_body] pub struct Events { x: u8 }
impl Events {
    #[verifier::external_body] pub fn create(&self, project_id: u64, req: CreateEventRequest) -> (r: Result<Event>) requires 
        may(project_id, ProjectPermission::ManageSchema),
        req.created_by == caller().account_id,
        ensures r is Ok ==> did(1, (project_id, req), r->Ok_0), r is Err ==> refused(1, (project_id, req)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn get_by_id(&self, project_id: u64, id: u64) -> (r: Result<Event>) requires 
        may(project_id, ProjectPermission::ViewSchema),
        ensures r is Ok ==> did(2, (project_id, id), r->Ok_0), r is Err ==> refused(2, (project_id, id)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn list(&self, project_id: u64) -> (r: Result<metadata::ListResponse<Event>>) requires 
        may(project_id, ProjectPermission::ViewSchema),
        ensures r is Ok ==> did(3, project_id, r->Ok_0), r is Err ==> refused(3, project_id) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn update(&self, project_id: u64, id: u64, req: UpdateEventRequest) -> (r: Result<Event>) requires 
        may(project_id, ProjectPermission::ManageSchema),
        req.updated_by == caller().account_id,
        ensures r is Ok ==> did(4, (project_id, id, req), r->Ok_0), r is Err ==> refused(4, (project_id, id, req)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn delete(&self, project_id: u64, id: u64) -> (r: Result<Event>) requires 
        may(project_id, ProjectPermission::DeleteSchema),
        ensures r is Ok ==> did(5, (project_id, id), r->Ok_0), r is Err ==> refused(5, (project_id, id)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn attach_event_property(&self, project_id: u64, event_id: u64, prop_id: u64) -> (r: Result<Event>) requires may(project_id, ProjectPermission::ManageSchema), ensures r is Ok ==> did(6, (project_id, event_id, prop_id), r->Ok_0), r is Err ==> refused(6, (project_id, event_id, prop_id)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn detach_event_property(&self, project_id: u64, event_id: u64, prop_id: u64) -> (r: Result<Event>) requires may(project_id, ProjectPermission::ManageSchema), ensures r is Ok ==> did(7, (project_id, event_id, prop_id), r->Ok_0), r is Err ==> refused(7, (project_id, event_id, prop_id)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn get_by_name(&self, project_id: u64, name: &str) -> (r: Result<Event>) requires may(project_id, ProjectPermission::ViewSchema), ensures r is Ok ==> did(8, (project_id, name@), r->Ok_0), r is Err ==> refused(8, (project_id, name@)) && !(r->Err_0 is Forbidden) { unimplemented!() }
}
}
}
pub mod events { use super::*; use crate::metadata::events::Events as MDEvents; use crate::metadata::events::no_change;
//@item src/platform/src/events.rs Status | vis=keep
//@item src/platform/src/events.rs Event | vis=keep
//@item src/platform/src/events.rs CreateEventRequest | vis=keep
//@item src/platform/src/events.rs UpdateEventRequest | vis=keep
//@item src/platform/src/events.rs Events | vis=keep
impl Conv<Status> for metadata::events::Status { open spec fn cv(self, r: Status) -> bool { match self { metadata::events::Status::Enabled => r == Status::Enabled, metadata::events::Status::Disabled => r == Status::Disabled } } fn conv(self) -> (r: Status) { c5(self) } }
//@fn src/platform/src/events.rs [From<metadata::events::Status> for Status]::from | name=c5 ret=r block args=x_
//@rule Self =>> Status
//@contract
    ensures x_.cv(r),
//@end
impl Conv<metadata::events::Status> for Status { open spec fn cv(self, r: metadata::events::Status) -> bool { match self { Status::Enabled => r == metadata::events::Status::Enabled, Status::Disabled => r == metadata::events::Status::Disabled } } fn conv(self) -> (r: metadata::events::Status) { c6(self) } }
//@fn src/platform/src/events.rs [From<Status> for metadata::events::Status]::from | name=c6 ret=r block args=x_
//@rule Self =>> metadata::events::Status
//@contract
    ensures x_.cv(r),
//@end
impl Conv<Event> for metadata::events::Event { open spec fn cv(self, r: Event) -> bool { self.id == r.id && self.created_at == r.created_at && self.updated_at == r.updated_at && self.created_by == r.created_by && self.updated_by == r.updated_by && self.project_id == r.project_id && self.tags == r.tags && self.name == r.name && self.display_name == r.display_name && self.description == r.description && self.is_system == r.is_system && self.status.cv(r.status) && r.event_properties == self.event_properties && r.user_properties == self.custom_properties }
//@fn src/platform/src/events.rs [Into<Event> for metadata::events::Event]::into | name=conv ret=r block
//@end
}
pub open spec fn made(x: CreateEventRequest, q: metadata::events::CreateEventRequest) -> bool { q.created_by == caller().account_id && x.tags == q.tags && x.name == q.name && x.display_name == q.display_name && x.description == q.description && x.is_system == q.is_system && x.status.cv(q.status) && q.event_properties is None && q.user_properties is None && q.custom_properties is None }
pub open spec fn changed(x: UpdateEventRequest, q: metadata::events::UpdateEventRequest) -> bool { q.updated_by == caller().account_id && x.tags == q.tags && x.display_name == q.display_name && x.description == q.description && x.status.cv(q.status) && q.name is None && q.is_system is None && q.event_properties is None && q.user_properties is None && q.custom_properties is None }
impl Events {
//@fn src/platform/src/events.rs Events::create | ret=r block args=ctx,project_id,req
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ManageSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ManageSchema)) && r is Ok ==> exists|q: metadata::events::CreateEventRequest, m: metadata::events::Event| #[trigger] did(1, (project_id, q), m) && made(req, q) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ManageSchema)) && r is Err ==> exists|q: metadata::events::CreateEventRequest| #[trigger] refused(1, (project_id, q)) && made(req, q),
//@end
//@fn src/platform/src/events.rs Events::get_by_id | ret=r block args=ctx,project_id,id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ViewSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ViewSchema)) && r is Ok ==> exists|m: metadata::events::Event| #[trigger] did(2, (project_id, id), m) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ViewSchema)) && r is Err ==> refused(2, (project_id, id)),
//@end
//@fn src/platform/src/events.rs Events::list | ret=r block args=ctx,project_id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ViewSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ViewSchema)) && r is Ok ==> exists|m: metadata::metadata::ListResponse<metadata::events::Event>| #[trigger] did(3, project_id, m) && cv_list(m, r->Ok_0),
        (may(project_id, ProjectPermission::ViewSchema)) && r is Err ==> refused(3, project_id),
//@end
//@fn src/platform/src/events.rs Events::update | ret=r block args=ctx,project_id,id,req
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ManageSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ManageSchema)) && r is Ok ==> exists|q: metadata::events::UpdateEventRequest, m: metadata::events::Event| #[trigger] did(4, (project_id, id, q), m) && changed(req, q) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ManageSchema)) && r is Err ==> exists|q: metadata::events::UpdateEventRequest| #[trigger] refused(4, (project_id, id, q)) && changed(req, q),
//@end
//@fn src/platform/src/events.rs Events::delete | ret=r block args=ctx,project_id,id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::DeleteSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::DeleteSchema)) && r is Ok ==> exists|m: metadata::events::Event| #[trigger] did(5, (project_id, id), m) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::DeleteSchema)) && r is Err ==> refused(5, (project_id, id)),
//@end
//@fn src/platform/src/events.rs Events::attach_property | ret=r block args=ctx,project_id,event_id,prop_id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ManageSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ManageSchema)) && r is Ok ==> exists|m: metadata::events::Event| #[trigger] did(6, (project_id, event_id, prop_id), m) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ManageSchema)) && r is Err ==> refused(6, (project_id, event_id, prop_id)),
//@end
//@fn src/platform/src/events.rs Events::detach_property | ret=r block args=ctx,project_id,event_id,prop_id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ManageSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ManageSchema)) && r is Ok ==> exists|m: metadata::events::Event| #[trigger] did(7, (project_id, event_id, prop_id), m) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ManageSchema)) && r is Err ==> refused(7, (project_id, event_id, prop_id)),
//@end
//@fn src/platform/src/events.rs Events::get_by_name | ret=r block args=ctx,project_id,name
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ViewSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ViewSchema)) && r is Ok ==> exists|m: metadata::events::Event| #[trigger] did(8, (project_id, name@), m) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ViewSchema)) && r is Err ==> refused(8, (project_id, name@)),
//@end
}
}
//@helpers
} // verus!
fn main() {}
