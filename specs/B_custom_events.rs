//@rule common :: query =>> metadata::custom_events
//@rule event . to_owned ( ) =>> event
//@include base.rs
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::fmt::Debug;
verus! {
//@item src/common/src/rbac.rs Permission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
//@item src/platform/src/context.rs Context | vis=keep
//@include rbacspec.rs
//@include handlers.rs
pub mod metadata { use super::*;
pub mod metadata { use super::*;
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
}
pub mod custom_events { use super::*;
//@item src/common/src/query.rs EventRef | vis=keep
#[verifier::external_body] pub struct PropValueFilter { x: u8 }
//@item src/metadata/src/custom_events.rs Status | vis=keep
//@item src/metadata/src/custom_events.rs Event | vis=keep
//@item src/metadata/src/custom_events.rs CustomEvent | vis=keep
//@item src/metadata/src/custom_events.rs CreateCustomEventRequest | vis=keep
//@item src/metadata/src/custom_events.rs UpdateCustomEventRequest | vis=keep
#[verifier::external_body] pub fn no_change() -> (r: UpdateCustomEventRequest) ensures r.is_system is None, r.events is None { unimplemented!() }
#[verifier::external_body] pub struct CustomEvents { x: u8 }
impl CustomEvents {
    #[verifier::external_body] pub fn create(&self, project_id: u64, req: CreateCustomEventRequest) -> (r: Result<CustomEvent>) requires 
        may(project_id, ProjectPermission::ManageSchema),
        req.created_by == caller().account_id,
        ensures r is Ok ==> did(1, (project_id, req), r->Ok_0), r is Err ==> refused(1, (project_id, req)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn get_by_id(&self, project_id: u64, id: u64) -> (r: Result<CustomEvent>) requires 
        may(project_id, ProjectPermission::ViewSchema),
        ensures r is Ok ==> did(2, (project_id, id), r->Ok_0), r is Err ==> refused(2, (project_id, id)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn list(&self, project_id: u64) -> (r: Result<metadata::ListResponse<CustomEvent>>) requires 
        may(project_id, ProjectPermission::ViewSchema),
        ensures r is Ok ==> did(3, project_id, r->Ok_0), r is Err ==> refused(3, project_id) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn update(&self, project_id: u64, id: u64, req: UpdateCustomEventRequest) -> (r: Result<CustomEvent>) requires 
        may(project_id, ProjectPermission::ManageSchema),
        req.updated_by == caller().account_id,
        ensures r is Ok ==> did(4, (project_id, id, req), r->Ok_0), r is Err ==> refused(4, (project_id, id, req)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn delete(&self, project_id: u64, id: u64) -> (r: Result<CustomEvent>) requires 
        may(project_id, ProjectPermission::DeleteSchema),
        ensures r is Ok ==> did(5, (project_id, id), r->Ok_0), r is Err ==> refused(5, (project_id, id)) && !(r->Err_0 is Forbidden) { unimplemented!() }
}
}
}
pub mod custom_events { use super::*; use crate::metadata::custom_events::CustomEvents as MDCustomEvents; use crate::metadata::custom_events::no_change;
//@item src/platform/src/custom_events.rs Status | vis=keep
//@item src/platform/src/custom_events.rs Event | vis=keep
//@item src/platform/src/custom_events.rs CustomEvent | vis=keep
//@item src/platform/src/custom_events.rs CreateCustomEventRequest | vis=keep
//@item src/platform/src/custom_events.rs UpdateCustomEventRequest | vis=keep
//@item src/platform/src/custom_events.rs CustomEvents | vis=keep
impl Conv<Status> for metadata::custom_events::Status { open spec fn cv(self, r: Status) -> bool { match self { metadata::custom_events::Status::Enabled => r == Status::Enabled, metadata::custom_events::Status::Disabled => r == Status::Disabled } } fn conv(self) -> (r: Status) { c6(self) } }
//@fn src/platform/src/custom_events.rs [From<metadata::custom_events::Status> for Status]::from | name=c6 ret=r block args=x_
//@rule Self =>> Status
//@contract
    ensures x_.cv(r),
//@end
impl Conv<metadata::custom_events::Status> for Status { open spec fn cv(self, r: metadata::custom_events::Status) -> bool { match self { Status::Enabled => r == metadata::custom_events::Status::Enabled, Status::Disabled => r == metadata::custom_events::Status::Disabled } } fn conv(self) -> (r: metadata::custom_events::Status) { c7(self) } }
//@fn src/platform/src/custom_events.rs [From<Status> for metadata::custom_events::Status]::from | name=c7 ret=r block args=x_
//@rule Self =>> metadata::custom_events::Status
//@contract
    ensures x_.cv(r),
//@end
//@item src/platform/src/lib.rs EventRef | vis=keep
#[verifier::external_body] pub struct PropValueFilter { x: u8 }
pub uninterp spec fn filter_in(a: PropValueFilter, r: metadata::custom_events::PropValueFilter) -> bool;
impl Conv<metadata::custom_events::PropValueFilter> for PropValueFilter { open spec fn cv(self, r: metadata::custom_events::PropValueFilter) -> bool { filter_in(self, r) } #[verifier::external_body] fn conv(self) -> (r: metadata::custom_events::PropValueFilter) { unimplemented!() } }
pub uninterp spec fn filter_out(a: metadata::custom_events::PropValueFilter, r: PropValueFilter) -> bool;
impl Conv<PropValueFilter> for metadata::custom_events::PropValueFilter { open spec fn cv(self, r: PropValueFilter) -> bool { filter_out(self, r) } #[verifier::external_body] fn conv(self) -> (r: PropValueFilter) { unimplemented!() } }
impl Conv<metadata::custom_events::EventRef> for EventRef { open spec fn cv(self, r: metadata::custom_events::EventRef) -> bool { match self { EventRef::Regular { event_name } => r == metadata::custom_events::EventRef::RegularName(event_name), EventRef::Custom { event_id } => r == metadata::custom_events::EventRef::Custom(event_id) } } fn conv(self) -> (r: metadata::custom_events::EventRef) { c9(self) } }
//@fn src/platform/src/lib.rs [From<EventRef> for common::query::EventRef]::from | name=c9 ret=r block args=x_
//@rule Self =>> metadata::custom_events::EventRef
//@contract
    ensures x_.cv(r),
//@end
impl Conv<EventRef> for metadata::custom_events::EventRef { open spec fn cv(self, r: EventRef) -> bool { match self { metadata::custom_events::EventRef::RegularName(n) => r == EventRef::Regular { event_name: n }, metadata::custom_events::EventRef::Custom(i) => r == EventRef::Custom { event_id: i }, _ => true } }
//@fn src/platform/src/lib.rs [Into<EventRef> for common::query::EventRef]::into | name=conv ret=r block
//@rule unimplemented ! ( ) =>> panics()
//@end
}
impl Conv<metadata::custom_events::Event> for Event { open spec fn cv(self, r: metadata::custom_events::Event) -> bool { self.event.cv(r.event) && self.filters.cv(r.filters) }
//@fn src/platform/src/custom_events.rs [Into<metadata::custom_events::Event> for Event]::into | name=conv ret=r block
//@end
}
impl Conv<Event> for metadata::custom_events::Event { open spec fn cv(self, r: Event) -> bool { self.event.cv(r.event) && self.filters.cv(r.filters) }
//@fn src/platform/src/custom_events.rs [Into<Event> for metadata::custom_events::Event]::into | name=conv ret=r block
//@end
}
impl Conv<CustomEvent> for metadata::custom_events::CustomEvent { open spec fn cv(self, r: CustomEvent) -> bool { self.id == r.id && self.created_at == r.created_at && self.updated_at == r.updated_at && self.created_by == r.created_by && self.updated_by == r.updated_by && self.project_id == r.project_id && self.tags == r.tags && self.name == r.name && self.description == r.description && self.is_system == r.is_system && self.status.cv(r.status) && self.events.cv(r.events) }
//@fn src/platform/src/custom_events.rs [Into<CustomEvent> for metadata::custom_events::CustomEvent]::into | name=conv ret=r block
//@end
}
pub open spec fn made(x: CreateCustomEventRequest, q: metadata::custom_events::CreateCustomEventRequest) -> bool { q.created_by == caller().account_id && x.tags == q.tags && x.name == q.name && x.description == q.description && x.is_system == q.is_system && x.status.cv(q.status) && x.events.cv(q.events) }
pub open spec fn changed(x: UpdateCustomEventRequest, q: metadata::custom_events::UpdateCustomEventRequest) -> bool { q.updated_by == caller().account_id && x.tags == q.tags && x.name == q.name && x.description == q.description && x.status.cv(q.status) && x.events.cv(q.events) && q.is_system is None }
impl CustomEvents {
//@fn src/platform/src/custom_events.rs CustomEvents::create | ret=r block args=ctx,project_id,req
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ManageSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ManageSchema)) && r is Ok ==> exists|q: metadata::custom_events::CreateCustomEventRequest, m: metadata::custom_events::CustomEvent| #[trigger] did(1, (project_id, q), m) && made(req, q) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ManageSchema)) && r is Err ==> exists|q: metadata::custom_events::CreateCustomEventRequest| #[trigger] refused(1, (project_id, q)) && made(req, q),
//@end
//@fn src/platform/src/custom_events.rs CustomEvents::get_by_id | ret=r block args=ctx,project_id,id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ViewSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ViewSchema)) && r is Ok ==> exists|m: metadata::custom_events::CustomEvent| #[trigger] did(2, (project_id, id), m) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ViewSchema)) && r is Err ==> refused(2, (project_id, id)),
//@end
//@fn src/platform/src/custom_events.rs CustomEvents::list | ret=r block args=ctx,project_id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ViewSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ViewSchema)) && r is Ok ==> exists|m: metadata::metadata::ListResponse<metadata::custom_events::CustomEvent>| #[trigger] did(3, project_id, m) && cv_list(m, r->Ok_0),
        (may(project_id, ProjectPermission::ViewSchema)) && r is Err ==> refused(3, project_id),
//@end
//@fn src/platform/src/custom_events.rs CustomEvents::update | ret=r block args=ctx,project_id,id,req
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ManageSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ManageSchema)) && r is Ok ==> exists|q: metadata::custom_events::UpdateCustomEventRequest, m: metadata::custom_events::CustomEvent| #[trigger] did(4, (project_id, id, q), m) && changed(req, q) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ManageSchema)) && r is Err ==> exists|q: metadata::custom_events::UpdateCustomEventRequest| #[trigger] refused(4, (project_id, id, q)) && changed(req, q),
//@end
//@fn src/platform/src/custom_events.rs CustomEvents::delete | ret=r block args=ctx,project_id,id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::DeleteSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::DeleteSchema)) && r is Ok ==> exists|m: metadata::custom_events::CustomEvent| #[trigger] did(5, (project_id, id), m) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::DeleteSchema)) && r is Err ==> refused(5, (project_id, id)),
//@end
}
}
//@helpers
} // verus!
fn main() {}
