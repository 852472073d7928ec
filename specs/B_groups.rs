//@rule crate :: Result =>> Result
//@rule crate :: groups :: Group =>> Group
//@rule meta : Default :: default ( ) =>> meta: ResponseMetadata { next: None }
//@rule $x . name . clone ( ) =>> same_as(&$x.name)
//@include base.rs
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::fmt::Debug;
verus! {
//@item src/common/src/rbac.rs Permission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
//@item src/platform/src/context.rs Context | vis=keep
//@include rbacspec.rs
//@include handlers.rs
pub mod metadata { use super::*;
pub mod metadata { use super::*;
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
}
pub mod groups { use super::*;
//@item src/metadata/src/groups.rs Group | vis=keep
#[verifier::external_body] pub struct Groups { x: u8 }
impl Groups {
    #[verifier::external_body] pub fn get_or_create_group(&self, project_id: u64, name: String, display_name: String) -> (r: Result<Group>) requires 
        may(project_id, ProjectPermission::ManageSchema),
        ensures r is Ok ==> did(1, (project_id, name, display_name), r->Ok_0), r is Err ==> refused(1, (project_id, name, display_name)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn list_groups(&self, project_id: u64) -> (r: Result<metadata::ListResponse<Group>>) requires 
        may(project_id, ProjectPermission::ViewSchema),
        ensures r is Ok ==> did(3, project_id, r->Ok_0), r is Err ==> refused(3, project_id) && !(r->Err_0 is Forbidden) { unimplemented!() }
}
}
}
pub mod groups { use super::*; use crate::metadata::groups::Groups as MDGroups;
//@item src/platform/src/groups.rs Group | vis=keep
//@item src/platform/src/groups.rs CreateGroupRequest | vis=keep
//@item src/platform/src/groups.rs Groups | vis=keep
pub open spec fn shown(m: metadata::groups::Group, r: Group) -> bool { r.id == m.id && r.name == m.name }
impl Groups {
//@fn src/platform/src/groups.rs crate::groups::Groups::create | ret=r block args=ctx,project_id,req
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ManageSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ManageSchema)) && r is Ok ==> exists|m: metadata::groups::Group| #[trigger] did(1, (project_id, req.name, req.display_name), m) && shown(m, r->Ok_0),
        (may(project_id, ProjectPermission::ManageSchema)) && r is Err ==> refused(1, (project_id, req.name, req.display_name)),
//@end
//@fn src/platform/src/groups.rs crate::groups::Groups::list | ret=r block args=ctx,project_id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ViewSchema)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ViewSchema)) && r is Ok ==> exists|m: metadata::metadata::ListResponse<metadata::groups::Group>| #[trigger] did(3, project_id, m) && m.data@.len() == r->Ok_0.data@.len() && forall|i: int| 0 <= i < m.data@.len() ==> shown(#[trigger] m.data@[i], r->Ok_0.data@[i]),
        (may(project_id, ProjectPermission::ViewSchema)) && r is Err ==> refused(3, project_id),
//@loop 0 iter=it
    invariant data@.len() == it.index@, it.seq().len() == resp.data@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == resp.data@[i],
        forall|i: int| 0 <= i < data@.len() ==> shown(#[trigger] resp.data@[i], data@[i]),
//@loopstart 0
    proof { assert(*it.seq()[it.index@ as int] == resp.data@[it.index@ as int]); }
//@end
}
}
//@helpers
} // verus!
fn main() {}
