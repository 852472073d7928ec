//@rule TABLE_EVENTS : & str =>> TABLE_EVENTS: &'static str
//@rule Alphanumeric . sample_string ( & mut thread_rng ( ) , 64 ) =>> random_token()
//@rule init_project =>> make_ready
//@known init_project
//@include base.rs
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::fmt::Debug;
verus! {
//@item src/common/src/rbac.rs Permission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
//@item src/platform/src/context.rs Context | vis=keep
//@include rbacspec.rs
//@include handlers.rs
pub mod metadata { use super::*;
pub mod metadata { use super::*;
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
}
pub struct MetadataProvider { pub projects: projects::Projects, pub dictionaries: dictionaries::Dictionaries }
pub mod projects { use super::*;
//@item src/metadata/src/projects.rs Project | vis=keep
//@item src/metadata/src/projects.rs CreateProjectRequest | vis=keep
//@item src/metadata/src/projects.rs UpdateProjectRequest | vis=keep
#[verifier::external_body] pub struct Projects { x: u8 }
impl Projects {
    #[verifier::external_body] pub fn create(&self, req: CreateProjectRequest) -> (r: Result<Project>) requires 
        may_org(caller(), caller().organization_id, OrganizationPermission::ManageProjects),
        req.created_by == caller().account_id,
        req.organization_id == caller().organization_id,
        ensures r is Ok ==> did(1, req, r->Ok_0), r is Err ==> refused(1, req) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn get_by_id(&self, id: u64) -> (r: Result<Project>) requires 
        may(id, ProjectPermission::ViewProject),
        ensures r is Ok ==> did(2, id, r->Ok_0), r is Err ==> refused(2, id) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn list(&self, ) -> (r: Result<metadata::ListResponse<Project>>) requires 
        may_org(caller(), caller().organization_id, OrganizationPermission::ExploreProjects),
        ensures r is Ok ==> did(3, (), r->Ok_0), r is Err ==> refused(3, ()) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn update(&self, project_id: u64, req: UpdateProjectRequest) -> (r: Result<Project>) requires 
        may(project_id, ProjectPermission::ManageProject),
        req.updated_by == caller().account_id,
        ensures r is Ok ==> did(4, (project_id, req), r->Ok_0), r is Err ==> refused(4, (project_id, req)) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn delete(&self, id: u64) -> (r: Result<Project>) requires 
        may(id, ProjectPermission::DeleteProject),
        ensures r is Ok ==> did(5, id, r->Ok_0), r is Err ==> refused(5, id) && !(r->Err_0 is Forbidden) { unimplemented!() }
}
}
pub mod dictionaries { use super::*;
#[verifier::external_body] pub struct Dictionaries { x: u8 }
impl Dictionaries {
    #[verifier::external_body] pub fn create_key(&self, project_id: u64, table: &str, dict: &str, key: u64, value: &str) -> (r: Result<()>) requires 
        true,
        ensures r is Ok ==> did(20, (project_id, table@, dict@, key, value@), r->Ok_0), r is Err ==> refused(20, (project_id, table@, dict@, key, value@)) && !(r->Err_0 is Forbidden) { unimplemented!() }
}
}
}
pub struct Seconds { pub n: i64 } impl Seconds { pub fn num_seconds(&self) -> (r: i64) ensures r == self.n { self.n } }
pub struct Misc { pub project_default_session_duration: Seconds } pub struct Config { pub misc: Misc }
#[verifier::external_body] pub fn random_token() -> String { unimplemented!() }
//@item src/common/src/lib.rs GROUPS_COUNT | vis=keep
//@item src/common/src/types.rs TABLE_EVENTS | vis=keep
pub uninterp spec fn group_table(g: usize) -> Seq<char>;
#[verifier::external_body] pub fn group_col(g: usize) -> (r: String) ensures r@ == group_table(g) { unimplemented!() }
pub uninterp spec fn initialised(p: u64) -> bool;
pub mod projects { use super::*; use crate::metadata::MetadataProvider;
//@item src/platform/src/projects.rs Project | vis=keep
//@item src/platform/src/projects.rs CreateProjectRequest | vis=keep
//@item src/platform/src/projects.rs UpdateProjectRequest | vis=keep
//@item src/platform/src/projects.rs Projects | vis=keep
impl Conv<Project> for metadata::projects::Project { open spec fn cv(self, r: Project) -> bool { self.id == r.id && self.created_at == r.created_at && self.updated_at == r.updated_at && self.created_by == r.created_by && self.updated_by == r.updated_by && self.tags == r.tags && self.name == r.name && self.description == r.description && self.session_duration_seconds == r.session_duration_seconds && self.events_count == r.events_count && r.sdk_token == self.token } fn conv(self) -> (r: Project) { c4(self) } }
//@fn src/platform/src/projects.rs [From<metadata::projects::Project> for Project]::from | name=c4 ret=r block args=x_
//@rule Self =>> Project
//@contract
    ensures x_.cv(r),
//@end
#[verifier::external_body] pub fn make_ready(project_id: u64, md: &MetadataProvider) -> (r: Result<()>) ensures r is Ok ==> initialised(project_id), r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() }
pub open spec fn key_at(m: metadata::projects::Project, table: Seq<char>) -> bool { did(20, (m.id, table, "project_id"@, m.id, m.name@), ()) }
pub open spec fn group_keys(m: metadata::projects::Project, n: int) -> bool { forall|g: usize| #![trigger group_table(g)] 0 <= g < n ==> key_at(m, group_table(g)) }
pub open spec fn keyed(m: metadata::projects::Project) -> bool { key_at(m, TABLE_EVENTS@) && group_keys(m, GROUPS_COUNT as int) }
pub closed spec fn made(s: Projects, x: CreateProjectRequest, q: metadata::projects::CreateProjectRequest) -> bool { q.created_by == caller().account_id && q.organization_id == caller().organization_id && x.tags == q.tags && x.name == q.name && x.description == q.description && q.session_duration_seconds == (match x.session_duration_seconds { Some(n) => n, None => s.cfg.misc.project_default_session_duration.n as u64 }) }
pub open spec fn changed(x: UpdateProjectRequest, q: metadata::projects::UpdateProjectRequest) -> bool { q.updated_by == caller().account_id && x.tags == q.tags && x.token == q.token && x.name == q.name && x.description == q.description && x.session_duration_seconds == q.session_duration_seconds }
pub open spec fn seen() -> spec_fn(metadata::projects::Project) -> bool { |o_: metadata::projects::Project| may(o_.id, ProjectPermission::ViewProject) }
pub open spec fn own() -> spec_fn(metadata::projects::Project) -> bool { |o_: metadata::projects::Project| o_.organization_id == caller().organization_id }
impl Projects {
//@fn src/platform/src/projects.rs Projects::create | ret=r block args=ctx,req
//@contract
    requires ctx == caller(), 
    ensures !(may_org(caller(), caller().organization_id, OrganizationPermission::ManageProjects)) ==> forbidden(r),
        (may_org(caller(), caller().organization_id, OrganizationPermission::ManageProjects)) && r is Ok ==> exists|q: metadata::projects::CreateProjectRequest, m: metadata::projects::Project| #[trigger] did(1, q, m) && made(*self, req, q) && keyed(m) && initialised(m.id) && m.cv(r->Ok_0),
        (may_org(caller(), caller().organization_id, OrganizationPermission::ManageProjects)) && r is Err ==> !forbidden(r),
//@loop 0
    invariant group_keys(project, g as int),
//@end
//@fn src/platform/src/projects.rs Projects::get_by_id | ret=r block args=ctx,id
//@contract
    requires ctx == caller(), 
    ensures !(may(id, ProjectPermission::ViewProject)) ==> forbidden(r),
        (may(id, ProjectPermission::ViewProject)) && r is Ok ==> exists|m: metadata::projects::Project| #[trigger] did(2, id, m) && m.cv(r->Ok_0),
        (may(id, ProjectPermission::ViewProject)) && r is Err ==> refused(2, id),
//@end
//@fn src/platform/src/projects.rs Projects::list | ret=r block args=ctx
//@contract
    requires ctx == caller(), 
    ensures !(may_org(caller(), caller().organization_id, OrganizationPermission::ExploreProjects)) ==> forbidden(r),
        (may_org(caller(), caller().organization_id, OrganizationPermission::ExploreProjects)) && r is Ok ==> exists|m: metadata::metadata::ListResponse<metadata::projects::Project>| #[trigger] did(3, (), m) && cv_all(m.data@.filter(own()).filter(seen()), r->Ok_0.data@) && r->Ok_0.meta.next == m.meta.next,
        (may_org(caller(), caller().organization_id, OrganizationPermission::ExploreProjects)) && r is Err ==> refused(3, ()),
//@rule resp . data . into_iter ( ) . filter ( | p | $$e ) . collect :: < Vec < _ > > ( ) =>> { let src_ = resp.data; let mut out_: Vec<metadata::projects::Project> = Vec::new(); let mut k_: usize = 0; proof { reveal(Seq::filter); } while k_ < src_.len() invariant k_ <= src_@.len(), out_@ == src_@.take(k_ as int).filter(own()) decreases src_@.len() - k_ { let p = &src_[k_]; let keep_ = $e; proof { reveal(Seq::filter); assert(src_@.take(k_ + 1).drop_last() =~= src_@.take(k_ as int)); assert(src_@.take(k_ + 1).last() == src_@[k_ as int]); } if keep_ { out_.push(same_as(p)); } k_ += 1; } proof { assert(src_@.take(k_ as int) =~= src_@); } out_ }
//@rule list . into_iter ( ) . filter ( | p | $$e ) . collect :: < Vec < _ > > ( ) =>> { let src_ = list; let mut out_: Vec<metadata::projects::Project> = Vec::new(); let mut k_: usize = 0; proof { reveal(Seq::filter); } while k_ < src_.len() invariant k_ <= src_@.len(), out_@ == src_@.take(k_ as int).filter(seen()) decreases src_@.len() - k_ { let p = &src_[k_]; let keep_ = $e; proof { reveal(Seq::filter); assert(src_@.take(k_ + 1).drop_last() =~= src_@.take(k_ as int)); assert(src_@.take(k_ + 1).last() == src_@[k_ as int]); } if keep_ { out_.push(same_as(p)); } k_ += 1; } proof { assert(src_@.take(k_ as int) =~= src_@); } out_ }
//@end
//@fn src/platform/src/projects.rs Projects::update | ret=r block args=ctx,project_id,req
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::ManageProject)) ==> forbidden(r),
        (may(project_id, ProjectPermission::ManageProject)) && r is Ok ==> exists|q: metadata::projects::UpdateProjectRequest, m: metadata::projects::Project| #[trigger] did(4, (project_id, q), m) && changed(req, q) && keyed(m) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::ManageProject)) && r is Err ==> !forbidden(r),
//@loop 0
    invariant group_keys(project, g as int),
//@end
//@fn src/platform/src/projects.rs Projects::delete | ret=r block args=ctx,project_id
//@contract
    requires ctx == caller(), 
    ensures !(may(project_id, ProjectPermission::DeleteProject)) ==> forbidden(r),
        (may(project_id, ProjectPermission::DeleteProject)) && r is Ok ==> exists|m: metadata::projects::Project| #[trigger] did(5, project_id, m) && m.cv(r->Ok_0),
        (may(project_id, ProjectPermission::DeleteProject)) && r is Err ==> refused(5, project_id),
//@end
}
}
//@helpers
} // verus!
fn main() {}
