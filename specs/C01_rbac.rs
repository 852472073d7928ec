// C01: the role tables and the three context checks decide access exactly as the published role matrix says
//@include base.rs
//@rule Permission :: $x =>> Permission::$x
//@rule PERMISSIONS . iter ( ) =>> lazy_PERMISSIONS.iter()
//@rule ORGANIZATION_PERMISSIONS . iter ( ) =>> lazy_ORGANIZATION_PERMISSIONS.iter()
//@rule PROJECT_PERMISSIONS . iter ( ) =>> lazy_PROJECT_PERMISSIONS.iter()
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
verus! {
//@item src/common/src/rbac.rs Permission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
//@item src/platform/src/context.rs Context | vis=keep
#[derive(Debug)]
pub enum PlatformError { Forbidden(String) }
type Result<T> = core::result::Result<T, PlatformError>;
//@include stdspec.rs
//@include rbacspec.rs
// a row decides for its role when it holds All or the permission; a table decides when some row does
spec fn has<P>(v: Seq<P>, p: P) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] v[i] == p }
spec fn row<R, P>(t: (R, Vec<P>), r: R, all: P, p: P) -> bool { t.0 == r && (has(t.1@, all) || has(t.1@, p)) }
spec fn table<R, P>(t: Seq<(R, Vec<P>)>, n: int, r: R, all: P, p: P) -> bool { exists|i: int| 0 <= i < n && row(#[trigger] t[i], r, all, p) }

//@static src/common/src/rbac.rs PERMISSIONS | block
//@contract
    ensures forall|x: Role, p: Permission| #[trigger] table(r@, r@.len() as int, x, Permission::All, p) == server_allows(x, p),
//@end
//@static src/common/src/rbac.rs ORGANIZATION_PERMISSIONS | block
//@contract
    ensures forall|x: OrganizationRole, p: OrganizationPermission| #[trigger] table(r@, r@.len() as int, x, OrganizationPermission::All, p) == org_allows(x, p),
//@end
//@static src/common/src/rbac.rs PROJECT_PERMISSIONS | block
//@contract
    ensures forall|x: ProjectRole, p: ProjectPermission| #[trigger] table(r@, r@.len() as int, x, ProjectPermission::All, p) == project_allows(x, p),
//@end
impl Context {
//@fn src/platform/src/context.rs Context::check_permission | ret=r block
//@contract
    ensures r.is_ok() == server_ok(*self, permission),
//@start
    let lazy_PERMISSIONS = PERMISSIONS();
    proof { assert forall|x: Role| #[trigger] server_allows(x, permission) == table(lazy_PERMISSIONS@, lazy_PERMISSIONS@.len() as int, x, Permission::All, permission) by {} }
//@loop 0 iter=it
    invariant
        it.seq().len() == lazy_PERMISSIONS@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == lazy_PERMISSIONS@[i],
        server_allows(*role, permission) == table(lazy_PERMISSIONS@, lazy_PERMISSIONS@.len() as int, *role, Permission::All, permission),
        !table(lazy_PERMISSIONS@, it.index@ as int, *role, Permission::All, permission),
//@loopstart 0
    proof { let t = lazy_PERMISSIONS@[it.index@ as int]; assert(*it.seq()[it.index@ as int] == t); assert(it.index@ < it.seq().len()); }
//@end
//@fn src/platform/src/context.rs Context::get_organization_role | ret=r block
//@contract
    ensures match r { Ok(x) => org_role(*self, organization_id) == Some(x), Err(_) => org_role(*self, organization_id) is None },
//@loop 0 iter=it
    invariant
        it.seq().len() == organizations@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == organizations@[i],
        first(organizations@, organization_id) == first(organizations@.skip(it.index@ as int), organization_id),
//@start
    proof { if self.organizations is Some { assert(self.organizations->0@.skip(0) =~= self.organizations->0@); } }
//@before if * org_id
    proof { lemma_skip(organizations@, it.index@ as int); }
//@end
//@fn src/platform/src/context.rs Context::get_project_role | ret=r block
//@contract
    ensures match r { Ok(x) => proj_role(*self, project_id) == Some(x), Err(_) => proj_role(*self, project_id) is None },
//@loop 0 iter=it
    invariant
        it.seq().len() == projects@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == projects@[i],
        first(projects@, project_id) == first(projects@.skip(it.index@ as int), project_id),
//@start
    proof { if self.projects is Some { assert(self.projects->0@.skip(0) =~= self.projects->0@); } }
//@before if * proj_id
    proof { lemma_skip(projects@, it.index@ as int); }
//@end
//@fn src/platform/src/context.rs Context::check_organization_permission | ret=r block
//@contract
    ensures r.is_ok() == (server_ok(*self, Permission::ManageOrganizations) || (org_role(*self, org_id) is Some && org_allows(org_role(*self, org_id)->0, permission))),
//@start
    let lazy_ORGANIZATION_PERMISSIONS = ORGANIZATION_PERMISSIONS();
    proof { assert forall|x: OrganizationRole| #[trigger] org_allows(x, permission) == table(lazy_ORGANIZATION_PERMISSIONS@, lazy_ORGANIZATION_PERMISSIONS@.len() as int, x, OrganizationPermission::All, permission) by {} }
//@loop 0 iter=it
    invariant
        it.seq().len() == lazy_ORGANIZATION_PERMISSIONS@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == lazy_ORGANIZATION_PERMISSIONS@[i],
        org_allows(role, permission) == table(lazy_ORGANIZATION_PERMISSIONS@, lazy_ORGANIZATION_PERMISSIONS@.len() as int, role, OrganizationPermission::All, permission),
        !table(lazy_ORGANIZATION_PERMISSIONS@, it.index@ as int, role, OrganizationPermission::All, permission),
//@loopstart 0
    proof { let t = lazy_ORGANIZATION_PERMISSIONS@[it.index@ as int]; assert(*it.seq()[it.index@ as int] == t); assert(it.index@ < it.seq().len()); }
//@end
//@fn src/platform/src/context.rs Context::check_project_permission | ret=r block
//@contract
    ensures r.is_ok() == (server_ok(*self, Permission::ManageProjects)
        || org_role(*self, org_id) == Some(OrganizationRole::Owner) || org_role(*self, org_id) == Some(OrganizationRole::Admin)
        || (proj_role(*self, project_id) is Some && project_allows(proj_role(*self, project_id)->0, permission))),
//@start
    let lazy_PROJECT_PERMISSIONS = PROJECT_PERMISSIONS();
    proof { assert forall|x: ProjectRole| #[trigger] project_allows(x, permission) == table(lazy_PROJECT_PERMISSIONS@, lazy_PROJECT_PERMISSIONS@.len() as int, x, ProjectPermission::All, permission) by {} }
//@loop 0 iter=it
    invariant
        it.seq().len() == lazy_PROJECT_PERMISSIONS@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == lazy_PROJECT_PERMISSIONS@[i],
        project_allows(role, permission) == table(lazy_PROJECT_PERMISSIONS@, lazy_PROJECT_PERMISSIONS@.len() as int, role, ProjectPermission::All, permission),
        !table(lazy_PROJECT_PERMISSIONS@, it.index@ as int, role, ProjectPermission::All, permission),
//@loopstart 0
    proof { let t = lazy_PROJECT_PERMISSIONS@[it.index@ as int]; assert(*it.seq()[it.index@ as int] == t); assert(it.index@ < it.seq().len()); }
//@end
}
proof fn lemma_skip<R>(s: Seq<(u64, R)>, i: int) requires 0 <= i < s.len() ensures s.skip(i).skip(1) == s.skip(i + 1), s.skip(i)[0] == s[i], s.skip(i).len() > 0
{ assert(s.skip(i).skip(1) =~= s.skip(i + 1)); }
//@helpers
} // verus!
fn main() {}
