//! Replay of the contracts of `platform` (access control, error mapping) against the compiled crate.
mod api; mod errors;
use common::rbac::*;
use h_lib::{Rng, Run};
use platform::context::Context;

fn all_server() -> Vec<Permission> { use Permission::*; vec![All, ManageAccounts, ViewAccounts, ManageOrganizations, ViewOrganizations, ManageProjects, ManageServer] }
fn all_org() -> Vec<OrganizationPermission> { use OrganizationPermission::*; vec![All, ViewOrganization, ManageOrganization, ManageProjects, ExploreProjects, DeleteOrganization] }
fn all_proj() -> Vec<ProjectPermission> { use ProjectPermission::*; vec![All, ViewProject, ManageProject, DeleteProject, InviteMembers, ManageMembers, ExploreReports, ManageReports, ViewSchema, ManageSchema, DeleteSchema] }
fn org_allows(r: &OrganizationRole, p: &OrganizationPermission) -> bool { match r { OrganizationRole::Owner => true, OrganizationRole::Admin => *p == OrganizationPermission::ManageProjects, OrganizationRole::Member => false } }
fn proj_allows(r: &ProjectRole, p: &ProjectPermission) -> bool {
    use ProjectPermission::*;
    match r { ProjectRole::Owner => true, ProjectRole::Admin => matches!(p, ManageProject | InviteMembers | ManageMembers | ExploreReports | ManageReports | ViewSchema | ManageSchema), ProjectRole::Member => matches!(p, ExploreReports | ManageReports | ViewSchema | ManageSchema), ProjectRole::Reader => matches!(p, ExploreReports | ViewSchema) }
}
fn org_role(r: &mut Rng) -> OrganizationRole { r.pick(&[OrganizationRole::Owner, OrganizationRole::Admin, OrganizationRole::Member]).clone() }
fn proj_role(r: &mut Rng) -> ProjectRole { r.pick(&[ProjectRole::Owner, ProjectRole::Admin, ProjectRole::Member, ProjectRole::Reader]).clone() }
fn ctx(r: &mut Rng) -> Context {
    let ids = [1u64, 2, 3, 1 << 32 | 1, u64::MAX];
    let organizations = if r.chance(15) { None } else { let n = r.below(5); Some((0..n).map(|_| (*r.pick(&ids), org_role(r))).collect()) };
    let projects = if r.chance(15) { None } else { let n = r.below(5); Some((0..n).map(|_| (*r.pick(&ids), proj_role(r))).collect()) };
    Context { account_id: *r.pick(&ids), organization_id: *r.pick(&ids), force_update_password: r.bool(), force_update_email: r.bool(), role: if r.chance(20) { Some(Role::Admin) } else { None }, organizations, projects, teams: if r.chance(20) { Some(vec![(*r.pick(&ids), Role::Admin)]) } else { None } }
}
fn c01(r: &mut Run) {
    r.rule("one check of one context for one permission; contexts draw server role, membership lists (with duplicates and absent ids) and ids at random, every permission is asked; distinct by context and question");
    while r.time_left() {
        let c = ctx(&mut r.rng); let ids = [1u64, 2, 3, 1 << 32 | 1, u64::MAX, 7];
        let (o, p) = (*r.rng.pick(&ids), *r.rng.pick(&ids)); let root = c.role.is_some();
        let orole = c.organizations.as_ref().and_then(|v| v.iter().find(|x| x.0 == o)).map(|x| x.1.clone());
        let prole = c.projects.as_ref().and_then(|v| v.iter().find(|x| x.0 == p)).map(|x| x.1.clone());
        for q in all_server() { r.eq("check_permission", format!("{c:?} {q:?}"), || c.check_permission(q.clone()).is_ok(), root); }
        for q in all_org() { let want = root || orole.as_ref().map(|x| org_allows(x, &q)).unwrap_or(false); r.eq("check_organization_permission", format!("{c:?} org {o} {q:?}"), || c.check_organization_permission(o, q.clone()).is_ok(), want); }
        for q in all_proj() {
            let want = root || matches!(orole, Some(OrganizationRole::Owner) | Some(OrganizationRole::Admin)) || prole.as_ref().map(|x| proj_allows(x, &q)).unwrap_or(false);
            r.eq("check_project_permission", format!("{c:?} org {o} project {p} {q:?}"), || c.check_project_permission(o, p, q.clone()).is_ok(), want);
        }
        for e in [c.check_permission(Permission::ManageServer).err(), c.check_organization_permission(o, OrganizationPermission::All).err(), c.check_project_permission(o, p, ProjectPermission::All).err()].into_iter().flatten() {
            r.eq("refusal_is_forbidden", format!("{c:?} org {o} project {p}"), || e.into_api_error().status.as_u16(), 403);
        }
    }
}
fn main() { h_lib::main(&[("C01", c01), ("C08", errors::c08), ("B01", api::b01), ("B03", api::b03)]); }
