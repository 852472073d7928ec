// ---- the published matrix
pub open spec fn server_allows(r: Role, p: Permission) -> bool { match r { Role::Admin => true } }
pub open spec fn org_allows(r: OrganizationRole, p: OrganizationPermission) -> bool { match r {
    OrganizationRole::Owner => true, OrganizationRole::Admin => p == OrganizationPermission::ManageProjects, OrganizationRole::Member => false } }
pub open spec fn project_allows(r: ProjectRole, p: ProjectPermission) -> bool { match r {
    ProjectRole::Owner => true,
    ProjectRole::Admin => matches!(p, ProjectPermission::ManageProject | ProjectPermission::InviteMembers | ProjectPermission::ManageMembers | ProjectPermission::ExploreReports | ProjectPermission::ManageReports | ProjectPermission::ViewSchema | ProjectPermission::ManageSchema),
    ProjectRole::Member => matches!(p, ProjectPermission::ExploreReports | ProjectPermission::ManageReports | ProjectPermission::ViewSchema | ProjectPermission::ManageSchema),
    ProjectRole::Reader => matches!(p, ProjectPermission::ExploreReports | ProjectPermission::ViewSchema) } }
pub open spec fn first<R>(s: Seq<(u64, R)>, id: u64) -> Option<R> decreases s.len() { if s.len() == 0 { None } else if s[0].0 == id { Some(s[0].1) } else { first(s.skip(1), id) } }
pub open spec fn org_role(c: Context, id: u64) -> Option<OrganizationRole> { if c.organizations is Some { first(c.organizations->0@, id) } else { None } }
pub open spec fn proj_role(c: Context, id: u64) -> Option<ProjectRole> { if c.projects is Some { first(c.projects->0@, id) } else { None } }
pub open spec fn server_ok(c: Context, p: Permission) -> bool { c.role is Some && server_allows(c.role->0, p) }

