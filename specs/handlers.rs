// ---- what the API handlers are written against
//@rule Arc < $x > =>> $x
//@rule DateTime < Utc > =>> Instant
//@rule . iter ( ) . map ( | $v | $v . to_owned ( ) . into ( ) ) . collect :: < Vec < _ > > ( ) =>> .conv()
//@rule . iter ( ) . map ( | $v | $v . to_owned ( ) . into ( ) ) . collect ( ) =>> .conv()
//@rule . into_iter ( ) . map ( | $v | $v . into ( ) ) . collect :: < Vec < $t > > ( ) =>> .conv()
//@rule . into_iter ( ) . map ( | $v | $v . into ( ) ) . collect ( ) =>> .conv()
//@rule . map ( | $v | $v . iter ( ) . map ( | $w | $w . to_owned ( ) . into ( ) ) . collect ( ) ) =>> .conv()
//@rule . map ( | $v | $v . into_iter ( ) . map ( | $w | $w . into ( ) ) . collect ( ) ) =>> .conv()
//@rule . map ( | $v | $v . into ( ) ) =>> .conv()
//@rule . into ( ) =>> .conv()
//@rule : Default :: default ( ) =>> : no_value()
//@rule .. Default :: default ( ) =>> ..no_change()
//@rule where T : Debug =>>
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct Instant { pub t: i64, pub n: u32 }
#[derive(Debug)] pub enum PlatformError { Forbidden(String), Other }
pub type Result<T> = core::result::Result<T, PlatformError>;
//@item src/common/src/types.rs OptionalProperty | vis=keep
pub open spec fn forbidden<T>(r: Result<T>) -> bool { r is Err && r->Err_0 is Forbidden }
// who is asking: the handler works for exactly this caller
pub uninterp spec fn caller() -> Context;
pub open spec fn may_project(c: Context, o: u64, p: u64, q: ProjectPermission) -> bool { server_ok(c, Permission::ManageProjects)
    || org_role(c, o) == Some(OrganizationRole::Owner) || org_role(c, o) == Some(OrganizationRole::Admin) || (proj_role(c, p) is Some && project_allows(proj_role(c, p)->0, q)) }
pub open spec fn may_org(c: Context, o: u64, q: OrganizationPermission) -> bool { server_ok(c, Permission::ManageOrganizations) || (org_role(c, o) is Some && org_allows(org_role(c, o)->0, q)) }
// within the project the caller works in
pub open spec fn may(p: u64, q: ProjectPermission) -> bool { may_project(caller(), caller().organization_id, p, q) }
impl Context { // discharged in unit C01_rbac
    #[verifier::external_body] pub fn check_permission(&self, permission: Permission) -> (r: Result<()>) ensures r.is_ok() == server_ok(*self, permission), r is Err ==> r->Err_0 is Forbidden { unimplemented!() }
    #[verifier::external_body] pub fn check_organization_permission(&self, org_id: u64, permission: OrganizationPermission) -> (r: Result<()>) ensures r.is_ok() == may_org(*self, org_id, permission), r is Err ==> r->Err_0 is Forbidden { unimplemented!() }
    #[verifier::external_body] pub fn check_project_permission(&self, org_id: u64, project_id: u64, permission: ProjectPermission) -> (r: Result<()>) ensures r.is_ok() == may_project(*self, org_id, project_id, permission), r is Err ==> r->Err_0 is Forbidden { unimplemented!() }
}
// a request the store carried out with that answer; a request the store refused
pub uninterp spec fn did<A, R>(op: int, a: A, r: R) -> bool;
pub uninterp spec fn refused<A>(op: int, a: A) -> bool;
// the conversions between the API's and the store's vocabulary
pub trait Conv<T>: Sized { spec fn cv(self, r: T) -> bool; fn conv(self) -> (r: T) ensures self.cv(r); }
pub open spec fn cv_all<A: Conv<B>, B>(a: Seq<A>, b: Seq<B>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).cv(b[i]) }
pub open spec fn cv_opt<A: Conv<B>, B>(a: Option<A>, b: Option<B>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => x.cv(y), _ => false } }
// mapping every element by its conversion, in order (std's iter/map/collect)
impl<A: Conv<B>, B> Conv<Vec<B>> for Vec<A> { open spec fn cv(self, r: Vec<B>) -> bool { cv_all(self@, r@) } #[verifier::external_body] fn conv(self) -> (r: Vec<B>) { unimplemented!() } }
impl<A: Conv<B>, B> Conv<Option<B>> for Option<A> { open spec fn cv(self, r: Option<B>) -> bool { cv_opt(self, r) } fn conv(self) -> (r: Option<B>) { match self { Some(x) => Some(x.conv()), None => None } } }
// OptionalProperty::into and ::map, discharged in unit C02_optional
impl<A: Conv<B>, B> Conv<OptionalProperty<B>> for OptionalProperty<A> { open spec fn cv(self, r: OptionalProperty<B>) -> bool { match (self, r) { (OptionalProperty::None, OptionalProperty::None) => true, (OptionalProperty::Some(x), OptionalProperty::Some(y)) => x.cv(y), _ => false } }
    fn conv(self) -> (r: OptionalProperty<B>) { match self { OptionalProperty::Some(x) => OptionalProperty::Some(x.conv()), OptionalProperty::None => OptionalProperty::None } } }
impl<T> OptionalProperty<T> { pub fn insert(&mut self, v: T) ensures *final(self) == OptionalProperty::Some(v) { *self = OptionalProperty::Some(v); } }
pub fn no_value<T>() -> (r: OptionalProperty<T>) ensures r is None { OptionalProperty::None }
#[verifier::external_body] pub fn same_as<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
// a panic does not return
#[verifier::external_body] pub fn panics<T>() -> (r: T) ensures false { unimplemented!() }
#[verifier::external_body] pub fn some_text() -> String { unimplemented!() }
//@item src/platform/src/lib.rs ResponseMetadata | vis=keep
//@item src/platform/src/lib.rs ListResponse | vis=keep
impl Conv<ResponseMetadata> for metadata::metadata::ResponseMetadata { open spec fn cv(self, r: ResponseMetadata) -> bool { r.next == self.next } fn conv(self) -> (r: ResponseMetadata) { meta_from(self) } }
//@fn src/platform/src/lib.rs [From<metadata::metadata::ResponseMetadata> for ResponseMetadata]::from | name=meta_from ret=r block
//@rule Self =>> ResponseMetadata
//@contract
    ensures value.cv(r),
//@end
pub open spec fn cv_list<A: Conv<B>, B>(a: metadata::metadata::ListResponse<A>, r: ListResponse<B>) -> bool { cv_all(a.data@, r.data@) && r.meta.next == a.meta.next }
impl<A, B: Conv<A>> Conv<ListResponse<A>> for metadata::metadata::ListResponse<B> { open spec fn cv(self, r: ListResponse<A>) -> bool { cv_list(self, r) }
//@fn src/platform/src/lib.rs [Into<ListResponse<A>> for metadata::metadata::ListResponse<B>]::into | name=conv ret=r block
//@end
}
