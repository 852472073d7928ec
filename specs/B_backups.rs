//@rule $x . status . clone ( ) =>> same_as(&$x.status)
//@include base.rs
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::fmt::Debug;
verus! {
//@item src/common/src/rbac.rs Permission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
//@item src/platform/src/context.rs Context | vis=keep
//@include rbacspec.rs
//@include handlers.rs
pub mod metadata { use super::*;
pub mod metadata { use super::*;
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
}
pub struct MetadataProvider { pub backups: backups::Backups, pub settings: settings::SettingsProvider }
pub mod settings { use super::*;
//@item src/metadata/src/settings.rs BackupProvider | vis=keep
//@item src/metadata/src/settings.rs BackupScheduleInterval | vis=keep
//@item src/metadata/src/settings.rs Settings | vis=keep
#[verifier::external_body] pub struct SettingsProvider { x: u8 }
impl SettingsProvider {
    #[verifier::external_body] pub fn load(&self, ) -> (r: Result<Settings>) requires 
        server_ok(caller(), Permission::ManageServer),
        ensures r is Ok ==> did(21, (), r->Ok_0), r is Err ==> refused(21, ()) && !(r->Err_0 is Forbidden) { unimplemented!() }
}
}
pub mod backups { use super::*;
//@item src/metadata/src/backups.rs S3Provider | vis=keep
//@item src/metadata/src/backups.rs GCPProvider | vis=keep
//@item src/metadata/src/backups.rs Provider | vis=keep
//@item src/metadata/src/backups.rs Status | vis=keep
//@item src/metadata/src/backups.rs Backup | vis=keep
//@item src/metadata/src/backups.rs CreateBackupRequest | vis=keep
pub uninterp spec fn from_set(s: crate::metadata::settings::Settings, q: CreateBackupRequest) -> bool;
impl CreateBackupRequest { #[verifier::external_body] pub fn from_settings(settings: &crate::metadata::settings::Settings) -> (r: CreateBackupRequest) ensures from_set(*settings, r) { unimplemented!() } }
#[verifier::external_body] pub struct Backups { x: u8 }
impl Backups {
    #[verifier::external_body] pub fn create(&self, req: CreateBackupRequest) -> (r: Result<Backup>) requires 
        server_ok(caller(), Permission::ManageServer),
        ensures r is Ok ==> did(1, req, r->Ok_0), r is Err ==> refused(1, req) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn get_by_id(&self, id: u64) -> (r: Result<Backup>) requires 
        server_ok(caller(), Permission::ManageServer),
        ensures r is Ok ==> did(2, id, r->Ok_0), r is Err ==> refused(2, id) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn list(&self, ) -> (r: Result<metadata::ListResponse<Backup>>) requires 
        server_ok(caller(), Permission::ManageServer),
        ensures r is Ok ==> did(3, (), r->Ok_0), r is Err ==> refused(3, ()) && !(r->Err_0 is Forbidden) { unimplemented!() }
}
}
}
#[verifier::external_body] pub struct PathBuf { x: u8 }
pub mod backups { use super::*; use crate::metadata::MetadataProvider; use crate::metadata::backups; use crate::metadata::backups::CreateBackupRequest;
//@item src/platform/src/backups.rs LocalProvider | vis=keep
//@item src/platform/src/backups.rs S3Provider | vis=keep
//@item src/platform/src/backups.rs GCPProvider | vis=keep
//@item src/platform/src/backups.rs Provider | vis=keep
//@item src/platform/src/backups.rs Status | vis=keep
//@item src/platform/src/backups.rs Backup | vis=keep
//@item src/platform/src/backups.rs Backups | vis=keep
impl Conv<Backup> for metadata::backups::Backup { open spec fn cv(self, r: Backup) -> bool { self.id == r.id && self.created_at == r.created_at && self.updated_at == r.updated_at && self.is_encrypted == r.is_encrypted && match self.provider { metadata::backups::Provider::Local(p) => r.provider == Provider::Local(LocalProvider { path: p }), metadata::backups::Provider::S3(p) => r.provider == Provider::S3(S3Provider { bucket: p.bucket, path: p.path, region: p.region }), metadata::backups::Provider::GCP(p) => r.provider == Provider::Gcp(GCPProvider { bucket: p.bucket, path: p.path }) }
  && match self.status { metadata::backups::Status::Idle => r.status == Status::Idle, metadata::backups::Status::InProgress(_) => r.status == Status::InProgress, metadata::backups::Status::Uploading => r.status == Status::Uploading, metadata::backups::Status::Failed(_) => r.status == Status::Failed, metadata::backups::Status::Completed => r.status == Status::Completed }
  && r.in_progress_progress == (match self.status { metadata::backups::Status::InProgress(p) => Some(p), _ => None }) && r.failed_error == (match self.status { metadata::backups::Status::Failed(e) => Some(e), _ => None }) } fn conv(self) -> (r: Backup) { c7(self) } }
//@fn src/platform/src/backups.rs [From<metadata::backups::Backup> for Backup]::from | name=c7 ret=r block args=x_
//@rule Self =>> Backup
//@contract
    ensures x_.cv(r),
//@end
impl Backups {
//@fn src/platform/src/backups.rs Backups::backup | ret=r block args=ctx
//@contract
    requires ctx == caller(), 
    ensures !(server_ok(caller(), Permission::ManageServer)) ==> forbidden(r),
        (server_ok(caller(), Permission::ManageServer)) && r is Ok ==> exists|s: metadata::settings::Settings, q: metadata::backups::CreateBackupRequest, m: metadata::backups::Backup| #[trigger] did(21, (), s) && s.backup_enabled && metadata::backups::from_set(s, q) && #[trigger] did(1, q, m) && m.cv(r->Ok_0),
        (server_ok(caller(), Permission::ManageServer)) && r is Err ==> !forbidden(r) || exists|s: metadata::settings::Settings| #[trigger] did(21, (), s) && !s.backup_enabled,
//@end
//@fn src/platform/src/backups.rs Backups::get_by_id | ret=r block args=ctx,id
//@contract
    requires ctx == caller(), 
    ensures !(server_ok(caller(), Permission::ManageServer)) ==> forbidden(r),
        (server_ok(caller(), Permission::ManageServer)) && r is Ok ==> exists|m: metadata::backups::Backup| #[trigger] did(2, id, m) && m.cv(r->Ok_0),
        (server_ok(caller(), Permission::ManageServer)) && r is Err ==> refused(2, id),
//@end
//@fn src/platform/src/backups.rs Backups::list | ret=r block args=ctx
//@contract
    requires ctx == caller(), 
    ensures !(server_ok(caller(), Permission::ManageServer)) ==> forbidden(r),
        (server_ok(caller(), Permission::ManageServer)) && r is Ok ==> exists|m: metadata::metadata::ListResponse<metadata::backups::Backup>| #[trigger] did(3, (), m) && cv_list(m, r->Ok_0),
        (server_ok(caller(), Permission::ManageServer)) && r is Err ==> refused(3, ()),
//@end
}
}
//@helpers
} // verus!
fn main() {}
