//@rule Arc < metadata :: settings :: SettingsProvider > =>> metadata::settings::SettingsProvider
//@rule if let Some ( $v ) = req . $f { settings . $g = $v ; } =>> settings.$g = given_or(req.$f, settings.$g);
//@include base.rs
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::fmt::Debug;
verus! {
//@item src/common/src/rbac.rs Permission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
//@item src/platform/src/context.rs Context | vis=keep
//@include rbacspec.rs
//@include handlers.rs
pub mod metadata { use super::*;
pub mod metadata { use super::*;
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
}
pub mod settings { use super::*;
//@item src/metadata/src/settings.rs BackupProvider | vis=keep
//@item src/metadata/src/settings.rs BackupScheduleInterval | vis=keep
//@item src/metadata/src/settings.rs Settings | vis=keep
#[verifier::external_body] pub struct SettingsProvider { x: u8 }
impl SettingsProvider {
    #[verifier::external_body] pub fn load(&self, ) -> (r: Result<Settings>) requires 
        server_ok(caller(), Permission::ManageServer),
        ensures r is Ok ==> did(21, (), r->Ok_0), r is Err ==> refused(21, ()) && !(r->Err_0 is Forbidden) { unimplemented!() }
    #[verifier::external_body] pub fn save(&self, settings: &Settings) -> (r: Result<()>) requires 
        server_ok(caller(), Permission::ManageServer),
        ensures r is Ok ==> did(22, *settings, r->Ok_0), r is Err ==> refused(22, *settings) && !(r->Err_0 is Forbidden) { unimplemented!() }
}
}
}
// `if let Some(v) = new { old = v }`
pub fn given_or<T>(new: Option<T>, old: T) -> (r: T) ensures r == (match new { Some(v) => v, None => old }) { if let Some(v) = new { v } else { old } }
pub mod settings { use super::*; 
//@item src/platform/src/settings.rs BackupProvider | vis=keep
//@item src/platform/src/settings.rs BackupScheduleInterval | vis=keep
//@item src/platform/src/settings.rs Settings | vis=keep
//@item src/platform/src/settings.rs SettingsProvider | vis=keep
pub open spec fn prov_of(a: metadata::settings::BackupProvider, b: BackupProvider) -> bool { match a { metadata::settings::BackupProvider::Local => b == BackupProvider::Local, metadata::settings::BackupProvider::S3 => b == BackupProvider::S3, metadata::settings::BackupProvider::GCP => b == BackupProvider::Gcp } }
// what an administrator reads back: every plain setting, no secret
pub open spec fn shown(s: metadata::settings::Settings, r: Settings) -> bool { r.backup_enabled == Some(s.backup_enabled) && r.backup_encryption_enabled == Some(s.backup_encryption_enabled) && r.backup_compression_enabled == Some(s.backup_compression_enabled) && r.backup_provider_s3_bucket == Some(s.backup_provider_s3_bucket) && r.backup_provider_s3_path == Some(s.backup_provider_s3_path) && r.backup_provider_s3_region == Some(s.backup_provider_s3_region) && r.backup_provider_s3_access_key == Some(s.backup_provider_s3_access_key) && r.backup_provider_gcp_bucket == Some(s.backup_provider_gcp_bucket) && r.backup_provider_gcp_path == Some(s.backup_provider_gcp_path) && r.backup_schedule_start_hour == Some(s.backup_schedule_start_hour) && r.auth_access_token is None && r.auth_refresh_token is None && r.auth_admin_default_password is None && r.backup_encryption_password is None && r.backup_provider_s3_secret_key is None && r.backup_provider_gcp_key is None && r.backup_provider is Some && prov_of(s.backup_provider, r.backup_provider->0) && match s.backup_schedule_interval { metadata::settings::BackupScheduleInterval::Hourly => r.backup_schedule_interval == Some(BackupScheduleInterval::Hourly), metadata::settings::BackupScheduleInterval::Daily => r.backup_schedule_interval == Some(BackupScheduleInterval::Daily), metadata::settings::BackupScheduleInterval::Weekly => r.backup_schedule_interval == Some(BackupScheduleInterval::Weekly), metadata::settings::BackupScheduleInterval::Monthly => r.backup_schedule_interval == Some(BackupScheduleInterval::Monthly), metadata::settings::BackupScheduleInterval::Yearly => r.backup_schedule_interval == Some(BackupScheduleInterval::Yearly) } }
// a change request: a named setting takes the given value, every other keeps the stored one
pub open spec fn merged(x: Settings, a: metadata::settings::Settings, b: metadata::settings::Settings) -> bool { b.auth_access_token == (match x.auth_access_token { Some(v) => v, None => a.auth_access_token }) && b.auth_refresh_token == (match x.auth_refresh_token { Some(v) => v, None => a.auth_refresh_token }) && b.backup_enabled == (match x.backup_enabled { Some(v) => v, None => a.backup_enabled }) && b.backup_encryption_enabled == (match x.backup_encryption_enabled { Some(v) => v, None => a.backup_encryption_enabled }) && b.backup_encryption_password == (match x.backup_encryption_password { Some(v) => v, None => a.backup_encryption_password }) && b.backup_compression_enabled == (match x.backup_compression_enabled { Some(v) => v, None => a.backup_compression_enabled }) && b.backup_provider_s3_bucket == (match x.backup_provider_s3_bucket { Some(v) => v, None => a.backup_provider_s3_bucket }) && b.backup_provider_s3_path == (match x.backup_provider_s3_path { Some(v) => v, None => a.backup_provider_s3_path }) && b.backup_provider_s3_region == (match x.backup_provider_s3_region { Some(v) => v, None => a.backup_provider_s3_region }) && b.backup_provider_s3_access_key == (match x.backup_provider_s3_access_key { Some(v) => v, None => a.backup_provider_s3_access_key }) && b.backup_provider_s3_secret_key == (match x.backup_provider_s3_secret_key { Some(v) => v, None => a.backup_provider_s3_secret_key }) && b.backup_provider_gcp_bucket == (match x.backup_provider_gcp_bucket { Some(v) => v, None => a.backup_provider_gcp_bucket }) && b.backup_provider_gcp_path == (match x.backup_provider_gcp_path { Some(v) => v, None => a.backup_provider_gcp_path }) && (match x.backup_provider { Some(v) => prov_of(b.backup_provider, v), None => b.backup_provider == a.backup_provider }) && b.backup_provider_local_path == a.backup_provider_local_path && (x.backup_schedule_interval is None ==> b.backup_schedule_interval == a.backup_schedule_interval) && (x.auth_admin_default_password is None ==> b.auth_admin_default_password == a.auth_admin_default_password) && (x.backup_provider_gcp_key is None ==> b.backup_provider_gcp_key == a.backup_provider_gcp_key) && (x.backup_schedule_start_hour is None ==> b.backup_schedule_start_hour == a.backup_schedule_start_hour) }
pub open spec fn kept_as(x: Settings, b: metadata::settings::Settings) -> bool { exists|a: metadata::settings::Settings| #[trigger] did(21, (), a) && merged(x, a, b) }
impl SettingsProvider {
//@fn src/platform/src/settings.rs SettingsProvider::set | ret=r block args=ctx,req
//@contract
    requires ctx == caller(), 
    ensures !(server_ok(caller(), Permission::ManageServer)) ==> forbidden(r),
        (server_ok(caller(), Permission::ManageServer)) && r is Ok ==> (exists|b: metadata::settings::Settings| kept_as(req, b) && #[trigger] did(22, b, ())) && exists|c: metadata::settings::Settings| #[trigger] did(21, (), c) && shown(c, r->Ok_0),
        (server_ok(caller(), Permission::ManageServer)) && r is Err ==> !forbidden(r),
//@end
//@fn src/platform/src/settings.rs SettingsProvider::get | ret=r block args=ctx
//@contract
    requires ctx == caller(), 
    ensures !(server_ok(caller(), Permission::ManageServer)) ==> forbidden(r),
        (server_ok(caller(), Permission::ManageServer)) && r is Ok ==> exists|c: metadata::settings::Settings| #[trigger] did(21, (), c) && shown(c, r->Ok_0),
        (server_ok(caller(), Permission::ManageServer)) && r is Err ==> !forbidden(r),
//@end
}
}
//@helpers
} // verus!
fn main() {}
