//! C08: error value -> response status
use axum::response::IntoResponse;
use common::error::CommonError;
use h_lib::{Rng, Run};
use ingester::error::IngesterError;
use metadata::error::MetadataError as M;
use platform::error::{AuthError as A, PlatformError as P};
use query::error::QueryError as Q;
use storage::error::StoreError;

fn s(r: &mut Rng) -> String { r.string(6) }
fn serde() -> serde_json::Error { serde_json::from_str::<u8>("x").unwrap_err() }
fn io() -> std::io::Error { std::io::Error::new(std::io::ErrorKind::Other, "io") }
fn jwt() -> jsonwebtoken::errors::Error { jsonwebtoken::errors::ErrorKind::InvalidToken.into() }
fn http() -> axum::http::Error { axum::http::Request::builder().uri("\0 bad").body(()).unwrap_err() }
fn store(r: &mut Rng) -> StoreError { match r.below(4) { 0 => StoreError::Internal(s(r)), 1 => StoreError::AlreadyExists(s(r)), 2 => StoreError::InvalidParameter(s(r)), _ => StoreError::Io(io()) } }
fn md(r: &mut Rng) -> (M, u16) { match r.below(12) {
    0 => (M::AlreadyExists(s(r)), 409), 1 => (M::NotFound(s(r)), 404), 2 => (M::BadRequest(s(r)), 400), 3 => (M::Forbidden(s(r)), 403), 4 => (M::Internal(s(r)), 500), 5 => (M::Store(store(r)), 500),
    6 => (M::RocksDb(rocksdb::Error(s(r))), 500), 7 => (M::FromUtf8(String::from_utf8(vec![255]).unwrap_err()), 500), 8 => (M::Bincode(Box::new(bincode::ErrorKind::SizeLimit)), 500), 9 => (M::Io(io()), 500), 10 => (M::ProstDecodeError(prost::DecodeError(s(r))), 500), _ => (M::Other(anyhow::anyhow!("x")), 500) } }
fn com(r: &mut Rng) -> (CommonError, u16) { match r.below(6) { 0 => (CommonError::DataFusionError(datafusion::error::DataFusionError::Internal(s(r))), 500), 1 => (CommonError::JWTError(jwt()), 500), 2 => (CommonError::EntityMapping, 500), 3 => (CommonError::BadRequest(s(r)), 400), 4 => (CommonError::General(s(r)), 500), _ => (CommonError::Serde(serde()), 400) } }
fn q(r: &mut Rng) -> (Q, u16) { match r.below(10) { 0 => (Q::Internal(s(r)), 500), 1 => (Q::Unimplemented(s(r)), 501), 2 => (Q::Plan(s(r)), 500), 3 => (Q::Execution(s(r)), 500), 4 => (Q::DataFusion(datafusion::error::DataFusionError::Internal(s(r))), 500), 5 => (Q::Arrow(arrow::error::ArrowError::ComputeError(s(r))), 500), 6 => (Q::Metadata(md(r).0), 500), 7 => (Q::Common(com(r).0), 500), 8 => (Q::Store(store(r)), 500), _ => (Q::Other(anyhow::anyhow!("x")), 500) } }
fn auth(r: &mut Rng) -> (A, u16) { match r.below(7) { 0 => (A::InvalidCredentials, 401), 1 => (A::InvalidRefreshToken, 401), 2 => (A::InvalidPasswordHashing, 500), 3 => (A::CantMakeAccessToken, 500), 4 => (A::CantMakeRefreshToken, 500), 5 => (A::CantParseBearerHeader, 401), _ => (A::CantParseAccessToken, 401) } }
fn plat(r: &mut Rng, d: u64) -> (P, u16) { match r.below(22) {
    0 | 1 if d > 0 => { let i = plat(r, d - 1).0; let (o, w) = plat(r, d - 1); (i.wrap_into(o), w) }
    2 => (P::invalid_field(&s(r), s(r)), 400), 3 => (P::BadRequest(s(r)), 400), 4 => (P::Unimplemented(s(r)), 501), 5 => (P::AlreadyExists(s(r)), 409), 6 => (P::Unauthorized(s(r)), 401), 7 => (P::Forbidden(s(r)), 403), 8 => (P::NotFound(s(r)), 404), 9 => (P::Internal(s(r)), 500), 10 => (P::EntityMap(s(r)), 500), 11 => (P::Serde(serde()), 400),
    12 => (P::PasswordHash(password_hash::Error::Password), 500), 13 => (P::JSONWebToken(jwt()), 500), 14 => (P::Decimal(rust_decimal::Error::ErrorString(s(r))), 400), 15 => { let (e, w) = md(r); (P::Metadata(e), w) } 16 => { let (e, w) = q(r); (P::Query(e), w) } 17 => { let (e, w) = com(r); (P::Common(e), w) } 18 => { let (e, w) = auth(r); (P::Auth(e), w) } 19 => (P::Axum(http()), 500), _ => (P::Other(anyhow::anyhow!("x")), 500) } }
fn ing(r: &mut Rng) -> (IngesterError, u16) { match r.below(6) { 0 => (IngesterError::Internal(s(r)), 500), 1 => (IngesterError::BadRequest(s(r)), 400), 2 => { let (e, w) = md(r); (IngesterError::Metadata(e), w) } 3 => (IngesterError::Store(store(r)), 500), 4 => (IngesterError::Maxmind(maxminddb::MaxMindDBError::IoError(s(r))), 500), _ => (IngesterError::Serde(serde()), 400) } }
pub fn c08(r: &mut Run) {
    r.rule("error values of every variant that can be built outside its crate, wrapped up to three deep; distinct by value");
    while r.time_left() {
        let (e, w) = plat(&mut r.rng, 3); let d = format!("{e:?}");
        let a = e.into_api_error(); let m = (a.message.is_some(), a.fields.len());
        r.eq("platform_status", d.clone(), || a.status.as_u16(), w);
        r.check("platform_message", d.clone(), || if m.0 || m.1 > 0 { Ok(()) } else { Err("neither message nor fields".into()) });
        r.eq("platform_response", d, || a.into_response().status().as_u16(), w);
        let (e, w) = ing(&mut r.rng); let d = format!("{e:?}");
        r.eq("ingester_response", d, || e.into_response().status().as_u16(), w);
        let mut g = Rng::new(r.rng.u64()); let (e, w) = md(&mut g);
        let d = format!("{e:?}"); r.eq("metadata_status", d, || P::Metadata(e).into_response().status().as_u16(), w);
    }
}
