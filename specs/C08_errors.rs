// C08: the status of an error response follows the kind of failure
//@include base.rs
//@rule err . to_string ( ) =>> text(err)
//@rule $~x . to_string ( ) =>> text($x)
//@rule std :: io :: Error =>> ExtError
//@rule serde_json :: Error =>> ExtError
//@rule bincode :: Error =>> ExtError
//@rule password_hash :: Error =>> ExtError
//@rule jsonwebtoken :: errors :: Error =>> ExtError
//@rule rust_decimal :: Error =>> ExtError
//@rule axum :: http :: Error =>> ExtError
//@rule hyper :: Error =>> ExtError
//@rule anyhow :: Error =>> ExtError
//@rule rocksdb :: Error =>> ExtError
//@rule prost :: DecodeError =>> ExtError
//@rule storage :: error :: StoreError =>> ExtError
//@rule BTreeMap :: new ( ) =>> no_fields()
//@rule BTreeMap < String , String > =>> Fields
//@rule impl ToString =>> impl Texty
use vstd::prelude::*;
verus! {
pub struct ExtError { x: u8 }
pub type FromUtf8Error = ExtError; pub type DataFusionError = ExtError; pub type ArrowError = ExtError; pub type StoreError = ExtError; pub type JWTError = ExtError; pub type MaxMindDBError = ExtError;
pub struct Fields { x: u8 }
#[verifier::external_body] fn no_fields() -> Fields { unimplemented!() }
// any text: the message is not part of the property
#[verifier::external_body] fn text<T>(e: T) -> String { unimplemented!() }
pub trait Texty {}
impl<T> Texty for T {}
#[derive(Clone, Copy)] pub struct StatusCode { pub c: u16 }
impl StatusCode { pub const BAD_REQUEST: StatusCode = StatusCode { c: 400 }; pub const UNAUTHORIZED: StatusCode = StatusCode { c: 401 }; pub const FORBIDDEN: StatusCode = StatusCode { c: 403 };
    pub const NOT_FOUND: StatusCode = StatusCode { c: 404 }; pub const CONFLICT: StatusCode = StatusCode { c: 409 }; pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode { c: 500 }; pub const NOT_IMPLEMENTED: StatusCode = StatusCode { c: 501 };
    pub const OK: StatusCode = StatusCode { c: 200 }; pub const UNPROCESSABLE_ENTITY: StatusCode = StatusCode { c: 422 }; pub const SERVICE_UNAVAILABLE: StatusCode = StatusCode { c: 503 }; pub const GONE: StatusCode = StatusCode { c: 410 }; pub const METHOD_NOT_ALLOWED: StatusCode = StatusCode { c: 405 }; pub const BAD_GATEWAY: StatusCode = StatusCode { c: 502 }; }
//@item src/common/src/http.rs ApiError | vis=pub
//@item src/metadata/src/error.rs MetadataError | vis=pub
//@item src/common/src/error.rs CommonError | vis=pub
//@item src/query/src/error.rs QueryError | vis=pub
//@item src/platform/src/error.rs AuthError | vis=pub
//@item src/platform/src/error.rs PlatformError | vis=pub
//@item src/ingester/src/error.rs IngesterError | vis=pub

spec fn st_md(e: MetadataError) -> u16 { match e { MetadataError::AlreadyExists(_) => 409, MetadataError::NotFound(_) => 404, MetadataError::BadRequest(_) => 400, MetadataError::Forbidden(_) => 403, _ => 500 } }
spec fn st_q(e: QueryError) -> u16 { match e { QueryError::Unimplemented(_) => 501, _ => 500 } }
spec fn st_c(e: CommonError) -> u16 { match e { CommonError::BadRequest(_) | CommonError::Serde(_) => 400, _ => 500 } }
spec fn st_a(e: AuthError) -> u16 { match e { AuthError::InvalidCredentials | AuthError::InvalidRefreshToken | AuthError::CantParseBearerHeader | AuthError::CantParseAccessToken => 401, _ => 500 } }
spec fn status(e: PlatformError) -> u16 decreases e { match e {
    PlatformError::Wrapped(_, outer) => status(*outer),
    PlatformError::InvalidFields(_) | PlatformError::BadRequest(_) | PlatformError::Serde(_) | PlatformError::Decimal(_) => 400,
    PlatformError::Unauthorized(_) => 401, PlatformError::Forbidden(_) => 403, PlatformError::NotFound(_) => 404, PlatformError::AlreadyExists(_) => 409, PlatformError::Unimplemented(_) => 501,
    PlatformError::Metadata(m) => st_md(m), PlatformError::Query(q) => st_q(q), PlatformError::Common(c) => st_c(c), PlatformError::Auth(a) => st_a(a),
    _ => 500 } }
spec fn st_ing(e: IngesterError) -> u16 { match e { IngesterError::BadRequest(_) | IngesterError::Serde(_) => 400, IngesterError::Metadata(m) => st_md(m), _ => 500 } }

impl ApiError {
//@fn src/common/src/http.rs ApiError::new | ret=r block
//@contract
    ensures r.status == status, r.code is None, r.message is None,
//@end
//@fn src/common/src/http.rs ApiError::with_message | ret=r block
//@contract
    ensures r.status == self.status, r.code == self.code, r.fields == self.fields, r.message == Some(message),
//@end
//@fn src/common/src/http.rs ApiError::with_fields | ret=r block
//@contract
    ensures r.status == self.status, r.code == self.code, r.fields == fields, r.message == self.message,
//@end
//@fn src/common/src/http.rs ApiError::bad_request | ret=r block
//@contract
    ensures r.status.c == 400, r.message is Some,
//@end
//@fn src/common/src/http.rs ApiError::unimplemented | ret=r block
//@contract
    ensures r.status.c == 501, r.message is Some,
//@end
//@fn src/common/src/http.rs ApiError::forbidden | ret=r block
//@contract
    ensures r.status.c == 403, r.message is Some,
//@end
//@fn src/common/src/http.rs ApiError::unauthorized | ret=r block
//@contract
    ensures r.status.c == 401, r.message is Some,
//@end
//@fn src/common/src/http.rs ApiError::conflict | ret=r block
//@contract
    ensures r.status.c == 409, r.message is Some,
//@end
//@fn src/common/src/http.rs ApiError::not_found | ret=r block
//@contract
    ensures r.status.c == 404, r.message is Some,
//@end
//@fn src/common/src/http.rs ApiError::internal | ret=r block
//@contract
    ensures r.status.c == 500, r.message is Some,
//@end
    // axum sends the status it is given (IntoResponse for ApiError)
    fn into_response(self) -> (r: ApiError) ensures r == self { self }
}
impl PlatformError {
//@fn src/platform/src/error.rs PlatformError::into_api_error | ret=r block
//@contract
    ensures r.status.c == status(self),
    decreases self,
//@end
}
type Response = ApiError;
impl IngesterError {
//@fn src/ingester/src/error.rs [IntoResponse for IngesterError]::into_response | ret=r block
//@contract
    ensures r.status.c == st_ing(self),
//@end
}
//@helpers
} // verus!
fn main() {}
