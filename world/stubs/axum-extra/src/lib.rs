//! Stand-in for axum-extra's typed Authorization: Bearer header.
pub mod headers { pub struct Authorization<T>(pub T); pub mod authorization { pub struct Bearer(pub String); impl Bearer { pub fn token(&self) -> &str { &self.0 } } } }
pub struct TypedHeader<T>(pub T);
#[axum::async_trait]
impl<S: Send + Sync> axum::extract::FromRequestParts<S> for TypedHeader<headers::Authorization<headers::authorization::Bearer>> {
    type Rejection = (http::StatusCode, &'static str);
    async fn from_request_parts(parts: &mut http::request::Parts, _: &S) -> Result<Self, Self::Rejection> {
        match parts.headers.get("authorization").and_then(|v| v.to_str().ok()).and_then(|s| s.strip_prefix("Bearer ")) {
            Some(t) => Ok(TypedHeader(headers::Authorization(headers::authorization::Bearer(t.to_string())))),
            None => Err((http::StatusCode::BAD_REQUEST, "missing bearer")),
        }
    }
}
