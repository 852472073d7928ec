//! Stand-in for tower-http layers (no-ops) and static file services (404).
pub mod cors { #[derive(Clone, Copy)] pub struct Any; #[derive(Clone, Default)] pub struct CorsLayer;
  impl CorsLayer { pub fn new() -> Self { Self } pub fn allow_methods(self, _: Any) -> Self { self } pub fn allow_origin(self, _: Any) -> Self { self } pub fn allow_headers(self, _: Any) -> Self { self } }
  impl<S> tower::Layer<S> for CorsLayer { type Service = S; fn layer(&self, s: S) -> S { s } } }
pub mod trace { #[derive(Clone, Default)] pub struct TraceLayer; impl TraceLayer { pub fn new_for_http() -> Self { Self } } impl<S> tower::Layer<S> for TraceLayer { type Service = S; fn layer(&self, s: S) -> S { s } } }
pub mod services {
  use std::{convert::Infallible, future::Ready, path::Path, task::{Context, Poll}};
  #[derive(Clone)] pub struct ServeDir; #[derive(Clone)] pub struct ServeFile;
  impl ServeDir { pub fn new<P: AsRef<Path>>(_: P) -> Self { Self } pub fn not_found_service(self, _: ServeFile) -> Self { self } }
  impl ServeFile { pub fn new<P: AsRef<Path>>(_: P) -> Self { Self } }
  impl tower::Service<http::Request<axum::body::Body>> for ServeDir {
    type Response = axum::response::Response; type Error = Infallible; type Future = Ready<Result<Self::Response, Infallible>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Infallible>> { Poll::Ready(Ok(())) }
    fn call(&mut self, _: http::Request<axum::body::Body>) -> Self::Future { std::future::ready(Ok(axum::response::IntoResponse::into_response(http::StatusCode::NOT_FOUND))) }
  }
}
