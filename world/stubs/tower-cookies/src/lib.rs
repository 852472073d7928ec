//! Stand-in for tower-cookies: an extractor over the Cookie header plus a recorder of added cookies.
pub use cookie::Cookie;
use std::sync::{Arc, Mutex};
#[derive(Clone, Default, Debug)]
pub struct Cookies { inner: Arc<Mutex<Vec<Cookie<'static>>>> }
impl Cookies {
    pub fn add(&self, c: Cookie<'static>) { let mut v = self.inner.lock().unwrap(); v.retain(|x| x.name() != c.name()); v.push(c); }
    pub fn get(&self, n: &str) -> Option<Cookie<'static>> { self.inner.lock().unwrap().iter().find(|c| c.name() == n).cloned() }
    pub fn remove(&self, c: Cookie<'static>) { self.inner.lock().unwrap().retain(|x| x.name() != c.name()); }
}
#[axum::async_trait]
impl<S: Send + Sync> axum::extract::FromRequestParts<S> for Cookies {
    type Rejection = (http::StatusCode, &'static str);
    async fn from_request_parts(parts: &mut http::request::Parts, _: &S) -> Result<Self, Self::Rejection> {
        let c = Cookies::default();
        for h in parts.headers.get_all("cookie") { if let Ok(s) = h.to_str() { for p in s.split(';') { if let Ok(k) = Cookie::parse(p.trim().to_string()) { c.add(k); } } } }
        Ok(c)
    }
}
#[derive(Clone, Default)] pub struct CookieManagerLayer;
impl CookieManagerLayer { pub fn new() -> Self { Self } }
impl<S> tower::Layer<S> for CookieManagerLayer { type Service = S; fn layer(&self, s: S) -> S { s } }
