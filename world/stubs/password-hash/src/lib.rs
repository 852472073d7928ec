//! Stand-in for `password-hash`: "$stub$salt$hex" strings, not cryptographic.
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum Error { Password, PhcStringField }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub struct SaltString(String);
impl SaltString { pub fn generate<R>(_: R) -> Self { SaltString("salt".into()) } }
pub trait PasswordVerifier { fn alg(&self) -> &'static str; }
pub struct PasswordHash<'a> { s: std::borrow::Cow<'a, str> }
fn enc(p: &[u8]) -> String { p.iter().map(|b| format!("{:02x}", b)).collect() }
impl<'a> PasswordHash<'a> {
    pub fn new(s: &'a str) -> Result<Self> { if s.starts_with("$stub$") { Ok(Self { s: s.into() }) } else { Err(Error::PhcStringField) } }
    pub fn generate<P, S>(_: P, password: impl AsRef<[u8]>, _: S) -> Result<PasswordHash<'static>> { Ok(PasswordHash { s: format!("$stub$salt${}", enc(password.as_ref())).into() }) }
    pub fn verify_password(&self, _: &[&dyn PasswordVerifier], password: impl AsRef<[u8]>) -> Result<()> {
        if self.s == format!("$stub$salt${}", enc(password.as_ref())) { Ok(()) } else { Err(Error::Password) }
    }
}
impl<'a> std::fmt::Display for PasswordHash<'a> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.s) } }
