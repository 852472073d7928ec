//! Stand-in: fixed client derived from the string.
use std::borrow::Cow;
pub struct UserAgent<'a> { pub family: Cow<'a, str>, pub major: Option<Cow<'a, str>>, pub minor: Option<Cow<'a, str>>, pub patch: Option<Cow<'a, str>> }
pub struct Device<'a> { pub family: Cow<'a, str>, pub brand: Option<Cow<'a, str>>, pub model: Option<Cow<'a, str>> }
pub struct OS<'a> { pub family: Cow<'a, str>, pub major: Option<Cow<'a, str>>, pub minor: Option<Cow<'a, str>>, pub patch: Option<Cow<'a, str>>, pub patch_minor: Option<Cow<'a, str>> }
pub struct Client<'a> { pub device: Device<'a>, pub os: OS<'a>, pub user_agent: UserAgent<'a> }
pub trait Parser { fn parse<'a>(&self, s: &'a str) -> Client<'a>; }
#[derive(Debug, Clone)] pub struct UserAgentParser;
impl UserAgentParser { pub fn from_yaml(_: &str) -> Result<Self, String> { Ok(Self) } pub fn from_bytes(_: &[u8]) -> Result<Self, String> { Ok(Self) } pub fn stub() -> Self { Self } }
impl Parser for UserAgentParser {
    /// "fam|maj|min|dfam|brand|model|os|omaj|omin|opatch|opm" with empty = absent
    fn parse<'a>(&self, s: &'a str) -> Client<'a> {
        let p: Vec<&'a str> = s.split('|').collect();
        let g = |i: usize| -> Option<Cow<'a, str>> { p.get(i).filter(|x| !x.is_empty()).map(|x| Cow::Borrowed(*x)) };
        let f = |i: usize| -> Cow<'a, str> { g(i).unwrap_or(Cow::Borrowed("Other")) };
        Client { user_agent: UserAgent { family: f(0), major: g(1), minor: g(2), patch: None }, device: Device { family: f(3), brand: g(4), model: g(5) }, os: OS { family: f(6), major: g(7), minor: g(8), patch: g(9), patch_minor: g(10) } }
    }
}
