//! Stand-in: a table of addresses.
use std::net::IpAddr;
#[derive(Debug, Clone, PartialEq, Eq)] pub enum MaxMindDBError { AddressNotFoundError(String), InvalidDatabaseError(String), IoError(String), MapError(String), DecodingError(String), InvalidNetworkError(String) }
impl std::fmt::Display for MaxMindDBError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for MaxMindDBError {}
pub struct Reader<T> { pub t: Option<T>, pub tab: std::collections::BTreeMap<IpAddr, (Option<&'static str>, Option<&'static str>)> }
pub mod geoip2 {
    use std::collections::BTreeMap;
    #[derive(Default)] pub struct Names { pub names: Option<BTreeMap<&'static str, &'static str>> }
    #[derive(Default)] pub struct City { pub city: Option<Names>, pub country: Option<Names> }
    pub struct Country {}
}
impl<T> Reader<T> {
    pub fn from_source(_: T) -> Result<Self, MaxMindDBError> { Ok(Self { t: None, tab: Default::default() }) }
    pub fn lookup(&self, ip: IpAddr) -> Result<geoip2::City, MaxMindDBError> {
        match self.tab.get(&ip) {
            None => Err(MaxMindDBError::AddressNotFoundError("not found".into())),
            Some((country, city)) => { let mk = |x: &Option<&'static str>| x.map(|v| geoip2::Names { names: Some([("en", v)].into_iter().collect()) }); Ok(geoip2::City { city: mk(city), country: mk(country) }) }
        }
    }
}
impl Reader<Vec<u8>> { pub fn open_readfile<P: AsRef<std::path::Path>>(_: P) -> Result<Self, MaxMindDBError> { Ok(Self { t: None, tab: Default::default() }) } }
