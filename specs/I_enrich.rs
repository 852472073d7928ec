// I01: what geo and user agent add to an event
//@include base.rs
//@include ingest.rs
//@rule Arc < Properties > =>> Properties
//@rule . as_ref ( ) =>> .as_str()
//@rule s . push ( $$c ) ; =>> push_char(&mut s, $$c);
//@rule s . push_str ( $$e ) ; =>> push_text(&mut s, $$e);
//@rule String :: new ( ) =>> no_text()
//@rule maxminddb :: Reader < Vec < u8 > > =>> Reader
//@rule other . into ( ) =>> IngesterError::Maxmind(other)
//@rule types :: $n =>> crate::$n
//@item src/common/src/types.rs EVENT_PROPERTY_COUNTRY | vis=keep
//@item src/common/src/types.rs EVENT_PROPERTY_CITY | vis=keep
//@item src/common/src/types.rs EVENT_PROPERTY_CLIENT_FAMILY | vis=keep
//@item src/common/src/types.rs EVENT_PROPERTY_CLIENT_VERSION_MAJOR | vis=keep
//@item src/common/src/types.rs EVENT_PROPERTY_CLIENT_VERSION_MINOR | vis=keep
//@item src/common/src/types.rs EVENT_PROPERTY_DEVICE_FAMILY | vis=keep
//@item src/common/src/types.rs EVENT_PROPERTY_DEVICE_BRAND | vis=keep
//@item src/common/src/types.rs EVENT_PROPERTY_DEVICE_MODEL | vis=keep
//@item src/common/src/types.rs EVENT_PROPERTY_OS | vis=keep
//@item src/common/src/types.rs EVENT_PROPERTY_OS_FAMILY | vis=keep
//@item src/common/src/types.rs EVENT_PROPERTY_OS_VERSION_MAJOR | vis=keep
//@item src/common/src/types.rs EVENT_PROPERTY_OS_VERSION_MINOR | vis=keep
//@item src/common/src/types.rs EVENT_PROPERTY_OS_VERSION_PATCH | vis=keep
//@item src/common/src/types.rs EVENT_PROPERTY_OS_VERSION_PATCH_MINOR | vis=keep
#[verifier::external_body] pub fn no_text() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn push_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body] pub fn push_text(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
/// one more value of a named property
pub open spec fn named(p: u64, name: Seq<char>, text: Seq<char>) -> Seq<PropertyAndValue> { seq![PropertyAndValue { property: prop_named(None, p, name), value: PropValue::String(string_of(text)) }] }
pub open spec fn if_any(p: u64, name: Seq<char>, text: Option<String>) -> Seq<PropertyAndValue> { match text { Some(t) => named(p, name, t@), None => seq![] } }
// ---- geo
pub mod geoip2 { use super::*;
    pub struct City { pub country: Option<Place>, pub city: Option<Place> }
    pub struct Place { pub names: Option<Names> }
    #[verifier::external_body] pub struct Names { x: u8 }
    impl Names { pub uninterp spec fn tab(self) -> Map<Seq<char>, Seq<char>>; #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&&str>) ensures r is Some <==> self.tab().contains_key(k@), r is Some ==> (**r->0)@ == self.tab()[k@] { unimplemented!() } }
}
#[verifier::external_body] pub struct Reader { x: u8 }
impl Reader { pub uninterp spec fn at(self, ip: IpAddr) -> geoip2::City; pub uninterp spec fn knows(self, ip: IpAddr) -> bool;
    #[verifier::external_body] pub fn lookup(&self, ip: IpAddr) -> (r: Result<geoip2::City>) ensures r is Ok ==> self.knows(ip) && r->Ok_0 == self.at(ip), r is Err ==> r->Err_0 is Maxmind && (r->Err_0->Maxmind_0 is AddressNotFoundError ==> !self.knows(ip)) { unimplemented!() } }
pub open spec fn english(x: Option<geoip2::Place>) -> Option<Seq<char>> { match x { Some(l) => match l.names { Some(n) => if n.tab().contains_key("en"@) { Some(n.tab()["en"@]) } else { None }, None => None }, None => None } }
pub open spec fn place(p: u64, name: Seq<char>, x: Option<Seq<char>>) -> Seq<PropertyAndValue> { match x { Some(t) => named(p, name, t), None => seq![] } }
pub open spec fn geo_of(p: u64, c: geoip2::City) -> Seq<PropertyAndValue> { place(p, EVENT_PROPERTY_COUNTRY@, english(c.country)) + place(p, EVENT_PROPERTY_CITY@, english(c.city)) }
pub mod geo { use super::*; broadcast use {crate::all};
//@fn src/ingester/src/transformers/geo/mod.rs resolve_properties | ret=r block
//@contract
    requires ctx.project_id is Some, props_prov.kind() is None,
    ensures r is Ok ==> city_rdr.knows(context.ip) && r->Ok_0@ =~= props@ + geo_of(ctx.project_id->0, city_rdr.at(context.ip)), r is Err && r->Err_0 is Maxmind && r->Err_0->Maxmind_0 is AddressNotFoundError ==> !city_rdr.knows(context.ip),
//@end
//@item src/ingester/src/transformers/geo/track.rs Geo | vis=keep
impl Geo {
pub closed spec fn wf(self) -> bool { self.properties.kind() is None }
/// what the address adds
pub closed spec fn adds(self, p: u64, ip: IpAddr) -> Seq<PropertyAndValue> { if self.city_rdr.knows(ip) { geo_of(p, self.city_rdr.at(ip)) } else { seq![] } }
//@fn src/ingester/src/transformers/geo/track.rs [Transformer<Track> for Geo]::process | ret=r block
//@contract
    requires ctx.project_id is Some, self.wf(),
    ensures r is Ok ==> r->Ok_0 == (Track { resolved_properties: r->Ok_0.resolved_properties, ..req }) && given(r->Ok_0.resolved_properties) =~= given(req.resolved_properties) + self.adds(ctx.project_id->0, req.context.ip),
//@end
}
}
// ---- user agent
pub struct Device { pub family: String, pub brand: Option<String>, pub model: Option<String> }
pub struct Os { pub family: String, pub major: Option<String>, pub minor: Option<String>, pub patch: Option<String>, pub patch_minor: Option<String> }
pub struct Agent { pub family: String, pub major: Option<String>, pub minor: Option<String>, pub patch: Option<String> }
pub struct Client { pub device: Device, pub os: Os, pub user_agent: Agent }
#[verifier::external_body] pub struct UserAgentParser { x: u8 }
impl UserAgentParser { pub uninterp spec fn reads(self, ua: Seq<char>) -> Client; #[verifier::external_body] pub fn parse(&self, ua: &str) -> (r: Client) ensures r == self.reads(ua@) { unimplemented!() } }
/// the system's name and version: parts as long as they are known
pub open spec fn os_name(o: Os) -> Seq<char> {
    o.family@ + match o.major { None => seq![], Some(a) => seq![' '] + a@ + match o.minor { None => seq![], Some(b) => seq!['.'] + b@ + match o.patch { None => seq![], Some(c) => seq!['.'] + c@ + match o.patch_minor { None => seq![], Some(d) => seq!['.'] + d@ } } } }
}
pub open spec fn plus(b: Seq<PropertyAndValue>, p: u64, name: Seq<char>, text: Seq<char>) -> Seq<PropertyAndValue> { b.push(PropertyAndValue { property: prop_named(None, p, name), value: PropValue::String(string_of(text)) }) }
pub open spec fn plus_if(b: Seq<PropertyAndValue>, p: u64, name: Seq<char>, text: Option<String>) -> Seq<PropertyAndValue> { match text { Some(t) => plus(b, p, name, t@), None => b } }
pub open spec fn with_client(b: Seq<PropertyAndValue>, p: u64, c: Agent) -> Seq<PropertyAndValue> { plus_if(plus_if(plus(b, p, EVENT_PROPERTY_CLIENT_FAMILY@, c.family@), p, EVENT_PROPERTY_CLIENT_VERSION_MAJOR@, c.major), p, EVENT_PROPERTY_CLIENT_VERSION_MINOR@, c.minor) }
pub open spec fn with_device(b: Seq<PropertyAndValue>, p: u64, d: Device) -> Seq<PropertyAndValue> { plus_if(plus_if(plus(b, p, EVENT_PROPERTY_DEVICE_FAMILY@, d.family@), p, EVENT_PROPERTY_DEVICE_BRAND@, d.brand), p, EVENT_PROPERTY_DEVICE_MODEL@, d.model) }
pub open spec fn with_os(b: Seq<PropertyAndValue>, p: u64, o: Os) -> Seq<PropertyAndValue> { plus_if(plus_if(plus_if(plus_if(plus(plus(b, p, EVENT_PROPERTY_OS@, o.family@), p, EVENT_PROPERTY_OS_FAMILY@, os_name(o)), p, EVENT_PROPERTY_OS_VERSION_MAJOR@, o.major), p, EVENT_PROPERTY_OS_VERSION_MINOR@, o.minor), p, EVENT_PROPERTY_OS_VERSION_PATCH@, o.patch), p, EVENT_PROPERTY_OS_VERSION_PATCH_MINOR@, o.patch_minor) }
/// what is known of a client, after what the event has already
#[verifier::opaque] pub open spec fn with_agent(b: Seq<PropertyAndValue>, p: u64, c: Client) -> Seq<PropertyAndValue> { with_os(with_device(with_client(b, p, c.user_agent), p, c.device), p, c.os) }
pub proof fn lemma_agent(b: Seq<PropertyAndValue>, p: u64, c: Client) ensures b.len() < with_agent(b, p, c).len(), forall|i: int| 0 <= i < b.len() ==> with_agent(b, p, c)[i] == #[trigger] b[i] { reveal(with_agent); }
pub mod user_agent { use super::*; broadcast use {crate::all};
//@fn src/ingester/src/transformers/user_agent/mod.rs resolve_properties | ret=r block
//@contract
    requires ctx.project_id is Some, props_prov.kind() is None, context.user_agent is Some,
    ensures r is Ok ==> r->Ok_0@ == with_agent(props@, ctx.project_id->0, ua_parser.reads((context.user_agent->0)@)),
//@before let prop = PropertyAndValue { property , value : PropValue :: String ( s ) , } ;
    proof { assert(s@ =~= os_name(c_.os)); assert(props@ == plus(with_device(with_client(b_, ctx.project_id->0, c_.user_agent), ctx.project_id->0, c_.device), ctx.project_id->0, EVENT_PROPERTY_OS@, c_.os.family@)); }
//@after let client = $$e ;
    let ghost c_ = client; let ghost b_ = props@;
//@before Ok ( props )
    proof { assert(props@ == with_os(with_device(with_client(b_, ctx.project_id->0, c_.user_agent), ctx.project_id->0, c_.device), ctx.project_id->0, c_.os)); reveal(with_agent); }
//@end
//@item src/ingester/src/transformers/user_agent/track.rs UserAgent | vis=keep
impl UserAgent {
pub closed spec fn wf(self) -> bool { self.properties.kind() is None }
pub closed spec fn adds(self, b: Seq<PropertyAndValue>, p: u64, ua: Option<String>) -> Seq<PropertyAndValue> { match ua { Some(t) => with_agent(b, p, self.ua_parser.reads(t@)), None => b } }
//@fn src/ingester/src/transformers/user_agent/track.rs [Transformer<Track> for UserAgent]::process | ret=r block
//@start
    proof { if req.context.user_agent is Some { lemma_agent(given(req.resolved_properties), ctx.project_id->0, self.ua_parser.reads((req.context.user_agent->0)@)); } }
//@contract
    requires ctx.project_id is Some, self.wf(),
    ensures r is Ok ==> r->Ok_0 == (Track { resolved_properties: r->Ok_0.resolved_properties, ..req }) && given(r->Ok_0.resolved_properties) =~= self.adds(given(req.resolved_properties), ctx.project_id->0, req.context.user_agent),
//@end
}
}
} fn main() {}
