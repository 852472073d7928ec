// ---- the executor's world (assumed contracts) and what both kinds of requests share
//@rule Arc < Properties > =>> Properties
//@rule Arc < Dictionaries > =>> Dictionaries
//@rule Arc < dyn Transformer < $a > > =>> Step<$a>
//@rule Arc < dyn Destination < $a > > =>> Sink<$a>
//@rule counter ! ( $$x ) . increment ( $$y ) ; =>> 
//@rule histogram ! ( $$x ) . record ( $$y ) ; =>> 
//@rule let init_time = Instant :: now ( ) ; =>> 
//@rule dest . send ( & ctx , $$r ) ? =>> dest.send(log, &ctx, $$r)?
//@rule for ( group_name , group_val ) in groups =>> for pair_ in it: all_
//@rule props . iter ( ) . map ( | ( k , v ) | $$b ) . collect :: < Result < Vec < PropertyAndValue > > > ( ) ? =>> { let ghost es_ = props.entries(); let all_ = props.list(); let mut out_: Vec<PropertyAndValue> = Vec::new(); for pair_ in it: all_ invariant ctx.project_id is Some, it.seq() == all_@, all_@.len() == es_.len(), forall|i: int| 0 <= i < all_@.len() ==> *(#[trigger] all_@[i]).0 == es_[i].0 && *all_@[i].1 == es_[i].1, resolved(ctx.project_id->0, properties.kind(), es_.take(it.index@), out_@) { let ghost at_ = it.index@; let ghost b_ = out_@; let k = pair_.0; let v = pair_.1; let x_ = $$b?; out_.push(x_); proof { assert(out_@ =~= b_.push(x_)); assert(es_.take(at_ + 1) =~= es_.take(at_).push(es_[at_])); } } proof { assert(es_.take(es_.len() as int) =~= es_); } out_ }
//@rule req . resolved_properties . clone ( ) . map ( | props | props . iter ( ) . map ( | p | $$e ) . collect :: < Vec < u64 > > ( ) ) =>> match &req.resolved_properties { Some(props) => { let mut out_: Vec<u64> = Vec::new(); for p in it: props { out_.push($$e); } Some(out_) } None => None }
//@rule props . iter ( ) . map ( | p | $$e ) . collect ( ) =>> { let mut out_: Vec<u64> = Vec::new(); for p in it: props invariant out_@.len() == it.index@, it.seq().len() == props@.len(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] *it.seq()[i] == props@[i], forall|i: int| 0 <= i < it.index@ ==> #[trigger] out_@[i] == props@[i].property.id { let ghost at_ = it.index@; proof { assert(*it.seq()[at_] == props@[at_]); } out_.push($$e); } proof { assert(out_@ =~= ids(props@)); } out_ }
//@include ingestvalues.rs
pub open spec fn ids(s: Seq<PropertyAndValue>) -> Seq<u64> { Seq::new(s.len(), |i: int| s[i].property.id) }
pub use metadata::properties::CreatePropertyRequest;
pub use metadata::properties::Status;
pub use metadata::events::{Event, CreateEventRequest};
// ---- the store's answers to the executor
/// the project a token belongs to
pub uninterp spec fn by_token(token: Seq<char>) -> u64;
/// the property of a name as it was before the request
pub uninterp spec fn known(kind: Option<nat>, p: u64, name: Seq<char>) -> Option<Property>;
/// what group `g` keeps for an id
pub uninterp spec fn member(p: u64, g: u64, id: Seq<char>, v: GroupValues) -> bool;
/// what group `g` keeps for an id once these values are written
pub uninterp spec fn written(p: u64, g: u64, id: Seq<char>, vals: Seq<PropertyValue>, v: GroupValues) -> bool;
/// the user behind an anonymous id
pub uninterp spec fn anonymous_is(p: u64, g: u64, anonymous: Seq<char>, n: u64) -> bool;
/// the user of an id, once an anonymous one is joined to it
pub uninterp spec fn merged(p: u64, g: u64, anonymous: Seq<char>, id: Seq<char>, v: GroupValues) -> bool;
pub uninterp spec fn group_named(p: u64, name: Seq<char>) -> u64;
/// the properties are recorded as the event's
pub uninterp spec fn attached(p: u64, event: u64, props: Seq<u64>) -> bool;
pub struct Project { pub id: u64, pub session_duration_seconds: u64 }
#[verifier::external_body] pub struct Projects { x: u8 }
impl Projects {
    #[verifier::external_body] pub fn get_by_token(&self, token: &str) -> (r: Result<Project>) ensures r is Ok ==> r->Ok_0.id == by_token(token@) { unimplemented!() }
    #[verifier::external_body] pub fn increment_events_counter(&self, project_id: u64) -> (r: Result<()>) { unimplemented!() }
}
pub struct Group { pub id: u64, pub name: String, pub display_name: String }
#[verifier::external_body] pub struct Groups { x: u8 }
impl Groups {
    #[verifier::external_body] pub fn get_or_create(&self, project_id: u64, group_id: u64, key: &str, values: Vec<PropertyValue>) -> (r: Result<GroupValues>) requires values@.len() == 0 ensures r is Ok ==> member(project_id, group_id, key@, r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn get_or_create_anonymous_id(&self, project_id: u64, group_id: u64, key: &str) -> (r: Result<u64>) ensures r is Ok ==> anonymous_is(project_id, group_id, key@, r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn merge_with_anonymous(&self, project_id: u64, group_id: u64, anonymous: &str, id: &str, values: Vec<PropertyValue>) -> (r: Result<GroupValues>) requires values@.len() == 0 ensures r is Ok ==> merged(project_id, group_id, anonymous@, id@, r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn create_or_update(&self, project_id: u64, group_id: u64, key: &str, values: Vec<PropertyValue>) -> (r: Result<GroupValues>) ensures r is Ok ==> written(project_id, group_id, key@, values@, r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn get_or_create_group(&self, project_id: u64, name: String, display_name: String) -> (r: Result<Group>) ensures r is Ok ==> r->Ok_0.id == group_named(project_id, name@) && r->Ok_0.id < GROUPS_COUNT { unimplemented!() }
}
#[verifier::external_body] pub struct Events { x: u8 }
impl Events {
    #[verifier::external_body] pub fn get_or_create(&self, project_id: u64, req: CreateEventRequest) -> (r: Result<Event>) ensures r is Ok ==> r->Ok_0.id == event_named(project_id, req.name@) { unimplemented!() }
    #[verifier::external_body] pub fn try_attach_properties(&self, project_id: u64, event_id: u64, prop_ids: Vec<u64>) -> (r: Result<()>) ensures r is Ok ==> attached(project_id, event_id, prop_ids@) { unimplemented!() }
}
/// the property that stands for a name: the one there was, or a new one of the request's kind
pub open spec fn stands(kind: Option<nat>, p: u64, name: Seq<char>, typ: DType, dict: Option<DictionaryType>, x: Property) -> bool {
    x == prop_named(kind, p, name) && (x.is_dictionary ==> x.dictionary_type is Some) && match known(kind, p, name) { Some(k) => x == k, None => x.data_type == typ && x.is_dictionary == (dict is Some) && x.dictionary_type == dict && x.nullable && !x.is_array && !x.is_system && !x.hidden }
}
pub open spec fn kind_of(t: Type) -> Option<nat> { match t { Type::Event => None, Type::Group(g) => Some(g as nat) } }
impl Properties {
    #[verifier::external_body] pub fn get_or_create(&self, project_id: u64, req: CreatePropertyRequest) -> (r: Result<Property>)
        requires kind_of(req.typ) == self.kind(), req.is_dictionary <==> req.dictionary_type is Some, req.nullable, !req.is_array, !req.is_system, !req.hidden
        ensures r is Ok ==> stands(self.kind(), project_id, req.name@, req.data_type, req.dictionary_type, r->Ok_0) { unimplemented!() }
}
pub struct MetadataProvider { pub projects: Projects, pub groups: Groups, pub events: Events, pub dictionaries: Dictionaries, pub event_properties: Properties, pub group_properties: Vec<Properties> }
impl MetadataProvider { pub open spec fn wf(self) -> bool { self.event_properties.kind() is None && self.group_properties@.len() == GROUPS_COUNT && forall|g: int| 0 <= g < self.group_properties@.len() ==> (#[trigger] self.group_properties@[g]).kind() == Some(g as nat) } }
#[verifier::external_body] pub struct OptiDBImpl { x: u8 }
// ---- what is sent on, and to whom
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Log<T> { x: std::marker::PhantomData<T> }
impl<T> Log<T> { pub uninterp spec fn sent(self) -> Seq<(RequestContext, T)>; }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Step<T> { x: std::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Sink<T> { x: std::marker::PhantomData<T> }
impl<T> Sink<T> { #[verifier::external_body] pub fn send(&self, log: &mut Log<T>, ctx: &RequestContext, req: T) -> (r: Result<()>) ensures r is Ok ==> final(log).sent() == old(log).sent().push((*ctx, req)), r is Err ==> final(log).sent() == old(log).sent() { unimplemented!() } }
pub open spec fn all_typed(s: Seq<PropertyAndValue>) -> bool { forall|i: int| 0 <= i < s.len() ==> typed(#[trigger] s[i]) }
/// more properties, and nothing else
pub open spec fn more(a: Track, b: Track) -> bool {
    b == (Track { resolved_properties: b.resolved_properties, ..a }) && starts(given(a.resolved_properties), given(b.resolved_properties)) && (all_typed(given(a.resolved_properties)) ==> all_typed(given(b.resolved_properties)))
}
pub open spec fn starts(a: Seq<PropertyAndValue>, b: Seq<PropertyAndValue>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
impl Step<Track> { #[verifier::external_body] pub fn process(&self, ctx: &RequestContext, req: Track) -> (r: Result<Track>) ensures r is Ok ==> more(req, r->Ok_0) { unimplemented!() } }
impl Step<Identify> { #[verifier::external_body] pub fn process(&self, ctx: &RequestContext, req: Identify) -> (r: Result<Identify>) ensures r is Ok ==> r->Ok_0 == req { unimplemented!() } }
pub open spec fn col_type(v: PropValue) -> DType { match v { PropValue::Date(_) => DType::Timestamp, PropValue::String(_) => DType::String, PropValue::Number(_) => DType::Decimal, PropValue::Bool(_) => DType::Boolean } }
pub open spec fn col_dict(v: PropValue) -> Option<DictionaryType> { if v is String { Some(DictionaryType::Int64) } else { None } }
/// each given name with its value, once, under its property
pub open spec fn resolved(p: u64, kind: Option<nat>, e: Seq<(String, PropValue)>, s: Seq<PropertyAndValue>) -> bool {
    s.len() == e.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).value == e[i].1 && stands(kind, p, e[i].0@, col_type(e[i].1), col_dict(e[i].1), s[i].property)
}
// ---- the user and the groups of an event
pub open spec fn only_user(req: Track) -> bool { req.user_id is Some && req.anonymous_id is None }
pub open spec fn user_is(p: u64, req: Track, n: u64) -> bool {
    match (req.user_id, req.anonymous_id) {
        (Some(u), None) => (exists|v: GroupValues| #[trigger] member(p, GROUP_USER_ID as u64, u@, v) && v.id == n) && stands_for(p, TABLE_EVENTS@, gcol(0), n, u@),
        (None, Some(a)) => anonymous_is(p, GROUP_USER_ID as u64, a@, n) && stands_for(p, TABLE_EVENTS@, gcol(0), n, a@),
        (Some(u), Some(a)) => exists|v: GroupValues| #[trigger] merged(p, GROUP_USER_ID as u64, a@, u@, v) && v.id == n,
        _ => false,
    }
}
/// one group the request names
pub open spec fn group_is(p: u64, e: (String, String), x: (usize, GroupValues)) -> bool { x.0 == group_named(p, e.0@) && x.0 < GROUPS_COUNT && member(p, x.0 as u64, e.1@, x.1) && stands_for(p, TABLE_EVENTS@, gcol(x.0 as nat), x.1.id, e.1@) }
/// the user's own profile, when there is one, and each group named
pub open spec fn groups_are(p: u64, user: Option<GroupValues>, e: Seq<(String, String)>, s: Seq<(usize, GroupValues)>) -> bool {
    match user { Some(v) => s.len() == e.len() + 1 && s[0] == (0usize, v) && forall|i: int| 0 <= i < e.len() ==> group_is(p, #[trigger] e[i], s[i + 1]), None => s.len() == e.len() && forall|i: int| 0 <= i < e.len() ==> group_is(p, #[trigger] e[i], s[i]) }
}
/// what is sent on for a request
pub open spec fn about(p: u64, req: Track, out: Track) -> bool {
    out.timestamp == req.timestamp && out.context == req.context
    && out.resolved_user_id is Some && (exists|n: u64| #[trigger] user_is(p, req, n) && out.resolved_user_id->0 == n as i64)
    && out.resolved_event is Some && (out.resolved_event->0).id == event_named(p, req.event@)
    && (match req.properties { Some(h) => exists|s: Seq<PropertyAndValue>| #[trigger] resolved(p, None, h.entries(), s) && starts(s, given(out.resolved_properties)) && attached(p, (out.resolved_event->0).id, ids(s)), None => true })
    && (match req.group_values { Some(h) => out.resolved_group_values is Some && exists|u: Option<GroupValues>| (u is Some <==> only_user(req)) && (u is Some ==> member(p, 0, (req.user_id->0)@, u->0)) && #[trigger] groups_are(p, u, h.entries(), given(out.resolved_group_values)), None => out.resolved_group_values is None })
}
pub open spec fn sendable(ctx: RequestContext, req: Track) -> bool { ctx.project_id is Some && req.resolved_user_id is Some && req.resolved_event is Some && (forall|i: int| 0 <= i < given(req.resolved_properties).len() ==> typed(#[trigger] given(req.resolved_properties)[i])) && (forall|i: int| 0 <= i < given(req.resolved_group_values).len() ==> (#[trigger] given(req.resolved_group_values)[i]).0 < GROUPS_COUNT) }
pub open spec fn fresh(req: Track) -> bool { req.resolved_user_id is None && req.resolved_event is None && req.resolved_properties is None && req.resolved_group_values is None }
/// each value as the profile stores it
pub open spec fn cells(p: u64, g: nat, s: Seq<PropertyAndValue>, v: Seq<PropertyValue>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i]).property_id == s[i].property.id && s_value(p, gcol(g), s[i]) == Some(plain(v[i].value)) }
/// the values a request writes
pub open spec fn writes(p: u64, g: u64, req: Identify, s: Seq<PropertyAndValue>, v: Seq<PropertyValue>) -> bool { (match req.properties { Some(h) => resolved(p, Some(g as nat), h.entries(), s), None => s.len() == 0 }) && cells(p, g as nat, s, v) }
pub open spec fn of_profile(p: u64, req: Identify, out: Identify) -> bool {
    out.timestamp == req.timestamp && out.group_id == group_named(p, req.group@) && out.group_id < GROUPS_COUNT && out.resolved_group_values is Some
    && stands_for(p, gcol(out.group_id as nat), GROUP_COLUMN_ID@, (out.resolved_group_values->0).id, req.id@)
    && exists|s: Seq<PropertyAndValue>, v: Seq<PropertyValue>| #[trigger] writes(p, out.group_id, req, s, v) && written(p, out.group_id, req.id@, v, out.resolved_group_values->0)
}
pub mod exec { use super::*; broadcast use {crate::all};
//@fn src/ingester/src/executor.rs resolve_property | ret=r block
//@contract
    requires ctx.project_id is Some, kind_of(typ) == properties.kind(),
    ensures r is Ok ==> r->Ok_0.value == val && stands(properties.kind(), ctx.project_id->0, name@, col_type(val), col_dict(val), r->Ok_0.property),
//@end
//@fn src/ingester/src/executor.rs resolve_properties | ret=r block
//@contract
    requires ctx.project_id is Some, kind_of(typ) == properties.kind(),
    ensures r is Ok ==> resolved(ctx.project_id->0, properties.kind(), props.entries(), r->Ok_0@),
//@end
//@item src/ingester/src/executor.rs Executor | vis=keep attr="#[verifier::reject_recursive_types(T)]"
impl<T> Executor<T> {
    pub closed spec fn wf(self) -> bool { self.md.wf() }
    pub closed spec fn sinks(self) -> nat { self.destinations@.len() }
}
