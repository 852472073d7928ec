// I01, I02, I03: what a request becomes
//@include base.rs
//@include ingest.rs
//@rule crate :: Context =>> crate::Context
//@rule crate :: Library =>> crate::Library
//@rule crate :: Page =>> crate::Page
//@rule crate :: Campaign =>> crate::Campaign
//@rule crate :: PropValue =>> crate::PropValue
//@rule v . into_iter ( ) . map ( | ( k , v ) | $$b ) . collect :: < _ > ( ) =>> { let ghost es_ = v.entries(); let all_ = v.list(); let mut out_: Vec<(String, crate::PropValue)> = Vec::new(); for pair_ in it: all_ invariant it.seq() == all_@, all_@.len() == es_.len(), forall|i: int| 0 <= i < all_@.len() ==> *(#[trigger] all_@[i]).0 == es_[i].0 && *all_@[i].1 == es_[i].1, out_@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> #[trigger] out_@[i] == (es_[i].0, plain_value(es_[i].1)) { let ghost at_ = it.index@; let k = pair_.0; let v = pair_.1.same(); let x_ = $$b; out_.push(x_); } proof { assert(out_@ =~= plain_entries(es_)); } collected(out_) }
//@rule v . into ( ) =>> convert(v)
//@rule $~x . map ( | $v | $$b ) =>> (match $x { Some($v) => Some($$b), None => None })
//@rule $~x . unwrap_or_else ( Utc :: now ) =>> (match $x { Some(t_) => t_, None => Utc::now() })
//@rule self . track . lock ( ) . unwrap ( ) . execute ( $$a ) =>> self.track.execute(log, $$a)
//@rule self . identify . lock ( ) . unwrap ( ) . execute ( $$a ) =>> self.identify.execute(log, $$a)
//@rule Arc < Mutex < Executor < crate :: $t > > > =>> Executor<crate::$t>
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Log<T> { x: std::marker::PhantomData<T> }
impl<T> Log<T> { pub uninterp spec fn seen(self) -> Seq<(RequestContext, T)>; }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Executor<T> { x: std::marker::PhantomData<T> }
impl<T> Executor<T> { pub uninterp spec fn answer(self, ctx: RequestContext, req: T) -> Result<()>;
    #[verifier::external_body] pub fn execute(&self, log: &mut Log<T>, ctx: &RequestContext, req: T) -> (r: Result<()>) ensures r == self.answer(*ctx, req), final(log).seen() == old(log).seen().push((*ctx, req)) { unimplemented!() } }
#[verifier::external_body] pub fn collected(v: Vec<(String, PropValue)>) -> (r: HashMap<String, PropValue>) ensures r.entries() == v@ { unimplemented!() }
pub open spec fn plain_value(v: http::PropValue) -> PropValue { match v { http::PropValue::Date(t) => PropValue::Date(t), http::PropValue::String(s) => PropValue::String(s), http::PropValue::Number(n) => PropValue::Number(n), http::PropValue::Bool(b) => PropValue::Bool(b) } }
pub open spec fn plain_entries(s: Seq<(String, http::PropValue)>) -> Seq<(String, PropValue)> { Seq::new(s.len(), |i: int| (s[i].0, plain_value(s[i].1))) }
pub open spec fn context_is(c: http::Context, from: IpAddr, x: Context) -> bool {
    (match c.library { Some(l) => x.library == Some(Library { name: l.name, version: l.version }), None => x.library is None })
    && (match c.page { Some(g) => x.page == Some(Page { path: g.path, referrer: g.referrer, search: g.search, title: g.title, url: g.url }), None => x.page is None })
    && x.user_agent == c.user_agent && x.ip == (match c.ip { Some(a) => a, None => from })
    && (match c.campaign { Some(m) => x.campaign == Some(Campaign { source: m.source, medium: m.medium, campaign: m.campaign, term: m.term, content: m.content }), None => x.campaign is None })
}
pub open spec fn values_are(h: Option<HashMap<String, http::PropValue>>, x: Option<HashMap<String, PropValue>>) -> bool { match h { Some(h) => x is Some && (x->0).entries() == plain_entries(h.entries()), None => x is None } }
pub open spec fn time_is(t: Option<DateTime<Utc>>, x: DateTime<Utc>) -> bool { t is Some ==> x == t->0 }
pub mod http { use super::{Log, Executor, RequestContext, Result, plain_value, plain_entries, context_is, values_are, time_is, collected, Same, DateTime, Utc, IpAddr, Decimal, HashMap}; use vstd::prelude::*; use std::sync::Arc; broadcast use {crate::all};
//@item src/ingester/src/sources/http/mod.rs Campaign | vis=keep
//@item src/ingester/src/sources/http/mod.rs Context | vis=keep
//@item src/ingester/src/sources/http/mod.rs Library | vis=keep
//@item src/ingester/src/sources/http/mod.rs Page | vis=keep
//@item src/ingester/src/sources/http/mod.rs PropValue | vis=keep
//@item src/ingester/src/sources/http/mod.rs IdentifyRequest | vis=keep
//@item src/ingester/src/sources/http/mod.rs TrackRequest | vis=keep
//@fn src/ingester/src/sources/http/mod.rs [From<PropValue> for crate::PropValue]::from | ret=r block name=convert vis=keep
//@rule Self =>> crate::PropValue
//@contract
    ensures r == plain_value(value),
//@end
//@item src/ingester/src/sources/http/mod.rs App | vis=keep
impl App {
pub closed spec fn track_answer(self, ctx: RequestContext, req: crate::Track) -> Result<()> { self.track.answer(ctx, req) }
pub closed spec fn identify_answer(self, ctx: RequestContext, req: crate::Identify) -> Result<()> { self.identify.answer(ctx, req) }
//@fn src/ingester/src/sources/http/mod.rs App::track | ret=r block extra="log: &mut Log<crate::Track>"
//@contract
    ensures final(log).seen().len() == old(log).seen().len() + 1, final(log).seen().drop_last() =~= old(log).seen(), final(log).seen().last().0 == *ctx, r == self.track_answer(*ctx, final(log).seen().last().1),
        ({ let t = final(log).seen().last().1; t.user_id == req.user_id && t.anonymous_id == req.anonymous_id && t.group_values == req.groups }),
        ({ let t = final(log).seen().last().1; time_is(req.timestamp, t.timestamp) && context_is(req.context, ctx.client_ip, t.context) && t.event == req.event && values_are(req.properties, t.properties)
            && t.resolved_user_id is None && t.resolved_event is None && t.resolved_properties is None && t.resolved_group_values is None }),
//@end
//@fn src/ingester/src/sources/http/mod.rs App::identify | ret=r block extra="log: &mut Log<crate::Identify>"
//@contract
    ensures final(log).seen().len() == old(log).seen().len() + 1, final(log).seen().drop_last() =~= old(log).seen(), final(log).seen().last().0 == *ctx, r == self.identify_answer(*ctx, final(log).seen().last().1),
        ({ let t = final(log).seen().last().1; time_is(req.timestamp, t.timestamp) && context_is(req.context, ctx.client_ip, t.context) && t.group == req.group && t.id == req.id && values_are(req.properties, t.properties) && t.resolved_properties is None && t.resolved_group_values is None }),
//@end
}
} } fn main() {}
