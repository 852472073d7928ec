// I01: the rows a resolved event leaves
//@include base.rs
//@include ingest.rs
//@include ingestvalues.rs
//@rule $~x . as_ref ( ) . cloned ( ) . unwrap_or_else ( Vec :: new ) =>> or_none(&$x)
//@rule ( 1 .. GROUPS_COUNT ) . map ( | v | $$b ) . collect :: < Vec < _ > > ( ) =>> { let mut out_: Vec<NamedValue> = Vec::new(); for v in it: 1..GROUPS_COUNT invariant out_@.len() == it.index@, forall|k: int| 0 <= k < out_@.len() ==> (#[trigger] out_@[k]).n() == gcol((k + 1) as nat) && out_@[k].v() == Value::Int64(None) { out_.push($$b); } out_ }
//@rule groups . iter ( ) . map ( | ( group_id , group ) | { $$b } ) . collect :: < Vec < _ > > ( ) =>> { let all_ = groups; let mut out_: Vec<NamedValue> = Vec::new(); for pair_ in it: all_ invariant it.seq().len() == all_@.len(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] *it.seq()[i] == all_@[i], out_@.len() == it.index@, forall|k: int| 0 <= k < it.index@ ==> (#[trigger] out_@[k]).n() == gcol(all_@[k].0 as nat) && out_@[k].v() == Value::Int64(Some(all_@[k].1.id as i64)), forall|g: usize| found.keys().contains(g) <==> (exists|k: int| 0 <= k < it.index@ && (#[trigger] all_@[k]).0 == g) { let ghost at_ = it.index@; proof { assert(*it.seq()[at_] == all_@[at_]); } let group_id = &pair_.0; let group = &pair_.1; let ghost before_ = found.keys(); let one_ = { $$b }; out_.push(one_); proof { assert forall|g: usize| found.keys().contains(g) <==> (exists|k: int| 0 <= k < at_ + 1 && (#[trigger] all_@[k]).0 == g) by { if g == all_@[at_].0 { assert(all_@[at_].0 == g); } else if found.keys().contains(g) { assert(before_.contains(g)); } } } } proof { assert(all_@ == rg_); assert forall|x: nat| first(binds(out_@), #[trigger] gcol(x)) == (match in_group(rg_, x) { Some(k) => Some(Value::Int64(Some(k as i64))), None => None }) by { lemma_groups(binds(out_@), rg_, x); } assert forall|x: usize| #[trigger] found.keys().contains(x) <==> in_group(rg_, x as nat) is Some by { lemma_in(rg_, x as nat); } assert forall|k: int| 0 <= k < binds(out_@).len() implies exists|x: nat| x < GROUPS_COUNT && (#[trigger] binds(out_@)[k]).0 == #[trigger] gcol(x) by { assert(binds(out_@)[k].0 == gcol(rg_[k].0 as nat)); } } out_ }
//@rule HashMap :: new ( ) =>> Marked::new()
//@rule [ $$p ] . concat ( ) =>> joined(vec![$$p])
//@rule for ( group_id , group ) in resolved_groups =>> for pair_ in it: resolved_groups
#[verifier::external_body] pub fn or_none<T>(o: &Option<Vec<T>>) -> (r: Vec<T>) ensures r@ == given(*o) { unimplemented!() }
/// the groups a request has named so far
#[verifier::external_body] pub struct Marked { x: u8 }
impl Marked { pub uninterp spec fn keys(self) -> Set<usize>;
    #[verifier::external_body] pub fn new() -> (r: Marked) ensures r.keys() == Set::<usize>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: usize, v: ()) ensures final(self).keys() == old(self).keys().insert(k) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &usize) -> (r: bool) ensures r == self.keys().contains(*k) { unimplemented!() }
}
//@include ingestrow.rs
pub open spec fn profiles(p: u64, s: Seq<(usize, GroupValues)>) -> Seq<Bind> decreases s.len() { if s.len() == 0 { seq![] } else { profiles(p, s.drop_last()) + profile(p, s.last().0 as nat, s.last().1.values@) } }
pub open spec fn prop_binds(p: u64, s: Seq<PropertyAndValue>) -> Seq<Bind> { s.map_values(|x: PropertyAndValue| (x.property.column(), s_value(p, TABLE_EVENTS@, x)->0)) }
pub open spec fn storable(p: u64, s: Seq<PropertyAndValue>) -> bool { forall|i: int| 0 <= i < s.len() ==> s_value(p, TABLE_EVENTS@, #[trigger] s[i]) is Some }
pub open spec fn utm_one(p: u64, name: Seq<char>, text: Option<String>) -> Seq<Bind> { match text { Some(t) => seq![(prop_named(None, p, name).column(), s_value(p, TABLE_EVENTS@, PropertyAndValue { property: prop_named(None, p, name), value: PropValue::String(t) })->0)], None => seq![] } }
pub open spec fn utm_binds(p: u64, c: Option<Campaign>) -> Seq<Bind> { match c { None => seq![], Some(c) => utm_one(p, EVENT_PROPERTY_UTM_SOURCE@, Some(c.source)) + utm_one(p, EVENT_PROPERTY_UTM_MEDIUM@, c.medium) + utm_one(p, EVENT_PROPERTY_UTM_CAMPAIGN@, c.campaign) + utm_one(p, EVENT_PROPERTY_UTM_TERM@, c.term) + utm_one(p, EVENT_PROPERTY_UTM_CONTENT@, c.content) } }
/// the id the request has in a group, if it names one
pub open spec fn in_group(s: Seq<(usize, GroupValues)>, g: nat) -> Option<u64> decreases s.len() { if s.len() == 0 { None } else if s[0].0 == g { Some(s[0].1.id) } else { in_group(s.drop_first(), g) } }
pub open spec fn group_cell(x: Option<u64>) -> Value { match x { Some(k) => Value::Int64(Some(k as i64)), None => Value::Int64(None) } }
pub open spec fn fixed(c: Seq<char>, session: bool) -> bool { c == COLUMN_PROJECT_ID@ || c == COLUMN_CREATED_AT@ || c == COLUMN_EVENT_ID@ || c == COLUMN_EVENT@ || (session && c == COLUMN_IP@) || exists|g: nat| g < GROUPS_COUNT && c == #[trigger] gcol(g) }
/// one row of the events table
#[verifier::opaque] pub open spec fn event_row(r: Seq<Bind>, p: u64, req: Track, event: u64, number: int, session: bool) -> bool {
    r.len() >= 2 && r[0] == (COLUMN_PROJECT_ID@, Value::Int64(Some(p as i64))) && r[1] == (gcol(0), Value::Int64(Some(req.resolved_user_id->0)))
    && (forall|g: nat| 1 <= g < GROUPS_COUNT ==> first(r, #[trigger] gcol(g)) == Some(group_cell(in_group(given(req.resolved_group_values), g))))
    && first(r, COLUMN_CREATED_AT@) == Some(Value::Timestamp(Some(millis(req.timestamp))))
    && first(r, COLUMN_EVENT_ID@) == Some(Value::Int64(Some(number as i64)))
    && first(r, COLUMN_EVENT@) == Some(Value::Int64(Some(event as i64)))
    && (session ==> first(r, COLUMN_IP@) == Some(Value::String(Some(string_of(shown(req.context.ip))))))
    && forall|c: Seq<char>| !fixed(c, session) ==> #[trigger] first(r, c) == else_(if session { first(utm_binds(p, req.context.campaign), c) } else { None }, else_(first(prop_binds(p, given(req.resolved_properties)), c), first(profiles(p, given(req.resolved_group_values)), c)))
}
pub open spec fn sendable(ctx: RequestContext, req: Track) -> bool { ctx.project_id is Some && req.resolved_user_id is Some && req.resolved_event is Some && (forall|i: int| 0 <= i < given(req.resolved_properties).len() ==> typed(#[trigger] given(req.resolved_properties)[i])) && (forall|i: int| 0 <= i < given(req.resolved_group_values).len() ==> (#[trigger] given(req.resolved_group_values)[i]).0 < GROUPS_COUNT) }
proof fn lemma_cat(a: Seq<Bind>, b: Seq<Bind>, c: Seq<char>) ensures first(a + b, c) == else_(first(a, c), first(b, c)) decreases a.len() {
    if a.len() == 0 { assert(a + b =~= b); } else { assert((a + b)[0] == a[0]); assert((a + b).drop_first() =~= a.drop_first() + b); lemma_cat(a.drop_first(), b, c); }
}
proof fn lemma_push(a: Seq<Bind>, x: Bind, c: Seq<char>) ensures first(a.push(x), c) == else_(first(a, c), if x.0 == c { Some(x.1) } else { None }) { let one = seq![x]; assert(a.push(x) =~= a + one); lemma_cat(a, one, c); assert(one.drop_first() =~= seq![]); reveal_with_fuel(first, 2); }
proof fn lemma_none(a: Seq<Bind>, c: Seq<char>) requires forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).0 != c ensures first(a, c) is None decreases a.len() {
    if a.len() > 0 { assert(a[0].0 != c); assert forall|k: int| 0 <= k < a.drop_first().len() implies (#[trigger] a.drop_first()[k]).0 != c by { assert(a.drop_first()[k] == a[k + 1]); } lemma_none(a.drop_first(), c); }
}
proof fn lemma_in(s: Seq<(usize, GroupValues)>, g: nat) ensures in_group(s, g) is Some <==> exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == g decreases s.len() {
    if s.len() > 0 { lemma_in(s.drop_first(), g); if s[0].0 != g { if in_group(s, g) is Some { let k = choose|k: int| 0 <= k < s.drop_first().len() && (#[trigger] s.drop_first()[k]).0 == g; assert(s[k + 1].0 == g); } if exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == g { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == g; assert(s.drop_first()[k - 1] == s[k]); } } else { assert(s[0].0 == g); } }
}
/// bindings of the groups of a request
proof fn lemma_groups(m: Seq<Bind>, s: Seq<(usize, GroupValues)>, g: nat) requires m.len() == s.len(), forall|k: int| 0 <= k < m.len() ==> (#[trigger] m[k]).0 == gcol(s[k].0 as nat) && m[k].1 == Value::Int64(Some(s[k].1.id as i64))
    ensures first(m, gcol(g)) == (match in_group(s, g) { Some(k) => Some(Value::Int64(Some(k as i64))), None => None }) decreases s.len() {
    broadcast use axiom_gcol;
    if s.len() > 0 { assert(m[0].0 == gcol(s[0].0 as nat)); assert(ungcol(gcol(s[0].0 as nat)) == s[0].0); assert(ungcol(gcol(g)) == g);
        assert forall|k: int| 0 <= k < m.drop_first().len() implies (#[trigger] m.drop_first()[k]).0 == gcol(s.drop_first()[k].0 as nat) && m.drop_first()[k].1 == Value::Int64(Some(s.drop_first()[k].1.id as i64)) by { assert(m.drop_first()[k] == m[k + 1]); assert(s.drop_first()[k] == s[k + 1]); }
        lemma_groups(m.drop_first(), s.drop_first(), g); }
}
proof fn lemma_all_none(b: Seq<Bind>, x: nat) requires 1 <= x < GROUPS_COUNT, b.len() == GROUPS_COUNT - 1, forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k]).0 == gcol((k + 1) as nat) && b[k].1 == Value::Int64(None) ensures first(b, gcol(x)) == Some(Value::Int64(None))
    { broadcast use axiom_gcol; reveal_with_fuel(first, 6); assert(b[x - 1].0 == gcol(x)); assert forall|y: nat| y != x implies #[trigger] gcol(y) != gcol(x) by { assert(ungcol(gcol(y)) == y && ungcol(gcol(x)) == x); } lemma_found(b, gcol(x), x - 1); }
proof fn lemma_found(b: Seq<Bind>, c: Seq<char>, k: int) requires 0 <= k < b.len(), b[k].0 == c, forall|j: int| 0 <= j < k ==> (#[trigger] b[j]).0 != c ensures first(b, c) == Some(b[k].1) decreases k { if k > 0 { assert(b[0].0 != c); assert forall|j: int| 0 <= j < k - 1 implies (#[trigger] b.drop_first()[j]).0 != c by { assert(b.drop_first()[j] == b[j + 1]); } lemma_found(b.drop_first(), c, k - 1); } }
#[verifier::opaque] pub open spec fn grouped(b: Seq<Bind>, s: Seq<(usize, GroupValues)>) -> bool { (forall|g: nat| 1 <= g < GROUPS_COUNT ==> first(b, #[trigger] gcol(g)) == Some(group_cell(in_group(s, g)))) && only_groups(b) }
pub open spec fn only_groups(b: Seq<Bind>) -> bool { forall|k: int| 0 <= k < b.len() ==> exists|g: nat| g < GROUPS_COUNT && (#[trigger] b[k]).0 == #[trigger] gcol(g) }
pub open spec fn head(p: u64, user: i64) -> Seq<Bind> { seq![(COLUMN_PROJECT_ID@, Value::Int64(Some(p as i64))), (gcol(0), Value::Int64(Some(user)))] }
pub open spec fn mid(req: Track, event: u64, number: int) -> Seq<Bind> { seq![(COLUMN_CREATED_AT@, Value::Timestamp(Some(millis(req.timestamp)))), (COLUMN_EVENT_ID@, Value::Int64(Some(number as i64))), (COLUMN_EVENT@, Value::Int64(Some(event as i64)))] }
proof fn lemma_row(p: u64, req: Track, event: u64, number: int, session: bool, g: Seq<Bind>, u: Seq<Bind>, v: Seq<Bind>)
    requires grouped(g, given(req.resolved_group_values)), u == (if session { utm_binds(p, req.context.campaign) } else { seq![] }), v == prop_binds(p, given(req.resolved_properties)) + profiles(p, given(req.resolved_group_values)),
        // no property's column has the name of a built-in one
        session ==> forall|k: int| 0 <= k < u.len() ==> !fixed((#[trigger] u[k]).0, true),
    ensures event_row(head(p, req.resolved_user_id->0) + g + u + (if session { mid(req, event, number).push((COLUMN_IP@, Value::String(Some(string_of(shown(req.context.ip)))))) } else { mid(req, event, number) }) + v, p, req, event, number, session)
{
    broadcast use axiom_gcol; reveal(event_row); reveal(grouped);
    reveal_strlit("project_id"); reveal_strlit("created_at"); reveal_strlit("event_id"); reveal_strlit("event"); reveal_strlit("ip");
    let h = head(p, req.resolved_user_id->0); let m = if session { mid(req, event, number).push((COLUMN_IP@, Value::String(Some(string_of(shown(req.context.ip)))))) } else { mid(req, event, number) };
    let r = h + g + u + m + v;
    assert(COLUMN_PROJECT_ID@[0] == 'p' && COLUMN_CREATED_AT@[0] == 'c' && COLUMN_EVENT_ID@[0] == 'e' && COLUMN_EVENT@[0] == 'e' && COLUMN_IP@[0] == 'i');
    assert(COLUMN_EVENT_ID@.len() == 8 && COLUMN_EVENT@.len() == 5);
    assert forall|c: Seq<char>| #[trigger] first(r, c) == else_(first(h, c), else_(first(g, c), else_(first(u, c), else_(first(m, c), first(v, c))))) by {
        lemma_cat(h + g + u + m, v, c); lemma_cat(h + g + u, m, c); lemma_cat(h + g, u, c); lemma_cat(h, g, c); }
    assert forall|c: Seq<char>| #[trigger] first(h, c) == (if c == COLUMN_PROJECT_ID@ { Some(h[0].1) } else if c == gcol(0) { Some(h[1].1) } else { None }) by { reveal_with_fuel(first, 3); assert(h.drop_first()[0] == h[1]); assert(h.drop_first().drop_first().len() == 0); }
    assert forall|c: Seq<char>| #[trigger] first(m, c) == (if c == COLUMN_CREATED_AT@ { Some(m[0].1) } else if c == COLUMN_EVENT_ID@ { Some(m[1].1) } else if c == COLUMN_EVENT@ { Some(m[2].1) } else if session && c == COLUMN_IP@ { Some(m[3].1) } else { None }) by {
        reveal_with_fuel(first, 5); let a = m.drop_first(); let b = a.drop_first(); assert(a[0] == m[1]); assert(b[0] == m[2]); let d = b.drop_first(); if session { assert(d[0] == m[3]); assert(d.drop_first().len() == 0); } else { assert(d.len() == 0); } }
    assert forall|c: Seq<char>| (forall|x: nat| x < GROUPS_COUNT ==> c != #[trigger] gcol(x)) implies #[trigger] first(g, c) is None by { assert forall|k: int| 0 <= k < g.len() implies (#[trigger] g[k]).0 != c by { let x = choose|x: nat| x < GROUPS_COUNT && g[k].0 == #[trigger] gcol(x); } lemma_none(g, c); }
    assert forall|c: Seq<char>| fixed(c, session) implies #[trigger] first(u, c) is None by { assert forall|k: int| 0 <= k < u.len() implies (#[trigger] u[k]).0 != c by { assert(fixed(c, true)); } lemma_none(u, c); }
    assert forall|c: Seq<char>| #[trigger] first(v, c) == else_(first(prop_binds(p, given(req.resolved_properties)), c), first(profiles(p, given(req.resolved_group_values)), c)) by { lemma_cat(prop_binds(p, given(req.resolved_properties)), profiles(p, given(req.resolved_group_values)), c); }
    assert(r[0] == h[0] && r[1] == h[1]);
    assert forall|x: nat| 1 <= x < GROUPS_COUNT implies first(r, #[trigger] gcol(x)) == Some(group_cell(in_group(given(req.resolved_group_values), x))) by { assert(first(h, gcol(x)) is None) by { assert(ungcol(gcol(x)) == x && ungcol(gcol(0)) == 0); } }
    assert forall|x: nat| gcol(x) != COLUMN_CREATED_AT@ && gcol(x) != COLUMN_EVENT_ID@ && gcol(x) != COLUMN_EVENT@ && gcol(x) != COLUMN_IP@ && #[trigger] gcol(x) != COLUMN_PROJECT_ID@ by {}
    assert(gcol(0) == gcol(0));
    assert(fixed(COLUMN_CREATED_AT@, session) && fixed(COLUMN_EVENT_ID@, session) && fixed(COLUMN_EVENT@, session) && (session ==> fixed(COLUMN_IP@, session)));
    assert(first(u, COLUMN_CREATED_AT@) is None && first(g, COLUMN_CREATED_AT@) is None && first(h, COLUMN_CREATED_AT@) is None);
    assert(first(u, COLUMN_EVENT_ID@) is None && first(g, COLUMN_EVENT_ID@) is None && first(h, COLUMN_EVENT_ID@) is None);
    assert(first(u, COLUMN_EVENT@) is None && first(g, COLUMN_EVENT@) is None && first(h, COLUMN_EVENT@) is None);
    if session { assert(first(u, COLUMN_IP@) is None && first(g, COLUMN_IP@) is None && first(h, COLUMN_IP@) is None); }
    assert forall|c: Seq<char>| !fixed(c, session) implies #[trigger] first(r, c) == else_(if session { first(utm_binds(p, req.context.campaign), c) } else { None }, else_(first(prop_binds(p, given(req.resolved_properties)), c), first(profiles(p, given(req.resolved_group_values)), c))) by { assert(first(h, c) is None); assert(first(g, c) is None); assert(first(m, c) is None); if !session { lemma_none(u, c); } }
}
/// the rows one accepted event leaves
pub open spec fn tracked(a: Seq<(Seq<char>, Seq<Bind>)>, b: Seq<(Seq<char>, Seq<Bind>)>, p: u64, req: Track, last: int) -> bool {
    (new_session(p, req.resolved_user_id->0 as u64, false) && b == a.push((TABLE_EVENTS@, b[a.len() as int].1)) && event_row(b[a.len() as int].1, p, req, (req.resolved_event->0).id, last + 1, false))
    || (new_session(p, req.resolved_user_id->0 as u64, true) && b == a.push((TABLE_EVENTS@, b[a.len() as int].1)).push((TABLE_EVENTS@, b[(a.len() + 1) as int].1)) && event_row(b[a.len() as int].1, p, req, event_named(p, EVENT_SESSION_BEGIN@), last + 1, true) && event_row(b[(a.len() + 1) as int].1, p, req, (req.resolved_event->0).id, last + 2, false))
}
/// a session begin without the event
pub open spec fn began(a: Seq<(Seq<char>, Seq<Bind>)>, b: Seq<(Seq<char>, Seq<Bind>)>, p: u64, req: Track, last: int) -> bool {
    new_session(p, req.resolved_user_id->0 as u64, true) && b == a.push((TABLE_EVENTS@, b[a.len() as int].1)) && event_row(b[a.len() as int].1, p, req, event_named(p, EVENT_SESSION_BEGIN@), last + 1, true)
}
pub open spec fn utm_ok(p: u64, c: Option<Campaign>) -> bool { (forall|k: int| 0 <= k < utm_binds(p, c).len() ==> !fixed((#[trigger] utm_binds(p, c)[k]).0, true)) && (forall|name: Seq<char>| (#[trigger] prop_named(None, p, name)).is_dictionary ==> prop_named(None, p, name).dictionary_type is Some) }
pub mod track { use super::*; broadcast use {crate::all, crate::axiom_gcol};
//@item src/ingester/src/destinations/local/track.rs Local | vis=keep
impl Local {
pub closed spec fn rows(self) -> Seq<(Seq<char>, Seq<Bind>)> { self.db.rows() }
pub closed spec fn last(self, p: u64) -> int { self.md.events.last(p) }
pub closed spec fn wf(self) -> bool { self.md.wf() }
//@fn src/ingester/src/destinations/local/track.rs [Destination<Track> for Local]::send | ret=r block mut_self loops=4 attr="#[verifier::rlimit(300)]"
//@contract
    requires old(self).wf(), sendable(*ctx, req), utm_ok(ctx.project_id->0, req.context.campaign),
    ensures final(self).wf(),
        // one row for the event, and one for the session it begins
        r is Ok ==> storable(ctx.project_id->0, given(req.resolved_properties)) && tracked(old(self).rows(), final(self).rows(), ctx.project_id->0, req, old(self).last(ctx.project_id->0)),
        // otherwise none for the event
        r is Err ==> final(self).rows() == old(self).rows() || began(old(self).rows(), final(self).rows(), ctx.project_id->0, req, old(self).last(ctx.project_id->0)),
//@start
    let ghost p_ = ctx.project_id->0; let ghost rg_ = given(req.resolved_group_values); let ghost ps_ = given(req.resolved_properties);
//@loop 0
    invariant groups@.len() >= 0, 1 <= g <= GROUPS_COUNT, given(req.resolved_group_values) == rg_,
        forall|x: usize| #[trigger] found.keys().contains(x) <==> in_group(rg_, x as nat) is Some,
        forall|x: nat| 1 <= x < g ==> first(binds(groups@), #[trigger] gcol(x)) == Some(group_cell(in_group(rg_, x))),
        forall|x: nat| g <= x < GROUPS_COUNT ==> first(binds(groups@), #[trigger] gcol(x)) == (match in_group(rg_, x) { Some(k) => Some(Value::Int64(Some(k as i64))), None => None }),
        only_groups(binds(groups@)),
//@loopstart 0
    let ghost before_ = groups@;
//@loopend 0
    ; proof {
        if before_.len() != groups@.len() { let x_ = groups@.last(); assert(groups@ =~= before_.push(x_)); assert(binds(groups@) =~= binds(before_).push((x_.n(), x_.v())));
            assert(x_.n() == gcol(g as nat));
            assert forall|x: nat| first(binds(groups@), #[trigger] gcol(x)) == else_(first(binds(before_), gcol(x)), if x == g { Some(Value::Int64(None)) } else { None }) by { lemma_push(binds(before_), (x_.n(), x_.v()), gcol(x)); assert(ungcol(gcol(x)) == x && ungcol(gcol(g as nat)) == g); }
            assert forall|k: int| 0 <= k < binds(groups@).len() implies exists|x: nat| x < GROUPS_COUNT && (#[trigger] binds(groups@)[k]).0 == #[trigger] gcol(x) by { if k < before_.len() { assert(binds(groups@)[k] == binds(before_)[k]); } else { assert(binds(groups@)[k].0 == gcol(g as nat)); } }
        } else { assert(groups@ =~= before_); }
    }
//@before let props = $$e ;
    let ghost gb_ = binds(groups@);
    proof { assert(grouped(gb_, rg_)) by { reveal(grouped); if req.resolved_group_values is None { assert forall|x: nat| 1 <= x < GROUPS_COUNT implies first(gb_, #[trigger] gcol(x)) == Some(Value::Int64(None)) by { lemma_all_none(gb_, x); } assert forall|k: int| 0 <= k < gb_.len() implies exists|x: nat| x < GROUPS_COUNT && (#[trigger] gb_[k]).0 == #[trigger] gcol(x) by { assert(groups@[k].n() == gcol((k + 1) as nat)); assert(gb_[k].0 == gcol((k + 1) as nat)); } } } }
//@loop 1 iter=it
    invariant props@ == ps_, it.seq().len() == ps_.len(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] *it.seq()[i] == ps_[i],
        binds(prop_values@) == prop_binds(p_, ps_.take(it.index@)), storable(p_, ps_.take(it.index@)),
//@loopstart 1
    let ghost at_ = it.index@; let ghost before_ = prop_values@; proof { assert(*it.seq()[at_] == ps_[at_]); }
//@loopend 1
    ; proof { let x_ = prop_values@.last(); assert(prop_values@ =~= before_.push(x_)); assert(ps_.take(at_ + 1) =~= ps_.take(at_).push(ps_[at_])); assert(x_.n() == ps_[at_].property.column()); assert(s_value(p_, TABLE_EVENTS@, ps_[at_]) == Some(x_.v())); assert(prop_binds(p_, ps_.take(at_ + 1)) =~= prop_binds(p_, ps_.take(at_)).push((x_.n(), x_.v()))); assert(binds(prop_values@) =~= binds(before_).push((x_.n(), x_.v()))); }
//@before if let Some ( resolved_groups ) = $$e { $$b }
    proof { assert(ps_.take(ps_.len() as int) =~= ps_); assert(binds(prop_values@) == prop_binds(p_, ps_)); assert(profiles(p_, seq![]) =~= seq![]); assert(prop_binds(p_, ps_) + profiles(p_, seq![]) =~= prop_binds(p_, ps_)); }
//@loop 2
    invariant it.seq().len() == rg_.len(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] *it.seq()[i] == rg_[i], resolved_groups@ == rg_,
        binds(prop_values@) == prop_binds(p_, ps_) + profiles(p_, rg_.take(it.index@)),
//@loopstart 2
    let group_id = &pair_.0; let group = &pair_.1;
    let ghost ga_ = it.index@; let ghost base_ = prop_binds(p_, ps_) + profiles(p_, rg_.take(ga_)); proof { assert(*it.seq()[ga_] == rg_[ga_]); assert(profile(p_, *group_id as nat, group.values@.take(0)) =~= seq![]); assert(base_ + profile(p_, *group_id as nat, group.values@.take(0)) =~= base_); }
//@loopend 2
    ; proof { let n_ = rg_.take(ga_ + 1); assert(n_.drop_last() =~= rg_.take(ga_)); assert(n_.last() == rg_[ga_]); assert(group.values@.take(group.values@.len() as int) =~= group.values@); assert(binds(prop_values@) =~= prop_binds(p_, ps_) + profiles(p_, n_)); }
//@loop 3 iter=jt
    invariant jt.seq().len() == group.values@.len(), forall|i: int| 0 <= i < jt.seq().len() ==> #[trigger] *jt.seq()[i] == group.values@[i],
        binds(prop_values@) == base_ + profile(p_, *group_id as nat, group.values@.take(jt.index@)),
//@loopstart 3
    let ghost va_ = jt.index@; let ghost before_ = prop_values@; proof { assert(*jt.seq()[va_] == group.values@[va_]); }
//@loopend 3
    ; proof { let x_ = prop_values@.last(); assert(prop_values@ =~= before_.push(x_)); assert(group.values@.take(va_ + 1) =~= group.values@.take(va_).push(group.values@[va_])); let g_ = *group_id as nat; let y_ = group.values@[va_]; assert(self.md.group_properties@[*group_id as int].kind() == Some(g_)); assert(x_.n() == prop_at(Some(g_), p_, y_.property_id).column()); assert(x_.v() == plain(y_.value));
        assert(profile(p_, g_, group.values@.take(va_ + 1)) =~= profile(p_, g_, group.values@.take(va_)).push((x_.n(), x_.v()))); assert(binds(prop_values@) =~= binds(before_).push((x_.n(), x_.v()))); assert(base_ + profile(p_, g_, group.values@.take(va_)).push((x_.n(), x_.v())) =~= (base_ + profile(p_, g_, group.values@.take(va_))).push((x_.n(), x_.v()))); }
//@before let utm = $$e ;
    let ghost pb_ = binds(prop_values@); proof { assert(rg_.take(rg_.len() as int) =~= rg_); assert(pb_ == prop_binds(p_, ps_) + profiles(p_, rg_)); }
//@before if is_new_session { $$b }
    let ghost ub_ = binds(utm@); let ghost n_ = self.last(p_); proof { assert(ub_ =~= utm_binds(p_, req.context.campaign)); }
//@before self . db . insert ( TABLE_EVENTS , values ) ? ;
    proof { reveal_with_fuel(cat, 6); assert(binds(values@) =~= head(p_, req.resolved_user_id->0) + gb_ + ub_ + mid(req, event_id, n_ + 1).push((COLUMN_IP@, Value::String(Some(string_of(shown(req.context.ip)))))) + pb_); lemma_row(p_, req, event_id, n_ + 1, true, gb_, ub_, pb_); }
//@before_last self . db . insert ( TABLE_EVENTS , values ) ? ;
    proof { reveal_with_fuel(cat, 6); assert(binds(values@) =~= head(p_, req.resolved_user_id->0) + gb_ + Seq::<Bind>::empty() + mid(req, event_id, record_id as int) + pb_); lemma_row(p_, req, event_id, record_id as int, false, gb_, seq![], pb_); }
//@end
}
}

} fn main() {}
