//@rule key . as_bytes ( ) =>> text_bytes(&key)
//@rule user_key . as_bytes ( ) =>> text_bytes(&user_key)
//@rule group_key . as_bytes ( ) =>> text_bytes(&group_key)
//@rule "groups" . as_bytes ( ) =>> bs("groups")
//@rule v . unwrap ( ) . to_le_bytes ( ) . to_vec ( ) =>> le16(v.unwrap())
//@rule i128 :: from_le_bytes ( v . as_slice ( ) . try_into ( ) . unwrap ( ) ) =>> un16(&v)
//@rule v . clone ( ) . unwrap ( ) =>> same_as(v).unwrap()
//@rule v . clone ( ) =>> same_as(&v)
//@rule value . clone ( ) =>> same_as(&value)
//@rule from . display_name . unwrap ( ) =>> some_of(from.display_name)
//@rule from . name . clone ( ) =>> same_as(&from.name)
//@rule group :: GroupValues :: decode =>> decode::<group::GroupValues>
//@rule group :: Group :: decode =>> decode::<group::Group>
//@rule MetadataError :: BadRequest ( $$x ) =>> MetadataError::BadRequest(some_text())
//@include base.rs
use vstd::prelude::*;
use std::fmt::Debug;
verus! {
global size_of usize == 8;
//@include metaerr.rs
//@include store.rs
//@include keys.rs
//@include stdspec.rs
//@include index.rs
//@include keylemmas.rs
//@include provider.rs
#[verifier::external_body] pub fn text_bytes<T: Shown>(s: &T) -> (r: &[u8]) ensures r@ == s.shown() { unimplemented!() }
pub uninterp spec fn s_le16(x: i128) -> Vec<u8>;
pub uninterp spec fn s_un16(b: Vec<u8>) -> i128;
pub broadcast axiom fn axiom_le16(x: i128) ensures s_un16(#[trigger] s_le16(x)) == x, s_le16(x)@.len() == 16;
//@rule where T : Debug =>>
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
//@item src/common/src/lib.rs GROUPS_COUNT | vis=keep
pub mod groups { use super::*; broadcast use {crate::all, axiom_le16};
pub mod group { use super::*;
//@item pb:group.rs GroupValues | vis=keep
//@item pb:group.rs PropertyValue | vis=keep
//@item pb:group.rs self::Value | vis=keep
//@item pb:group.rs Group | vis=keep
pub mod value { use super::*;
//@item pb:group.rs value::Value | vis=keep
}
}
#[verifier::external_body] pub fn le16(x: i128) -> (r: Vec<u8>) ensures r == s_le16(x) { unimplemented!() }
#[verifier::external_body] pub fn un16(b: &Vec<u8>) -> (r: i128) requires b@.len() == 16 ensures r == s_un16(*b) { unimplemented!() }
#[verifier::external_body] pub fn numbered<T>(v: &Vec<T>) -> (r: Vec<(usize, &T)>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == v@[i] { unimplemented!() }
// unwrap of a stored field: its presence is a proof obligation
#[verifier::external_body] pub fn some_of(o: Option<String>) -> (r: String) requires o is Some ensures r == o->0 { unimplemented!() }
//@item src/metadata/src/groups.rs Value | vis=keep std="clone"
//@item src/metadata/src/groups.rs PropertyValue | vis=keep std="clone"
//@item src/metadata/src/groups.rs GroupValues | vis=keep std="clone"
//@item src/metadata/src/groups.rs Group | vis=keep std="clone"
//@item src/metadata/src/groups.rs Groups | vis=keep
// ---- how identities and groups are stored
// a value the provider can store: a scalar that is there (lists and absent scalars make it panic: recorded finding)
pub open spec fn storable(v: Value) -> bool { match v { Value::Null => true, Value::Int8(x) => x is Some, Value::Int16(x) => x is Some, Value::Int32(x) => x is Some, Value::Int64(x) => x is Some, Value::Boolean(x) => x is Some, Value::Timestamp(x) => x is Some, Value::Decimal(x) => x is Some, Value::String(x) => x is Some, _ => false } }
pub open spec fn all_storable(s: Seq<PropertyValue>) -> bool { forall|i: int| 0 <= i < s.len() ==> storable((#[trigger] s[i]).value) }
pub open spec fn pv(v: Value) -> group::value::Value { match v {
    Value::Int8(x) => group::value::Value::Int8Value(x->0 as i64), Value::Int16(x) => group::value::Value::Int16Value(x->0 as i64), Value::Int32(x) => group::value::Value::Int32Value(x->0 as i64), Value::Int64(x) => group::value::Value::Int64Value(x->0),
    Value::Boolean(x) => group::value::Value::BoolValue(x->0), Value::Timestamp(x) => group::value::Value::TimestampValue(x->0), Value::Decimal(x) => group::value::Value::DecimalValue(s_le16(x->0)), Value::String(x) => group::value::Value::StringValue(x->0), _ => group::value::Value::NullValue(true) } }
pub open spec fn el(p: PropertyValue) -> group::PropertyValue { group::PropertyValue { property_id: p.property_id, value: Some(group::Value { value: Some(pv(p.value)) }) } }
pub open spec fn els(s: Seq<PropertyValue>) -> Seq<group::PropertyValue> { Seq::new(s.len(), |i: int| el(s[i])) }
pub open spec fn to_pb(g: GroupValues) -> group::GroupValues { group::GroupValues { id: g.id, values: vec_of(els(g.values@)) } }
pub open spec fn to_pb_group(g: Group) -> group::Group { group::Group { id: g.id, name: g.name, display_name: Some(g.display_name) } }
pub open spec fn is_enc(b: Seq<u8>, g: GroupValues) -> bool { all_storable(g.values@) && b == pb(to_pb(g)) }
pub open spec fn is_group(b: Seq<u8>, g: Group) -> bool { b == pb(to_pb_group(g)) }
pub proof fn lemma_el(a: PropertyValue, b: PropertyValue) requires storable(a.value), storable(b.value), el(a) == el(b) ensures a == b { }
pub proof fn lemma_enc(b: Seq<u8>, g: GroupValues, h: GroupValues) requires is_enc(b, g), is_enc(b, h) ensures g == h
{
    assert(unpb::<group::GroupValues>(b) == Some(to_pb(g))); assert(to_pb(g) == to_pb(h)); assert(vec_of(els(g.values@))@ == vec_of(els(h.values@))@); assert(els(g.values@) == els(h.values@));
    assert forall|i: int| 0 <= i < g.values@.len() implies g.values@[i] == h.values@[i] by { assert(els(g.values@)[i] == els(h.values@)[i]); lemma_el(g.values@[i], h.values@[i]); }
    assert(g.values@.len() == els(g.values@).len()); assert(h.values@.len() == els(h.values@).len()); assert(g.values@ =~= h.values@);
}
pub open spec fn gpath(p: u64, g: u64) -> Seq<u8> { k_project(p, asc("groups/"@) + dec(g)) }
pub open spec fn ak(p: u64, g: u64, s: Seq<u8>) -> Seq<u8> { gpath(p, g) + asc("/anonymous/keys/"@) + s }
pub open spec fn rk(p: u64, g: u64, s: Seq<u8>) -> Seq<u8> { gpath(p, g) + asc("/real/keys/"@) + s }
pub open spec fn sk(p: u64, g: u64) -> Seq<u8> { k_seq(gpath(p, g)) }
pub open spec fn rs(p: u64, g: u64) -> Seq<u8> { k_seq(gpath(p, g) + asc("/records/"@)) }
pub open spec fn names(p: u64) -> Seq<u8> { k_project(p, asc("groups/names"@)) }
pub open spec fn nk(p: u64, s: Seq<u8>) -> Seq<u8> { names(p) + asc("/"@) + s }
pub open spec fn ns(p: u64) -> Seq<u8> { k_seq(k_project(p, asc("groups"@))) }
pub proof fn lemma_lits2() ensures asc("groups/"@).len() == 7, asc("groups"@).len() == 6, asc("groups"@) + asc("/"@) == asc("groups/"@), asc("/"@) + asc("groups/"@) == asc("/groups/"@), asc("/anonymous/keys/"@)[0] == 47, asc("/anonymous/keys/"@)[1] == 97, asc("/anonymous/keys/"@).len() == 16,
    asc("/real/keys/"@)[0] == 47, asc("/real/keys/"@)[1] == 114, asc("/real/keys/"@)[3] == 97, asc("/real/keys/"@).len() == 11, asc("/records/"@)[0] == 47, asc("/records/"@)[1] == 114, asc("/records/"@)[3] == 99, asc("/records/"@).len() == 9, asc("groups/names"@) == asc("groups/"@) + asc("names"@), asc("names"@)[0] == 110, asc("names"@).len() == 5,
    asc("/groups/names/"@) == asc("/"@) + asc("groups/names"@) + asc("/"@), asc("/groups/names"@) == asc("/"@) + asc("groups/names"@)
{
    reveal_strlit("groups/"); reveal_strlit("groups"); reveal_strlit("/groups/"); reveal_strlit("/anonymous/keys/"); reveal_strlit("/real/keys/"); reveal_strlit("/records/"); reveal_strlit("groups/names"); reveal_strlit("names"); reveal_strlit("/groups/names/"); reveal_strlit("/groups/names"); reveal_strlit("/");
    assert(asc("groups"@) + asc("/"@) =~= asc("groups/"@)); assert(asc("/"@) + asc("groups/"@) =~= asc("/groups/"@)); assert(asc("groups/names"@) =~= asc("groups/"@) + asc("names"@)); assert(asc("/groups/names/"@) =~= asc("/"@) + asc("groups/names"@) + asc("/"@)); assert(asc("/groups/names"@) =~= asc("/"@) + asc("groups/names"@));
}
// the pieces the code formats make up these keys
pub proof fn lemma_pieces(p: u64, g: u64, s: Seq<u8>) ensures asc("projects/"@) + dec(p) + asc("/groups/"@) + dec(g) + asc("/anonymous/keys/"@) + s == ak(p, g, s), asc("projects/"@) + dec(p) + asc("/groups/"@) + dec(g) + asc("/real/keys/"@) + s == rk(p, g, s),
    asc("projects/"@) + dec(p) + asc("/groups/names/"@) + s == nk(p, s), asc("projects/"@) + dec(p) + asc("/groups/names"@) == names(p)
{
    lemma_lits2();
    assert(asc("projects/"@) + dec(p) + asc("/groups/"@) + dec(g) =~= gpath(p, g)); assert(asc("projects/"@) + dec(p) + asc("/groups/names"@) =~= names(p)); assert(asc("projects/"@) + dec(p) + asc("/groups/names/"@) + s =~= nk(p, s));
}
// a run of digits ends where the first other byte stands
pub proof fn lemma_digits(d: u64, x: Seq<u8>, e: u64, y: Seq<u8>) requires dec(d) + x == dec(e) + y, x.len() > 0, y.len() > 0, x[0] < 48 || x[0] > 57, y[0] < 48 || y[0] > 57 ensures d == e, x == y
{
    axiom_dec(d); axiom_dec(e); let l = dec(d) + x; let r = dec(e) + y;
    if dec(d).len() < dec(e).len() { assert(l[dec(d).len() as int] == x[0]); assert(r[dec(d).len() as int] == dec(e)[dec(d).len() as int]); }
    if dec(e).len() < dec(d).len() { assert(r[dec(e).len() as int] == y[0]); assert(l[dec(e).len() as int] == dec(d)[dec(e).len() as int]); }
    assert(dec(d) =~= l.take(dec(d).len() as int)); assert(dec(e) =~= r.take(dec(e).len() as int)); axiom_dec_inj(d, e); lemma_cancel(dec(d), x, y);
}
pub proof fn lemma_group(p: u64, g: u64, x: Seq<u8>, q: u64, h: u64, y: Seq<u8>) requires gpath(p, g) + x == gpath(q, h) + y, x.len() > 0, y.len() > 0, x[0] < 48 || x[0] > 57, y[0] < 48 || y[0] > 57 ensures p == q, g == h, x == y
{
    let a = asc("groups/"@); assert(gpath(p, g) + x =~= k_project(p, a + (dec(g) + x))); assert(gpath(q, h) + y =~= k_project(q, a + (dec(h) + y)));
    lemma_project(p, a + (dec(g) + x), q, a + (dec(h) + y)); lemma_cancel(a, dec(g) + x, dec(h) + y); lemma_digits(g, x, h, y);
}
/// the keys of identities, of their counters and of record counters never meet, whatever the projects and groups
pub proof fn lemma_apart(p: u64, g: u64, s: Seq<u8>, q: u64, h: u64, t: Seq<u8>)
    ensures ak(p, g, s) != rk(q, h, t), ak(p, g, s) != sk(q, h), rk(p, g, s) != sk(q, h), ak(p, g, s) == ak(q, h, t) ==> p == q && g == h && s == t, rk(p, g, s) == rk(q, h, t) ==> p == q && g == h && s == t, sk(p, g) == sk(q, h) ==> p == q && g == h,
        rs(p, g) != ak(q, h, t), rs(p, g) != rk(q, h, t), rs(p, g) != sk(q, h), rs(p, g) == rs(q, h) ==> p == q && g == h
{
    lemma_lits(); lemma_lits2(); let i = asc("id_seq"@); let (a1, a2) = (asc("/anonymous/keys/"@) + s, asc("/anonymous/keys/"@) + t); let (r1, r2) = (asc("/real/keys/"@) + s, asc("/real/keys/"@) + t); let c = asc("/records/"@) + i;
    assert(i.len() > 0 && i[0] == 105); assert(a1[0] == 47 && a2[0] == 47 && r1[0] == 47 && r2[0] == 47 && c[0] == 47); assert(a1[1] == 97 && a2[1] == 97 && r1[1] == 114 && r2[1] == 114 && c[1] == 114 && c[3] == 99 && r2[3] == 97);
    assert(ak(p, g, s) =~= gpath(p, g) + a1); assert(ak(q, h, t) =~= gpath(q, h) + a2); assert(rk(p, g, s) =~= gpath(p, g) + r1); assert(rk(q, h, t) =~= gpath(q, h) + r2); assert(rs(p, g) =~= gpath(p, g) + c); assert(rs(q, h) =~= gpath(q, h) + c);
    if ak(p, g, s) == rk(q, h, t) { lemma_group(p, g, a1, q, h, r2); }
    if ak(p, g, s) == sk(q, h) { lemma_group(p, g, a1, q, h, i); }
    if rk(p, g, s) == sk(q, h) { lemma_group(p, g, r1, q, h, i); }
    if ak(p, g, s) == ak(q, h, t) { lemma_group(p, g, a1, q, h, a2); lemma_cancel(asc("/anonymous/keys/"@), s, t); }
    if rk(p, g, s) == rk(q, h, t) { lemma_group(p, g, r1, q, h, r2); lemma_cancel(asc("/real/keys/"@), s, t); }
    if sk(p, g) == sk(q, h) { lemma_group(p, g, i, q, h, i); }
    if rs(p, g) == ak(q, h, t) { lemma_group(p, g, c, q, h, a2); }
    if rs(p, g) == rk(q, h, t) { lemma_group(p, g, c, q, h, r2); }
    if rs(p, g) == sk(q, h) { lemma_group(p, g, c, q, h, i); }
    if rs(p, g) == rs(q, h) { lemma_group(p, g, c, q, h, c); }
}
/// nor do the names of groups and their counter
pub proof fn lemma_names(p: u64, s: Seq<u8>, q: u64, t: Seq<u8>, h: u64, x: Seq<u8>)
    ensures nk(p, s) == nk(q, t) ==> p == q && s == t, nk(p, s) != ns(q), ns(p) == ns(q) ==> p == q, nk(p, s) != gpath(q, h) + x, ns(p) != gpath(q, h) + x, starts(nk(p, s), names(p))
{
    lemma_lits(); lemma_lits2(); let (n, m) = (asc("groups/names"@) + asc("/"@), asc("groups"@) + asc("id_seq"@)); let a = asc("groups/"@);
    assert(nk(p, s) =~= k_project(p, n + s)); assert(nk(q, t) =~= k_project(q, n + t)); assert(ns(p) =~= k_project(p, m)); assert(ns(q) =~= k_project(q, m)); assert(gpath(q, h) + x =~= k_project(q, a + dec(h) + x)); assert(nk(p, s).take(names(p).len() as int) =~= names(p));
    if nk(p, s) == nk(q, t) { lemma_project(p, n + s, q, n + t); lemma_cancel(n, s, t); }
    if nk(p, s) == ns(q) { lemma_project(p, n + s, q, m); assert((n + s)[6] == asc("groups/"@)[6]); assert(asc("groups/"@)[6] == asc("/"@)[0]); assert(m[6] == 105); }
    if ns(p) == ns(q) { lemma_project(p, m, q, m); }
    axiom_dec(h);
    if nk(p, s) == gpath(q, h) + x { lemma_project(p, n + s, q, a + dec(h) + x); assert((n + s)[7] == 110); assert((a + dec(h) + x)[7] == dec(h)[0]); }
    if ns(p) == gpath(q, h) + x { lemma_project(p, m, q, a + dec(h) + x); assert(m[6] == 105); assert((a + dec(h) + x)[6] == asc("/"@)[0]) by { assert(asc("groups/"@)[6] == (asc("groups"@) + asc("/"@))[6]); } }
}
/// what one group's identities keep true: every id was issued; an anonymous key has an id, a real key a record
pub open spec fn inv(m: Store, p: u64, g: u64) -> bool {
    &&& m.dom().contains(sk(p, g)) ==> m[sk(p, g)].len() == 8
    &&& forall|s: Seq<u8>| m.dom().contains(#[trigger] ak(p, g, s)) ==> m[ak(p, g, s)].len() == 8 && issued(m, p, g, un_le(m[ak(p, g, s)]))
    &&& forall|s: Seq<u8>| m.dom().contains(#[trigger] rk(p, g, s)) ==> exists|v: GroupValues| #[trigger] is_enc(m[rk(p, g, s)], v) && issued(m, p, g, v.id)
}
pub open spec fn issued(m: Store, p: u64, g: u64, id: u64) -> bool { m.dom().contains(sk(p, g)) && 1 <= id <= un_le(m[sk(p, g)]) }
pub open spec fn next(m: Store, p: u64, g: u64) -> u64 { counter(m, sk(p, g), 1) as u64 }
/// an anonymous key's id: the one it has, or the next one, which nobody has
pub open spec fn anon_id(m: Store, p: u64, g: u64, s: Seq<u8>) -> u64 { if m.dom().contains(ak(p, g, s)) { un_le(m[ak(p, g, s)]) } else { next(m, p, g) } }
pub open spec fn with_anon(m: Store, p: u64, g: u64, s: Seq<u8>) -> Store { if m.dom().contains(ak(p, g, s)) { m } else { m.insert(sk(p, g), le(next(m, p, g))).insert(ak(p, g, s), le(next(m, p, g))) } }
pub open spec fn with_real(m: Store, p: u64, g: u64, s: Seq<u8>, v: GroupValues) -> Store { m.insert(rk(p, g, s), pb(to_pb(v))) }
pub open spec fn issue(m: Store, p: u64, g: u64) -> Store { m.insert(sk(p, g), le(next(m, p, g))) }
pub proof fn lemma_fresh(m: Store, p: u64, g: u64) requires inv(m, p, g), seq_ok(m, sk(p, g))
    ensures inv(issue(m, p, g), p, g), issued(issue(m, p, g), p, g, next(m, p, g)), !issued(m, p, g, next(m, p, g))
{
    let n = issue(m, p, g);
    assert forall|s: Seq<u8>| n.dom().contains(#[trigger] ak(p, g, s)) implies n[ak(p, g, s)].len() == 8 && issued(n, p, g, un_le(n[ak(p, g, s)])) by { lemma_apart(p, g, s, p, g, s); assert(m.dom().contains(ak(p, g, s))); }
    assert forall|s: Seq<u8>| n.dom().contains(#[trigger] rk(p, g, s)) implies exists|v: GroupValues| #[trigger] is_enc(n[rk(p, g, s)], v) && issued(n, p, g, v.id) by { lemma_apart(p, g, s, p, g, s); assert(m.dom().contains(rk(p, g, s))); let v = choose|v: GroupValues| #[trigger] is_enc(m[rk(p, g, s)], v) && issued(m, p, g, v.id); assert(is_enc(n[rk(p, g, s)], v)); }
}
pub proof fn lemma_anon(m: Store, p: u64, g: u64, s: Seq<u8>) requires inv(m, p, g), m.dom().contains(ak(p, g, s)) || seq_ok(m, sk(p, g))
    ensures inv(with_anon(m, p, g, s), p, g), issued(with_anon(m, p, g, s), p, g, anon_id(m, p, g, s)), forall|t: Seq<u8>| with_anon(m, p, g, s).dom().contains(#[trigger] rk(p, g, t)) <==> m.dom().contains(rk(p, g, t))
{
    let n = with_anon(m, p, g, s);
    assert forall|t: Seq<u8>| n.dom().contains(#[trigger] rk(p, g, t)) <==> m.dom().contains(rk(p, g, t)) by { lemma_apart(p, g, s, p, g, t); lemma_apart(p, g, t, p, g, s); }
    if !m.dom().contains(ak(p, g, s)) {
        let a = issue(m, p, g); lemma_fresh(m, p, g);
        assert forall|t: Seq<u8>| n.dom().contains(#[trigger] ak(p, g, t)) implies n[ak(p, g, t)].len() == 8 && issued(n, p, g, un_le(n[ak(p, g, t)])) by { lemma_apart(p, g, t, p, g, s); lemma_apart(p, g, s, p, g, s); if ak(p, g, t) != ak(p, g, s) { assert(a.dom().contains(ak(p, g, t))); } }
        assert forall|t: Seq<u8>| n.dom().contains(#[trigger] rk(p, g, t)) implies exists|v: GroupValues| #[trigger] is_enc(n[rk(p, g, t)], v) && issued(n, p, g, v.id) by { lemma_apart(p, g, s, p, g, t); lemma_apart(p, g, s, p, g, s); assert(a.dom().contains(rk(p, g, t))); let v = choose|v: GroupValues| #[trigger] is_enc(a[rk(p, g, t)], v) && issued(a, p, g, v.id); assert(is_enc(n[rk(p, g, t)], v)); }
        lemma_apart(p, g, s, p, g, s);
    }
}
pub proof fn lemma_real(m: Store, p: u64, g: u64, s: Seq<u8>, v: GroupValues) requires inv(m, p, g), issued(m, p, g, v.id), all_storable(v.values@)
    ensures inv(with_real(m, p, g, s, v), p, g)
{
    let n = with_real(m, p, g, s, v); lemma_apart(p, g, s, p, g, s);
    assert forall|t: Seq<u8>| n.dom().contains(#[trigger] ak(p, g, t)) implies n[ak(p, g, t)].len() == 8 && issued(n, p, g, un_le(n[ak(p, g, t)])) by { lemma_apart(p, g, t, p, g, s); assert(m.dom().contains(ak(p, g, t))); }
    assert forall|t: Seq<u8>| n.dom().contains(#[trigger] rk(p, g, t)) implies exists|w: GroupValues| #[trigger] is_enc(n[rk(p, g, t)], w) && issued(n, p, g, w.id) by {
        if rk(p, g, t) == rk(p, g, s) { assert(is_enc(n[rk(p, g, t)], v)); } else { assert(m.dom().contains(rk(p, g, t))); let w = choose|w: GroupValues| #[trigger] is_enc(m[rk(p, g, t)], w) && issued(m, p, g, w.id); assert(is_enc(n[rk(p, g, t)], w)); } }
}
/// the record of a real key
pub open spec fn real_at(m: Store, p: u64, g: u64, s: Seq<u8>, v: GroupValues) -> bool { m.dom().contains(rk(p, g, s)) && is_enc(m[rk(p, g, s)], v) }
pub open spec fn is_new(m: Store, p: u64, g: u64, s: Seq<u8>) -> bool { !m.dom().contains(rk(p, g, s)) }
/// given values replace the stored ones of the same property, other stored ones stay, the rest are added
pub open spec fn first_at(o: Seq<PropertyValue>, id: u64, i: int) -> bool { 0 <= i < o.len() && o[i].property_id == id && forall|j: int| 0 <= j < i ==> (#[trigger] o[j]).property_id != id }
pub open spec fn merge_one(o: Seq<PropertyValue>, a: Seq<PropertyValue>, v: PropertyValue) -> Seq<PropertyValue> { if exists|i: int| first_at(o, v.property_id, i) { a.update(choose|i: int| first_at(o, v.property_id, i), v) } else { a.push(v) } }
pub open spec fn merged(o: Seq<PropertyValue>, s: Seq<PropertyValue>) -> Seq<PropertyValue> decreases s.len() { if s.len() == 0 { o } else { merge_one(o, merged(o, s.drop_last()), s.last()) } }
pub proof fn lemma_first(o: Seq<PropertyValue>, id: u64, i: int, j: int) requires first_at(o, id, i), first_at(o, id, j) ensures i == j { }
pub proof fn lemma_merged(o: Seq<PropertyValue>, s: Seq<PropertyValue>) requires all_storable(o), all_storable(s) ensures all_storable(merged(o, s)), merged(o, s).len() >= o.len() decreases s.len()
{
    if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies storable((#[trigger] d[i]).value) by { assert(d[i] == s[i]); } lemma_merged(o, d); let a = merged(o, d); let v = s.last(); assert(storable(s[s.len() - 1].value)); let b = merge_one(o, a, v);
        if exists|i: int| first_at(o, v.property_id, i) { let i = choose|i: int| first_at(o, v.property_id, i); assert(b == a.update(i, v)); assert forall|k: int| 0 <= k < b.len() implies storable((#[trigger] b[k]).value) by { if k != i { assert(b[k] == a[k]); } } }
        else { assert forall|k: int| 0 <= k < b.len() implies storable((#[trigger] b[k]).value) by { if k < a.len() { assert(b[k] == a[k]); } } } }
}
//@fn src/metadata/src/groups.rs serialize_group_values | ret=r block
//@contract
    requires all_storable(group.values@),
    ensures r is Ok, is_enc(r->Ok_0@, *group),
//@rule group . values . iter ( ) . map ( | v | $$e ) . collect :: < Vec < _ > > ( ) =>> { let mut out_ = Vec::new(); let mut k_: usize = 0; while k_ < group.values.len() invariant k_ <= group.values@.len(), all_storable(group.values@), out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == el(group.values@[i]) decreases group.values@.len() - k_ { let v = &group.values[k_]; proof { assert(storable(group.values@[k_ as int].value)); } let e_ = $e; proof { assert(e_ == el(group.values@[k_ as int])); } out_.push(e_); k_ += 1; } proof { assert(out_@ =~= els(group.values@)); } out_ }
//@before Ok ( v . encode_to_vec ( ) )
    proof { assert(v == to_pb(*group)); }
//@end
//@fn src/metadata/src/groups.rs deserialize_group_values | ret=r block
//@contract
    requires exists|g: GroupValues| #[trigger] is_enc(data@, g),
    ensures r is Ok, is_enc(data@, r->Ok_0),
//@rule from . values . iter ( ) . map ( | v | { $$e } ) . collect :: < Vec < _ > > ( ) =>> { let mut out_ = Vec::new(); let mut k_: usize = 0; while k_ < from.values.len() invariant k_ <= from.values@.len(), all_storable(g0.values@), from.values@ == els(g0.values@), out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == g0.values@[i] decreases from.values@.len() - k_ { let v = &from.values[k_]; proof { assert(storable(g0.values@[k_ as int].value)); assert(*v == el(g0.values@[k_ as int])); } let e_ = { $e }; proof { assert(e_ == g0.values@[k_ as int]); } out_.push(e_); k_ += 1; } proof { assert(out_@ =~= g0.values@); } out_ }
//@start
    let ghost g0 = choose|g: GroupValues| #[trigger] is_enc(data@, g);
    proof { assert(unpb::<group::GroupValues>(data@) == Some(to_pb(g0))); }
//@end
//@fn src/metadata/src/groups.rs serialize_group | ret=r block
//@contract
    ensures r is Ok, is_group(r->Ok_0@, *group),
//@end
//@fn src/metadata/src/groups.rs deserialize_group | ret=r block
//@contract
    requires exists|g: Group| #[trigger] is_group(data@, g),
    ensures r is Ok, is_group(data@, r->Ok_0),
//@start
    proof { let g = choose|g: Group| #[trigger] is_group(data@, g); assert(unpb::<group::Group>(data@) == Some(to_pb_group(g))); }
//@end
/// what the names of a project's groups keep true: one id per name, one name per id, at most GROUPS_COUNT of them
pub open spec fn named(m: Store, p: u64, s: Seq<u8>, g: Group) -> bool { m.dom().contains(nk(p, s)) && is_group(m[nk(p, s)], g) && utf8(g.name@) == s }
pub open spec fn names_inv(m: Store, p: u64) -> bool {
    &&& m.dom().contains(ns(p)) ==> m[ns(p)].len() == 8
    &&& forall|k: Seq<u8>| #[trigger] m.dom().contains(k) && starts(k, names(p)) ==> exists|s: Seq<u8>| k == #[trigger] nk(p, s)
    &&& forall|s: Seq<u8>| m.dom().contains(#[trigger] nk(p, s)) ==> exists|g: Group| #[trigger] named(m, p, s, g)
    &&& forall|s: Seq<u8>, g: Group| #[trigger] named(m, p, s, g) ==> g.id < GROUPS_COUNT && m.dom().contains(ns(p)) && g.id <= un_le(m[ns(p)])
    &&& forall|s: Seq<u8>, t: Seq<u8>, g: Group, h: Group| #[trigger] named(m, p, s, g) && #[trigger] named(m, p, t, h) && g.id == h.id ==> s == t
}
pub open spec fn with_group(m: Store, p: u64, g: Group) -> Store { m.insert(ns(p), le(g.id)).insert(nk(p, utf8(g.name@)), pb(to_pb_group(g))) }
pub proof fn lemma_group_fun(b: Seq<u8>, g: Group, h: Group) requires is_group(b, g), is_group(b, h) ensures g == h { assert(unpb::<group::Group>(b) == Some(to_pb_group(g))); }
pub proof fn lemma_with_group(m: Store, p: u64, g: Group) requires names_inv(m, p), !m.dom().contains(nk(p, utf8(g.name@))), g.id == counter(m, ns(p), 0), g.id < GROUPS_COUNT ensures names_inv(with_group(m, p, g), p)
{
    let n = with_group(m, p, g); let z = utf8(g.name@); lemma_names(p, z, p, z, 0, seq![]);
    assert(!starts(ns(p), names(p))) by { lemma_lits(); lemma_lits2(); if starts(ns(p), names(p)) { let i = (names(p).len() - 6) as int; let b = k_project(p, seq![]); assert(names(p) =~= b + asc("groups"@) + asc("/"@) + asc("names"@)) by { assert(names(p) =~= b + asc("groups/names"@)); assert(b + asc("groups/"@) + asc("names"@) =~= b + (asc("groups/"@) + asc("names"@))); assert(b + asc("groups"@) + asc("/"@) =~= b + (asc("groups"@) + asc("/"@))); } assert(ns(p) =~= b + asc("groups"@) + asc("id_seq"@)); assert(ns(p).take(names(p).len() as int)[i] == names(p)[i]); assert(names(p)[i] == 47); assert(ns(p)[i] == 105); } }
    assert forall|k: Seq<u8>| #[trigger] n.dom().contains(k) && starts(k, names(p)) implies exists|s: Seq<u8>| k == #[trigger] nk(p, s) by { if k != nk(p, z) { assert(k != ns(p)); assert(m.dom().contains(k)); } }
    assert forall|s: Seq<u8>, h: Group| #[trigger] named(n, p, s, h) implies (s == z && h == g) || named(m, p, s, h) by { lemma_names(p, s, p, z, 0, seq![]); if s == z { lemma_group_fun(n[nk(p, z)], g, h); } else { assert(nk(p, s) != nk(p, z)); assert(m.dom().contains(nk(p, s))); } }
    assert forall|s: Seq<u8>| n.dom().contains(#[trigger] nk(p, s)) implies exists|h: Group| #[trigger] named(n, p, s, h) by { lemma_names(p, s, p, z, 0, seq![]); if s == z { assert(named(n, p, s, g)); } else { assert(nk(p, s) != nk(p, z)); assert(m.dom().contains(nk(p, s))); let h = choose|h: Group| #[trigger] named(m, p, s, h); assert(named(n, p, s, h)); } }
}
/// the whole list of a project's groups
pub open spec fn listed(m: Store, p: u64, l: Seq<Group>) -> bool { l.len() == hits(m, names(p)) && forall|i: int| 0 <= i < l.len() ==> scan(m, names(p))[i].0 == nk(p, utf8((#[trigger] l[i]).name@)) && named(m, p, utf8(l[i].name@), l[i]) }
impl Groups {
//@fn src/metadata/src/groups.rs Groups::get_or_create_anonymous_id_ | ret=r block
//@contract
    requires inv(old(tx)@, project_id, group_id), seq_ok(old(tx)@, sk(project_id, group_id)),
    ensures r is Ok ==> r->Ok_0 == anon_id(old(tx)@, project_id, group_id, utf8(anon_key@)),
        r is Ok ==> final(tx)@ == with_anon(old(tx)@, project_id, group_id, utf8(anon_key@)),
        r is Err ==> r->Err_0 is RocksDb,
//@start
    proof { reveal_with_fuel(flat, 8); lemma_lits2(); lemma_pieces(project_id, group_id, utf8(anon_key@)); lemma_apart(project_id, group_id, utf8(anon_key@), project_id, group_id, utf8(anon_key@)); }
//@end
//@fn src/metadata/src/groups.rs Groups::get_or_create_anonymous_id | ret=r mut_self block
//@contract
    requires inv(old(self).db@, project_id, group_id), seq_ok(old(self).db@, sk(project_id, group_id)),
    ensures r is Ok ==> r->Ok_0 == anon_id(old(self).db@, project_id, group_id, utf8(key@)),
        r is Ok ==> final(self).db@ == with_anon(old(self).db@, project_id, group_id, utf8(key@)),
        r is Ok ==> inv(final(self).db@, project_id, group_id),
        r is Err ==> final(self).db@ == old(self).db@ && r->Err_0 is RocksDb,
//@start
    proof { lemma_anon(self.db@, project_id, group_id, utf8(key@)); }
//@end
//@fn src/metadata/src/groups.rs Groups::merge_with_anonymous | ret=r mut_self block
//@contract
    requires inv(old(self).db@, project_id, group_id), seq_ok(old(self).db@, sk(project_id, group_id)), all_storable(values@),
    ensures r is Ok && is_new(old(self).db@, project_id, group_id, utf8(id@)) ==> r->Ok_0 == (GroupValues { id: anon_id(old(self).db@, project_id, group_id, utf8(anonymous@)), values }),
        r is Ok && is_new(old(self).db@, project_id, group_id, utf8(id@)) ==> final(self).db@ == with_real(with_anon(old(self).db@, project_id, group_id, utf8(anonymous@)), project_id, group_id, utf8(id@), r->Ok_0),
        r is Ok && !is_new(old(self).db@, project_id, group_id, utf8(id@)) ==> real_at(old(self).db@, project_id, group_id, utf8(id@), r->Ok_0) && final(self).db@ == old(self).db@,
        r is Ok ==> inv(final(self).db@, project_id, group_id),
        r is Err ==> final(self).db@ == old(self).db@ && r->Err_0 is RocksDb,
//@start
    proof { reveal_with_fuel(flat, 8); lemma_pieces(project_id, group_id, utf8(id@)); lemma_anon(self.db@, project_id, group_id, utf8(anonymous@)); }
    let ghost m1 = with_anon(self.db@, project_id, group_id, utf8(anonymous@));
//@before tx . commit
    proof { if is_new(self.db@, project_id, group_id, utf8(id@)) { lemma_real(m1, project_id, group_id, utf8(id@), res); } }
//@end
//@fn src/metadata/src/groups.rs Groups::get_or_create_ | ret=r block
//@contract
    requires inv(old(tx)@, project_id, group_id), seq_ok(old(tx)@, sk(project_id, group_id)), all_storable(values@),
    ensures r is Ok && is_new(old(tx)@, project_id, group_id, utf8(key@)) ==> r->Ok_0 == (GroupValues { id: next(old(tx)@, project_id, group_id), values }) && final(tx)@ == with_real(issue(old(tx)@, project_id, group_id), project_id, group_id, utf8(key@), r->Ok_0),
        r is Ok && !is_new(old(tx)@, project_id, group_id, utf8(key@)) ==> real_at(old(tx)@, project_id, group_id, utf8(key@), r->Ok_0) && final(tx)@ == old(tx)@,
        r is Ok ==> inv(final(tx)@, project_id, group_id),
        r is Err ==> r->Err_0 is RocksDb,
//@start
    let ghost s = utf8(key@);
    proof { reveal_with_fuel(flat, 8); lemma_lits2(); lemma_pieces(project_id, group_id, s); lemma_fresh(tx@, project_id, group_id); lemma_real(issue(tx@, project_id, group_id), project_id, group_id, s, GroupValues { id: next(tx@, project_id, group_id), values }); lemma_apart(project_id, group_id, s, project_id, group_id, s); }
//@end
//@fn src/metadata/src/groups.rs Groups::get_or_create | ret=r mut_self block
//@contract
    requires inv(old(self).db@, project_id, group_id), seq_ok(old(self).db@, sk(project_id, group_id)), all_storable(values@),
    ensures r is Ok && is_new(old(self).db@, project_id, group_id, utf8(key@)) ==> r->Ok_0 == (GroupValues { id: next(old(self).db@, project_id, group_id), values }) && final(self).db@ == with_real(issue(old(self).db@, project_id, group_id), project_id, group_id, utf8(key@), r->Ok_0),
        r is Ok && !is_new(old(self).db@, project_id, group_id, utf8(key@)) ==> real_at(old(self).db@, project_id, group_id, utf8(key@), r->Ok_0) && final(self).db@ == old(self).db@,
        r is Ok ==> inv(final(self).db@, project_id, group_id),
        r is Err ==> final(self).db@ == old(self).db@ && r->Err_0 is RocksDb,
//@end
//@fn src/metadata/src/groups.rs Groups::create_or_update | ret=r mut_self block
//@contract
    requires inv(old(self).db@, project_id, group_id), seq_ok(old(self).db@, sk(project_id, group_id)), all_storable(values@),
    ensures r is Ok && is_new(old(self).db@, project_id, group_id, utf8(key@)) ==> r->Ok_0 == (GroupValues { id: next(old(self).db@, project_id, group_id), values }) && final(self).db@ == with_real(issue(old(self).db@, project_id, group_id), project_id, group_id, utf8(key@), r->Ok_0),
        r is Ok && !is_new(old(self).db@, project_id, group_id, utf8(key@)) ==> exists|w: GroupValues| #[trigger] real_at(old(self).db@, project_id, group_id, utf8(key@), w) && r->Ok_0.id == w.id && r->Ok_0.values@ == merged(w.values@, values@) && final(self).db@ == with_real(old(self).db@, project_id, group_id, utf8(key@), r->Ok_0),
        r is Ok ==> inv(final(self).db@, project_id, group_id),
        r is Err ==> final(self).db@ == old(self).db@ && r->Err_0 is RocksDb,
//@rule group . values . iter ( ) . enumerate ( ) =>> numbered(&group.values)
//@start
    let ghost s = utf8(key@);
    proof { reveal_with_fuel(flat, 8); lemma_lits2(); lemma_pieces(project_id, group_id, s); lemma_fresh(self.db@, project_id, group_id); lemma_real(issue(self.db@, project_id, group_id), project_id, group_id, s, GroupValues { id: next(self.db@, project_id, group_id), values }); lemma_apart(project_id, group_id, s, project_id, group_id, s); }
    let ghost vs = values@; let ghost mut w0 = GroupValues { id: 0, values };
//@loop 0 iter=it
    invariant it.seq() == vs, it.index@ <= vs.len(), all_storable(vs), all_storable(group.values@), vals@ == merged(group.values@, vs.take(it.index@ as int)),
//@loopstart 0
    let ghost v1 = vals@;
    proof { let i = it.index@ as int; assert(value == vs[i]); let t = vs.take(i); assert(vs.take(i + 1).drop_last() =~= t); assert(vs.take(i + 1).last() == value); assert forall|j: int| 0 <= j < t.len() implies storable((#[trigger] t[j]).value) by { assert(t[j] == vs[j]); } lemma_merged(group.values@, t); }
//@loopend 0
    proof { if exists|i: int| first_at(group.values@, value.property_id, i) { let i = choose|i: int| first_at(group.values@, value.property_id, i); } }
//@loop 1 iter=jt
    invariant jt.seq().len() == group.values@.len(), forall|i: int| 0 <= i < jt.seq().len() ==> (#[trigger] jt.seq()[i]).0 == i && *jt.seq()[i].1 == group.values@[i], jt.index@ <= jt.seq().len(), v1.len() >= group.values@.len(), found == brk_1,
        !brk_1 ==> vals@ == v1 && forall|j: int| 0 <= j < jt.index@ ==> (#[trigger] group.values@[j]).property_id != value.property_id,
        brk_1 ==> exists|i: int| #[trigger] first_at(group.values@, value.property_id, i) && vals@ == v1.update(i, value),
//@loopstart 1
    proof { assert((gid, gvalue) == jt.seq()[jt.index@ as int]); if !brk_1 && gvalue.property_id == value.property_id { assert(first_at(group.values@, value.property_id, gid as int)); } }
//@before_last let group =
    proof { assert(vs.take(vs.len() as int) =~= vs); lemma_merged(group.values@, vs); w0 = group; lemma_real(self.db@, project_id, group_id, s, GroupValues { id: group.id, values: vals }); }
//@before tx . commit
    proof { if !is_new(self.db@, project_id, group_id, s) { assert(real_at(self.db@, project_id, group_id, s, w0)); } }
//@before let mut vals
    proof { assert(vs.take(0) =~= seq![]); let w = choose|w: GroupValues| #[trigger] is_enc(self.db@[rk(project_id, group_id, s)], w) && issued(self.db@, project_id, group_id, w.id); assert(self.db@.dom().contains(rk(project_id, group_id, s))); lemma_enc(self.db@[rk(project_id, group_id, s)], w, group); }
//@end
//@fn src/metadata/src/groups.rs Groups::list_groups | ret=r block
//@contract
    requires names_inv(self.db@, project_id),
    ensures r is Ok ==> listed(self.db@, project_id, r->Ok_0.data@), r is Err ==> r->Err_0 is RocksDb,
//@rule let mut list = =>> let mut list: Vec<Group> =
//@start
    proof { reveal_with_fuel(flat, 8); lemma_pieces(project_id, 0, seq![]); }
//@loop 0 iter=it
    invariant scanned(it.seq(), tx@, names(project_id)), tx@ == self.db@, names_inv(self.db@, project_id), utf8(prefix@) == names(project_id), it.index@ <= it.seq().len(),
        forall|i: int| 0 <= i < list@.len() ==> scan(tx@, names(project_id))[i].0 == nk(project_id, utf8((#[trigger] list@[i]).name@)) && named(tx@, project_id, utf8(list@[i].name@), list@[i]),
        !brk_0 ==> list@.len() == it.index@,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]) is Ok,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> starts(#[trigger] scan(tx@, names(project_id))[i].0, names(project_id)),
        brk_0 ==> list@.len() == hits(tx@, names(project_id)),
//@loopstart 0
    proof { axiom_scan(tx@, names(project_id)); assert(kv == it.seq()[it.index@ as int]); }
//@before if ! prefix
    proof { let i = it.index@ as int; assert(it.seq()[i] is Ok); assert(it.seq()[i]->Ok_0 == (key, value)); assert(key@ == scan(tx@, names(project_id))[i].0); assert(i > 0 ==> starts(scan(tx@, names(project_id))[i - 1].0, names(project_id)));
        if starts(key@, names(project_id)) { assert(self.db@.dom().contains(key@)); let s = choose|s: Seq<u8>| key@ == #[trigger] nk(project_id, s); let g = choose|g: Group| #[trigger] named(self.db@, project_id, s, g); assert(named(self.db@, project_id, s, g)); assert(is_group(value@, g)); assert forall|h: Group| #[trigger] is_group(value@, h) implies h == g by { lemma_group_fun(value@, g, h); } } }
//@before ListResponse
    proof { axiom_scan(tx@, names(project_id)); let n = scan(tx@, names(project_id)).len() as int; assert(!brk_0 && n > 0 ==> starts(scan(tx@, names(project_id))[n - 1].0, names(project_id))); }
//@end
//@fn src/metadata/src/groups.rs Groups::get_or_create_group | ret=r mut_self block
//@contract
    requires names_inv(old(self).db@, project_id), seq_ok(old(self).db@, ns(project_id)),
    ensures r is Ok && !old(self).db@.dom().contains(nk(project_id, utf8(name@))) ==> r->Ok_0 == (Group { id: counter(old(self).db@, ns(project_id), 0) as u64, name, display_name }) && final(self).db@ == with_group(old(self).db@, project_id, r->Ok_0),
        r is Ok && old(self).db@.dom().contains(nk(project_id, utf8(name@))) ==> named(old(self).db@, project_id, utf8(name@), r->Ok_0) && final(self).db@ == old(self).db@,
        r is Ok ==> names_inv(final(self).db@, project_id),
        r is Err && r->Err_0 is BadRequest ==> !old(self).db@.dom().contains(nk(project_id, utf8(name@))) && counter(old(self).db@, ns(project_id), 0) >= GROUPS_COUNT,
        r is Err ==> final(self).db@ == old(self).db@ && (r->Err_0 is RocksDb || r->Err_0 is BadRequest),
//@start
    let ghost s = utf8(name@); let ghost nm = name; let ghost m0 = self.db@;
    proof { reveal_with_fuel(flat, 8); lemma_lits2(); lemma_pieces(project_id, 0, s); lemma_names(project_id, s, project_id, s, 0, seq![]); }
    proof { if m0.dom().contains(nk(project_id, s)) { let g = choose|g: Group| #[trigger] named(m0, project_id, s, g); assert(named(m0, project_id, s, g)); assert(is_group(m0[nk(project_id, s)], g)); assert forall|h: Group| #[trigger] is_group(m0[nk(project_id, s)], h) implies h == g by { lemma_group_fun(m0[nk(project_id, s)], g, h); } } }
//@before tx . commit
    proof { if !m0.dom().contains(nk(project_id, s)) { lemma_with_group(m0, project_id, group); } }
//@end
//@fn src/metadata/src/groups.rs Groups::next_record_sequence | ret=r mut_self block
//@contract
    requires seq_ok(old(self).db@, rs(project_id, group_id)),
    ensures r is Ok ==> r->Ok_0 == counter(old(self).db@, rs(project_id, group_id), 1) && final(self).db@ == old(self).db@.insert(rs(project_id, group_id), le(r->Ok_0)),
        r is Err ==> final(self).db@ == old(self).db@ && r->Err_0 is RocksDb,
//@start
    proof { reveal_with_fuel(flat, 8); assert(k_project(project_id, asc("groups/"@) + dec(group_id) + asc("/records/"@)) =~= gpath(project_id, group_id) + asc("/records/"@)); }
//@end
}
}
}
//@helpers
fn main() {}
