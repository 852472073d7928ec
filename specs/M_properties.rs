//@rule format ! ( $$a ) . as_bytes ( ) =>> text_bytes(&format!($a))
//@rule MetadataError :: NotFound ( _ ) =>> MetadataError::NotFound(_)
//@rule panic ! ( $$x ) =>> corrupt(data)
//@rule pub const $n : & str = $v ; =>> pub const $n: &'static str = $v;
//@rule Arc < OptiDBImpl > =>> OptiDb
//@rule RwLock < LruCache < ( u64 , u64 ) , Property > > =>> IdCache
//@rule RwLock < LruCache < ( u64 , String ) , Property > > =>> NameCache
//@rule self . $c . write ( ) . unwrap ( ) . get ( & ( $$k ) ) =>> self.$c.look($k)
//@rule self . $c . write ( ) . unwrap ( ) . pop ( & ( $$k ) ) =>> self.$c.pop($k)
//@rule self . $c . write ( ) . unwrap ( ) . put ( ( $$k ) , $$v ) =>> self.$c.put($k, $v)
//@rule name . to_string ( ) =>> copy_text(name)
//@rule prop . name . to_string ( ) =>> copy_text(prop.name.as_str())
//@rule prop . column_name ( ) == col_name =>> same_text(&prop.column_name(), col_name)
//@rule self . typ . path ( ) . as_bytes ( ) =>> text_bytes(&self.typ.path())
//@rule typ . path ( ) . as_bytes ( ) =>> text_bytes(&typ.path())
//@rule "global" . as_bytes ( ) =>> bs("global")
//@rule err . into ( ) =>> store_error(err)
//@rule dt . clone ( ) =>> same_as(&dt)
//@rule display_name . clone ( ) =>> same_as(display_name)
//@rule $x . clone_into ( & mut prop . $f ) =>> prop.$f = same_as($x)
//@rule property :: Property :: decode =>> decode::<property::Property>
//@include base.rs
use vstd::prelude::*;
use std::fmt::Debug;
verus! {
global size_of usize == 8;
//@include metaerr.rs
//@include store.rs
//@include keys.rs
//@include stdspec.rs
//@include index.rs
//@include keylemmas.rs
//@include provider.rs
//@include uniq.rs
//@rule where T : Debug =>>
pub open spec fn set<T>(o: OptionalProperty<T>, was: T, is: T) -> bool { match o { OptionalProperty::Some(v) => is == v, OptionalProperty::None => is == was } }
//@item src/common/src/types.rs OptionalProperty | vis=keep
// the body each rule with `apply` puts out of line
pub fn apply<T>(f: &mut T, o: OptionalProperty<T>) ensures set(o, *old(f), *final(f)) { if let OptionalProperty::Some(v) = o { *f = v; } }
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
//@item src/common/src/types.rs DType | vis=keep
//@item src/common/src/types.rs TABLE_EVENTS | vis=keep
impl Shown for usize { open spec fn shown(&self) -> Seq<u8> { dec(*self as u64) } }
#[verifier::external_body] pub fn text_bytes<T: Shown>(s: &T) -> (r: &[u8]) ensures r@ == s.shown() { unimplemented!() }
#[verifier::external_body] pub fn copy_text(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn same_text(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
// a panic the contract rules out
#[verifier::external_body] pub fn never<T>() -> (r: T) requires false { unimplemented!() }
// text of ASCII characters is its bytes
pub axiom fn axiom_ascii(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] as u32 <= 127 ensures utf8(s) == asc(s);
//@fn src/common/src/lib.rs group_col | ret=r vis=keep block
//@contract
    ensures utf8(r@) == asc("group_"@) + dec(group_id as u64),
//@start
    proof { reveal_with_fuel(flat, 4); }
//@end
pub open spec fn scalar(d: DType) -> bool { !(d is List) }
pub open spec fn s_short(d: DType) -> Seq<char> { match d { DType::String => "str"@, DType::Int8 => "i8"@, DType::Int16 => "i16"@, DType::Int32 => "i32"@, DType::Int64 => "i64"@, DType::Decimal => "d"@, DType::Boolean => "b"@, DType::Timestamp => "ts"@, DType::List(_) => "l"@ } }
impl DType {
//@fn src/common/src/types.rs DType::short_name | ret=r vis=keep block
//@rule v . as_ref ( ) =>> &**v
//@contract
    requires scalar(*self),
    ensures r@ == s_short(*self),
//@end
}
// free of one byte
pub open spec fn without(s: Seq<u8>, c: u8) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c }
pub proof fn lemma_cut(c: u8, n: Seq<u8>, x: Seq<u8>, m: Seq<u8>, y: Seq<u8>) requires without(n, c), without(m, c), n + seq![c] + x == m + seq![c] + y ensures n == m, x == y
{
    let l = n + seq![c] + x; let r = m + seq![c] + y;
    assert(l[n.len() as int] == c); assert(r[m.len() as int] == c);
    if n.len() < m.len() { assert(r[n.len() as int] == m[n.len() as int]); }
    if m.len() < n.len() { assert(l[m.len() as int] == n[m.len() as int]); }
    assert(n =~= l.take(n.len() as int)); assert(m =~= r.take(m.len() as int));
    assert(x =~= l.skip(n.len() as int + 1)); assert(y =~= r.skip(m.len() as int + 1));
}
pub proof fn lemma_short(a: DType) requires scalar(a) ensures utf8(s_short(a)) == asc(s_short(a)), s_short(a).len() > 0, without(utf8(s_short(a)), 95), without(utf8(s_short(a)), 47)
{
    reveal_strlit("str"); reveal_strlit("i8"); reveal_strlit("i16"); reveal_strlit("i32"); reveal_strlit("i64"); reveal_strlit("d"); reveal_strlit("b"); reveal_strlit("ts");
    axiom_ascii(s_short(a)); let s = s_short(a); assert(s.len() <= 3);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] asc(s)[i] != 95 && asc(s)[i] != 47 by { assert(i == 0 || i == 1 || i == 2); }
}
pub proof fn lemma_shorts(a: DType, b: DType) requires scalar(a), scalar(b), s_short(a) == s_short(b) ensures a == b
{
    reveal_strlit("str"); reveal_strlit("i8"); reveal_strlit("i16"); reveal_strlit("i32"); reveal_strlit("i64"); reveal_strlit("d"); reveal_strlit("b"); reveal_strlit("ts");
    let s = s_short(a); let t = s_short(b); assert(s.len() == t.len()); assert(s[0] == t[0]); if s.len() > 1 { assert(s[1] == t[1]); } if s.len() > 2 { assert(s[2] == t[2]); }
}
pub mod properties { use super::*; broadcast use crate::all;
pub mod property { use super::*;
//@item pb:property.rs Property | vis=keep
//@item pb:property.rs DataType | consts=DataType
//@item pb:property.rs Status | consts=Status
//@item pb:property.rs DictionaryType | consts=DictionaryType
}
//@item src/metadata/src/properties.rs Status | vis=keep std="clone"
//@item src/metadata/src/properties.rs Type | vis=keep std="clone"
//@item src/metadata/src/properties.rs DictionaryType | vis=keep std="clone"
//@item src/metadata/src/properties.rs Property | vis=keep std="clone"
//@item src/metadata/src/properties.rs CreatePropertyRequest | vis=keep
//@item src/metadata/src/properties.rs UpdatePropertyRequest | vis=keep
// ---- the event store's columns, as a log of what was asked for; the LRU caches, as maps that may forget
pub enum StoreError { AlreadyExists(String), Other(ExtError) }
#[verifier::external_body] pub fn store_error(e: StoreError) -> (r: MetadataError) ensures r is Store { unimplemented!() }
pub type Field = (Seq<u8>, Seq<u8>, DType, bool);
pub struct OptiDb { pub m: Ghost<Seq<Field>>, pub x: u8 }
impl OptiDb {
    pub open spec fn view(&self) -> Seq<Field> { self.m@ }
    #[verifier::external_body] pub fn add_field(&mut self, table: &str, col: &str, dt: DType, nullable: bool) -> (r: core::result::Result<(), StoreError>)
        ensures final(self)@ == old(self)@.push((utf8(table@), utf8(col@), dt, nullable)) { unimplemented!() }
}
pub open spec fn shrunk<K>(n: Map<K, Property>, m: Map<K, Property>) -> bool { forall|k: K| #[trigger] n.dom().contains(k) ==> m.dom().contains(k) && n[k] == m[k] }
pub struct IdCache { pub m: Ghost<Map<(u64, u64), Property>>, pub x: u8 }
impl IdCache {
    pub open spec fn view(&self) -> Map<(u64, u64), Property> { self.m@ }
    #[verifier::external_body] pub fn look(&self, p: u64, id: u64) -> (r: Option<&Property>) ensures r is Some ==> self@.dom().contains((p, id)) && *r->0 == self@[(p, id)] { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, p: u64, id: u64, v: Property) ensures shrunk(final(self)@, old(self)@.insert((p, id), v)) { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self, p: u64, id: u64) ensures final(self)@ == old(self)@.remove((p, id)) { unimplemented!() }
}
pub struct NameCache { pub m: Ghost<Map<(u64, Seq<char>), Property>>, pub x: u8 }
impl NameCache {
    pub open spec fn view(&self) -> Map<(u64, Seq<char>), Property> { self.m@ }
    #[verifier::external_body] pub fn look(&self, p: u64, n: String) -> (r: Option<&Property>) ensures r is Some ==> self@.dom().contains((p, n@)) && *r->0 == self@[(p, n@)] { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, p: u64, n: String, v: Property) ensures shrunk(final(self)@, old(self)@.insert((p, n@), v)) { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self, p: u64, n: String) ensures final(self)@ == old(self)@.remove((p, n@)) { unimplemented!() }
}
//@item src/metadata/src/properties.rs Properties | vis=keep
//@rule IDX_NAME =>> IDX_NAME()
//@rule IDX_COLUMN_NAME =>> IDX_COLUMN_NAME()
//@rule IDX_DISPLAY_NAME =>> IDX_DISPLAY_NAME()
//@static src/metadata/src/properties.rs IDX_NAME | block
//@contract
    ensures r@ == asc("name"@),
//@end
//@static src/metadata/src/properties.rs IDX_COLUMN_NAME | block
//@contract
    ensures r@ == asc("column_name"@),
//@end
//@static src/metadata/src/properties.rs IDX_DISPLAY_NAME | block
//@contract
    ensures r@ == asc("display_name"@),
//@end
// ---- where properties of one kind live, where their column numbers are counted
pub open spec fn tname(t: Type) -> Seq<u8> { match t { Type::Event => asc("event_properties"@), Type::Group(g) => asc("group_"@) + dec(g as u64) + asc("_properties"@) } }
pub open spec fn base(p: u64, t: Type) -> Seq<u8> { k_project(p, tname(t)) }
pub open spec fn okey(p: u64, d: DType) -> Seq<u8> { k_seq(k_project(p, asc("properties/order/"@) + utf8(s_short(d)))) }
pub open spec fn ckey(p: u64, c: Seq<u8>) -> Seq<u8> { k_index(k_project(p, asc("global"@)), asc("column_name"@), c) }
pub open spec fn nkey(p: u64, t: Type, n: Seq<char>) -> Seq<u8> { k_index(base(p, t), asc("name"@), utf8(n)) }
pub open spec fn dkey(p: u64, t: Type, n: Option<String>) -> Option<Seq<u8>> { match n { Some(d) => Some(k_index(base(p, t), asc("display_name"@), utf8(d@))), None => None } }
// what a system property's column is called: a function of its name
pub uninterp spec fn snaked(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn snake(s: &String) -> (r: String) ensures r@ == snaked(s@) { unimplemented!() }
pub open spec fn head(t: Type) -> Seq<u8> { match t { Type::Event => asc("e_"@), Type::Group(g) => asc("g_"@) + dec(g as u64) + asc("_"@) } }
pub open spec fn col(e: Property) -> Seq<u8> {
    if e.is_system { utf8(snaked(e.name@)) } else { head(e.typ) + utf8(s_short(e.data_type)) + asc("_"@) + dec(e.order) }
}
pub open spec fn code(d: DType) -> i32 { match d { DType::String => 1, DType::Int8 => 2, DType::Int16 => 3, DType::Int32 => 4, DType::Int64 => 5, DType::Decimal => 6, DType::Boolean => 7, DType::Timestamp => 8, DType::List(_) => 0 } }
pub open spec fn to_pb(r: Property) -> property::Property { property::Property { id: r.id, created_at: r.created_at.t, created_by: r.created_by, updated_at: s_secs(r.updated_at), updated_by: r.updated_by, project_id: r.project_id, tags: s_or_empty(r.tags), name: r.name, display_name: r.display_name, description: r.description, order: r.order,
    type_event: match r.typ { Type::Event => Some(true), Type::Group(_) => None }, type_group: match r.typ { Type::Event => None, Type::Group(g) => Some(g as u64) }, dtype: code(r.data_type), status: match r.status { Status::Enabled => 1i32, Status::Disabled => 2i32 },
    is_system: r.is_system, nullable: r.nullable, hidden: r.hidden, is_array: r.is_array, is_dictionary: r.is_dictionary,
    dictionary_type: match r.dictionary_type { Some(d) => Some(match d { DictionaryType::Int8 => 1i32, DictionaryType::Int16 => 2i32, DictionaryType::Int32 => 3i32, DictionaryType::Int64 => 4i32 }), None => None } } }
impl Ent for Property {
    open spec fn enc(self) -> Seq<u8> { pb(to_pb(self)) }
    open spec fn eid(self) -> u64 { self.id }
    open spec fn ekeys(self, ns: Seq<u8>) -> Seq<Option<Seq<u8>>> { seq![Some(k_index(ns, asc("name"@), utf8(self.name@))), match self.display_name { Some(d) => Some(k_index(ns, asc("display_name"@), utf8(d@))), None => None }] }
    open spec fn back(self) -> Property { let r = self; Property { created_at: Instant { t: r.created_at.t, n: 0 }, updated_at: s_at(s_secs(r.updated_at)), tags: if r.tags is Some && r.tags->0@.len() == 0 { None } else { r.tags }, ..r } }
    proof fn back_ok(a: Property) {  }
    proof fn enc_ok(a: Property, b: Property, ns: Seq<u8>) { assert(unpb::<property::Property>(a.enc()) == Some(to_pb(a))); assert(to_pb(a) == to_pb(b)); }
    proof fn keys_ok(a: Property, ns: Seq<u8>) { lemma_is_idx(ns, asc("name"@), utf8(a.name@)); if a.display_name is Some { lemma_is_idx(ns, asc("display_name"@), utf8(a.display_name->0@)); } }
}
pub proof fn lemma_same(a: Property, b: Property) requires a.enc() == b.enc(), scalar(a.data_type) ensures a.id == b.id, a.data_type == b.data_type, a.order == b.order, a.typ == b.typ, a.is_system == b.is_system, a.name == b.name, a.display_name == b.display_name, col(a) == col(b)
{ assert(unpb::<property::Property>(a.enc()) == Some(to_pb(a))); assert(unpb::<property::Property>(b.enc()) == Some(to_pb(b))); assert(to_pb(a) == to_pb(b)); assert(code(a.data_type) == code(b.data_type)); }
// reaching this panics: shown unreachable for every value the provider wrote
#[verifier::external_body] fn corrupt<T>(data: &[u8]) -> (r: T) requires forall|x: Property| scalar(x.data_type) ==> data@ != #[trigger] x.enc() ensures false { unimplemented!() }
// ---- column numbers: counted per project and data type, over event and group properties together
pub open spec fn numbered(m: Store, p: u64, w: Property) -> bool { scalar(w.data_type) && m.dom().contains(okey(p, w.data_type)) && w.order <= un_le(m[okey(p, w.data_type)]) }
pub open spec fn ords(m: Store, p: u64) -> bool {
    &&& forall|t: Type, id: u64, w: Property| #[trigger] rec(m, base(p, t), id, w) ==> numbered(m, p, w)
    &&& forall|t: Type, id: u64, w: Property, t2: Type, id2: u64, w2: Property| #[trigger] rec(m, base(p, t), id, w) && #[trigger] rec(m, base(p, t2), id2, w2) && !(t == t2 && id == id2) && w.data_type == w2.data_type ==> w.order != w2.order
}
/// no two properties of a project share a column
pub proof fn lemma_own_columns(m: Store, p: u64, t: Type, id: u64, w: Property, t2: Type, id2: u64, w2: Property)
    requires ords(m, p), rec(m, base(p, t), id, w), rec(m, base(p, t2), id2, w2), !(t == t2 && id == id2), !w.is_system, !w2.is_system
    ensures col(w) != col(w2)
{ if col(w) == col(w2) { lemma_columns(w, w2); } }
pub proof fn lemma_columns(a: Property, b: Property) requires !a.is_system, !b.is_system, scalar(a.data_type), scalar(b.data_type), col(a) == col(b) ensures a.data_type == b.data_type, a.order == b.order
{
    reveal_strlit("e_"); reveal_strlit("g_"); reveal_strlit("_"); let u = seq![95u8]; assert(asc("_"@) =~= u); assert(asc("e_"@) =~= seq![101u8, 95]); assert(asc("g_"@) =~= seq![103u8, 95]);
    let x = utf8(s_short(a.data_type)); let y = utf8(s_short(b.data_type)); lemma_short(a.data_type); lemma_short(b.data_type);
    let s = x + u + dec(a.order); let t = y + u + dec(b.order); axiom_dec(a.order); axiom_dec(b.order);
    let ca = col(a); let cb = col(b); assert(ca[0] == cb[0]);
    match (a.typ, b.typ) {
        (Type::Event, Type::Event) => { assert(ca =~= asc("e_"@) + s); assert(cb =~= asc("e_"@) + t); lemma_cancel(asc("e_"@), s, t); }
        (Type::Group(g), Type::Group(h)) => { let gg = dec(g as u64); let hh = dec(h as u64); axiom_dec(g as u64); axiom_dec(h as u64); assert(ca =~= asc("g_"@) + (gg + u + s)); assert(cb =~= asc("g_"@) + (hh + u + t)); lemma_cancel(asc("g_"@), gg + u + s, hh + u + t); lemma_cut(95, gg, s, hh, t); }
        (Type::Event, Type::Group(g)) => { assert(ca[0] == 101); assert(cb[0] == 103); }
        (Type::Group(g), Type::Event) => { assert(ca[0] == 103); assert(cb[0] == 101); }
    }
    lemma_cut(95, x, dec(a.order), y, dec(b.order)); axiom_dec_inj(a.order, b.order);
    assert(asc(s_short(a.data_type)) == asc(s_short(b.data_type))); axiom_utf8_inj(s_short(a.data_type), s_short(b.data_type)); lemma_shorts(a.data_type, b.data_type);
}
// ---- nothing of one kind or project is found among another's
pub proof fn lemma_within(p: u64, t: Type, q: u64, u: Type, rest: Seq<u8>) requires starts(k_project(q, tname(u) + rest), base(p, t)) ensures p == q, t == u
{
    let a = tname(t); let b = tname(u) + rest; lemma_project_scan(p, a, q, b); reveal_strlit("event_properties"); reveal_strlit("group_"); reveal_strlit("_properties");
    assert(b.take(a.len() as int)[0] == b[0]); assert(a[0] == b[0]);
    match (t, u) {
        (Type::Group(g), Type::Group(h)) => {
            let gg = dec(g as u64); let hh = dec(h as u64); axiom_dec(g as u64); axiom_dec(h as u64); let x = asc("_properties"@).skip(1); let us = seq![95u8]; assert(asc("_properties"@) =~= us + x);
            let more = b.skip(a.len() as int); assert(b =~= a + more); assert(a + more =~= asc("group_"@) + (gg + us + (x + more))); assert(b =~= asc("group_"@) + (hh + us + (x + rest)));
            lemma_cancel(asc("group_"@), gg + us + (x + more), hh + us + (x + rest)); lemma_cut(95, gg, x + more, hh, x + rest); axiom_dec_inj(g as u64, h as u64);
        }
        (Type::Event, Type::Group(h)) => { assert(a[0] == 101); assert(b[0] == 103); }
        (Type::Group(g), Type::Event) => { assert(a[0] == 103); assert(b[0] == 101); }
        _ => {}
    }
}
pub proof fn lemma_bases(p: u64, t: Type, q: u64, u: Type, i: u64) ensures starts(k_data(base(q, u), i), base(p, t)) ==> p == q && t == u
{ let r = asc("/data/"@) + dec(i); assert(k_data(base(q, u), i) =~= k_project(q, tname(u) + r)); if starts(k_data(base(q, u), i), base(p, t)) { lemma_within(p, t, q, u, r); } }
pub proof fn lemma_aside(p: u64, t: Type, q: u64, d: DType, c: Seq<u8>) ensures !starts(okey(q, d), base(p, t)), !starts(ckey(q, c), base(p, t))
{
    reveal_strlit("event_properties"); reveal_strlit("group_"); reveal_strlit("properties/order/"); reveal_strlit("global"); let a = tname(t);
    let x = asc("properties/order/"@) + utf8(s_short(d)) + asc("id_seq"@); assert(okey(q, d) =~= k_project(q, x));
    if starts(okey(q, d), base(p, t)) { lemma_project_scan(p, a, q, x); assert(x.take(a.len() as int)[0] == x[0]); assert(x[0] == 112); }
    let y = asc("global"@) + asc("/idx/"@) + asc("column_name"@) + asc("/"@) + c; assert(ckey(q, c) =~= k_project(q, y));
    if starts(ckey(q, c), base(p, t)) { lemma_project_scan(p, a, q, y); assert(y.take(a.len() as int)[0] == y[0]); assert(y.take(a.len() as int)[1] == y[1]); assert(y[0] == 103); assert(y[1] == 108); }
}
// only the record `id` of kind `t` in project `p` may have changed
pub open spec fn one(m: Store, n: Store, p: u64, t: Type, id: u64) -> bool { forall|q: u64, u: Type, i: u64| !(q == p && u == t && i == id) ==> #[trigger] same_at(m, n, k_data(base(q, u), i)) }
pub open spec fn order_kept(m: Store, n: Store, p: u64) -> bool { forall|d: DType| #[trigger] same_at(m, n, okey(p, d)) }
pub proof fn lemma_one(m: Store, n: Store, p: u64, t: Type, id: u64, was: Option<Property>, is: Option<Property>) requires step(m, n, base(p, t), id, was, is) ensures one(m, n, p, t, id), order_kept(m, n, p)
{
    let b = base(p, t); lemma_outside(m, n, b, id, was, is);
    assert forall|q: u64, u: Type, i: u64| !(q == p && u == t && i == id) implies #[trigger] same_at(m, n, k_data(base(q, u), i)) by {
        let k = k_data(base(q, u), i); lemma_bases(p, t, q, u, i);
        if q == p && u == t { if k == k_data(b, id) { lemma_data_key(b, i, id); } lemma_seq_data(b, i); if keyed(is, b, k) { lemma_keys(is->0, b, k); } if keyed(was, b, k) { lemma_keys(was->0, b, k); } }
    }
    assert forall|d: DType| #[trigger] same_at(m, n, okey(p, d)) by { lemma_aside(p, t, p, d, seq![]); }
}
pub open spec fn made_in(m: Store, p: u64, t: Type, e: Property) -> Store { created(m.insert(okey(p, e.data_type), le(e.order)), base(p, t), e.id, e).insert(ckey(p, col(e)), le(e.id)) }
pub proof fn lemma_okeys(p: u64, a: DType, b: DType) requires scalar(a), scalar(b), okey(p, a) == okey(p, b) ensures a == b
{
    let h = asc("properties/order/"@); let x = utf8(s_short(a)); let y = utf8(s_short(b)); let z = asc("id_seq"@);
    assert(okey(p, a) =~= k_project(p, h + x + z)); assert(okey(p, b) =~= k_project(p, h + y + z)); lemma_project(p, h + x + z, p, h + y + z);
    assert(h + x + z =~= h + (x + z)); assert(h + y + z =~= h + (y + z)); lemma_cancel(h, x + z, y + z); assert(x.len() == y.len()); assert(x =~= (x + z).take(x.len() as int)); assert(y =~= (y + z).take(x.len() as int));
    axiom_utf8_inj(s_short(a), s_short(b)); lemma_shorts(a, b);
}
pub proof fn lemma_new(m: Store, p: u64, t: Type, e: Property)
    requires inv::<Property>(m, base(p, t)), ords(m, p), scalar(e.data_type), e.id == counter(m, k_seq(base(p, t)), 1), seq_ok(m, k_seq(base(p, t))), e.order == counter(m, okey(p, e.data_type), 0), seq_ok(m, okey(p, e.data_type)),
        forall|i: int| 0 <= i < somes(e.ekeys(base(p, t))).len() ==> !m.dom().contains(#[trigger] somes(e.ekeys(base(p, t)))[i])
    ensures ({ let n = made_in(m, p, t, e); inv::<Property>(n, base(p, t)) && ords(n, p) && one(m, n, p, t, e.id) && rec(n, base(p, t), e.id, e) && !m.dom().contains(k_data(base(p, t), e.id)) })
{
    let b = base(p, t); let ok = okey(p, e.data_type); let ck = ckey(p, col(e)); let m1 = m.insert(ok, le(e.order)); let n1 = created(m1, b, e.id, e); let n = n1.insert(ck, le(e.id));
    lemma_aside(p, t, p, e.data_type, col(e)); lemma_under(b, e.id);
    assert forall|k: Seq<u8>| starts(k, b) implies #[trigger] same_at(m, m1, k) by {} lemma_frame::<Property>(m, m1, b); assert(same_at(m, m1, k_seq(b)));
    assert forall|i: int| 0 <= i < somes(e.ekeys(b)).len() implies !m1.dom().contains(#[trigger] somes(e.ekeys(b))[i]) by { let k = somes(e.ekeys(b))[i]; lemma_somes(e.ekeys(b)); assert(somes(e.ekeys(b)).contains(k)); assert(has_key(e, b, k)); lemma_keys(e, b, k); let h = b + asc("/idx/"@); assert(k.take(h.len() as int) =~= h); assert(k.take(b.len() as int) =~= b); assert(starts(k, b)); }
    lemma_created(m1, b, e.id, e); lemma_one(m1, n1, p, t, e.id, None, Some(e));
    assert forall|k: Seq<u8>| starts(k, b) implies #[trigger] same_at(n1, n, k) by {} lemma_frame::<Property>(n1, n, b); assert(same_at(m, m1, k_data(b, e.id)));
    assert forall|q: u64, u: Type, i: u64| !(q == p && u == t && i == e.id) implies #[trigger] same_at(m, n, k_data(base(q, u), i)) by { let k = k_data(base(q, u), i); assert(same_at(m1, n1, k)); lemma_under(base(q, u), i); lemma_aside(q, u, p, e.data_type, col(e)); }
    assert(same_at(m1, n1, ok)); assert(n.dom().contains(ok)); if ok == ck { reveal_strlit("properties/order/"); reveal_strlit("global"); let x = asc("properties/order/"@) + utf8(s_short(e.data_type)) + asc("id_seq"@); let y = asc("global"@) + asc("/idx/"@) + asc("column_name"@) + asc("/"@) + col(e); assert(ok =~= k_project(p, x)); assert(ck =~= k_project(p, y)); lemma_project(p, x, p, y); assert(x[0] == 112); assert(y[0] == 103); }
    assert(un_le(n[ok]) == e.order);
    assert forall|u: Type, i: u64, w: Property| #[trigger] rec(n, base(p, u), i, w) implies numbered(n, p, w) && ((u == t && i == e.id) || rec(m, base(p, u), i, w)) && ((u == t && i == e.id) ==> w.order == e.order && w.data_type == e.data_type) by {
        if u == t && i == e.id { assert(w.enc() == e.enc()); lemma_same(e, w); }
        else { assert(same_at(m, n, k_data(base(p, u), i))); assert(rec(m, base(p, u), i, w)); let o = okey(p, w.data_type); if o == ok { lemma_okeys(p, w.data_type, e.data_type); } else { assert(same_at(m1, n1, o)); assert(o != ck) by { reveal_strlit("properties/order/"); reveal_strlit("global"); let x = asc("properties/order/"@) + utf8(s_short(w.data_type)) + asc("id_seq"@); let y = asc("global"@) + asc("/idx/"@) + asc("column_name"@) + asc("/"@) + col(e); assert(o =~= k_project(p, x)); assert(ck =~= k_project(p, y)); if o == ck { lemma_project(p, x, p, y); assert(x[0] == 112); assert(y[0] == 103); } } } }
    }
    assert forall|u: Type, i: u64, w: Property, u2: Type, i2: u64, w2: Property| #[trigger] rec(n, base(p, u), i, w) && #[trigger] rec(n, base(p, u2), i2, w2) && !(u == u2 && i == i2) && w.data_type == w2.data_type implies w.order != w2.order by {
        if u == t && i == e.id { assert(numbered(m, p, w2)); } else if u2 == t && i2 == e.id { assert(numbered(m, p, w)); }
    }
}
pub proof fn lemma_replaced(m: Store, n: Store, p: u64, t: Type, id: u64, w: Property, e: Property)
    requires ords(m, p), rec(m, base(p, t), id, w), rec(n, base(p, t), id, e), one(m, n, p, t, id), order_kept(m, n, p), e.order == w.order, e.data_type == w.data_type
    ensures ords(n, p)
{
    assert(numbered(m, p, w));
    assert forall|u: Type, i: u64, v: Property| #[trigger] rec(n, base(p, u), i, v) implies numbered(n, p, v) && ((u == t && i == id) || rec(m, base(p, u), i, v)) && ((u == t && i == id) ==> v.order == w.order && v.data_type == w.data_type) by {
        if u == t && i == id { lemma_same(e, v); } else { assert(same_at(m, n, k_data(base(p, u), i))); assert(rec(m, base(p, u), i, v)); } assert(same_at(m, n, okey(p, v.data_type)));
    }
}
pub proof fn lemma_gone(m: Store, n: Store, p: u64, t: Type, id: u64) requires ords(m, p), one(m, n, p, t, id), order_kept(m, n, p), !n.dom().contains(k_data(base(p, t), id)) ensures ords(n, p)
{
    assert forall|u: Type, i: u64, v: Property| #[trigger] rec(n, base(p, u), i, v) implies numbered(n, p, v) && rec(m, base(p, u), i, v) by { assert(same_at(m, n, k_data(base(p, u), i))); assert(rec(m, base(p, u), i, v)); assert(same_at(m, n, okey(p, v.data_type))); }
}
// ---- what the caches hold is what is stored
pub open spec fn good(ids: Map<(u64, u64), Property>, names: Map<(u64, Seq<char>), Property>, t: Type, m: Store) -> bool {
    &&& forall|k: (u64, u64)| #[trigger] ids.dom().contains(k) ==> rec(m, base(k.0, t), k.1, ids[k])
    &&& forall|k: (u64, Seq<char>)| #[trigger] names.dom().contains(k) ==> names[k].name@ == k.1 && rec(m, base(k.0, t), names[k].id, names[k])
}
impl Properties { pub closed spec fn ok(self) -> bool { good(self.id_cache@, self.name_cache@, self.typ, self.db@) } }
pub proof fn lemma_names(a: Property, b: Property) requires a.enc() == b.enc() ensures a.name == b.name, a.id == b.id
{ assert(unpb::<property::Property>(a.enc()) == Some(to_pb(a))); assert(unpb::<property::Property>(b.enc()) == Some(to_pb(b))); assert(to_pb(a) == to_pb(b)); }
pub proof fn lemma_name_keys(ns: Seq<u8>, e: Property, n: Seq<char>) requires has_key(e, ns, k_index(ns, asc("name"@), utf8(n))) ensures e.name@ == n
{
    reveal_strlit("name"); reveal_strlit("display_name"); let x = asc("name"@); let y = asc("display_name"@); let i = choose|i: int| 0 <= i < e.ekeys(ns).len() && e.ekeys(ns)[i] == Some(k_index(ns, x, utf8(n)));
    assert(slash_free(x)); assert(slash_free(y));
    if i == 0 { lemma_index_key(ns, x, e.name@, x, n); } else { assert(e.display_name is Some); lemma_index_key(ns, y, e.display_name->0@, x, n); assert(x.len() != y.len()); }
}
pub proof fn lemma_distinct(ns: Seq<u8>, e: Property, w: Property) ensures distinct(e.ekeys(ns), w.ekeys(ns))
{
    reveal_strlit("name"); reveal_strlit("display_name"); let x = asc("name"@); let y = asc("display_name"@); assert(slash_free(x)); assert(slash_free(y)); assert(x.len() != y.len());
    if w.display_name is Some && k_index(ns, x, utf8(e.name@)) == k_index(ns, y, utf8(w.display_name->0@)) { lemma_index_key(ns, x, e.name@, y, w.display_name->0@); }
    if e.display_name is Some && k_index(ns, x, utf8(w.name@)) == k_index(ns, y, utf8(e.display_name->0@)) { lemma_index_key(ns, x, w.name@, y, e.display_name->0@); }
}
pub open spec fn renamed(n: Map<(u64, Seq<char>), Property>, m: Map<(u64, Seq<char>), Property>, p: u64, e: Property) -> bool { shrunk(n, m.insert((p, e.name@), e)) }
/// remembering what was just written keeps the caches true
pub proof fn lemma_cached(ids: Map<(u64, u64), Property>, names: Map<(u64, Seq<char>), Property>, ids2: Map<(u64, u64), Property>, names2: Map<(u64, Seq<char>), Property>, t: Type, m: Store, n: Store, p: u64, e: Property)
    requires good(ids, names, t, m), one(m, n, p, t, e.id), rec(n, base(p, t), e.id, e), shrunk(ids2, ids.insert((p, e.id), e)), renamed(names2, names, p, e),
        forall|w: Property| #[trigger] rec(m, base(p, t), e.id, w) ==> w.name == e.name && w.id == e.id, forall|i: u64, w: Property| #[trigger] rec(m, base(p, t), i, w) ==> w.id == i
    ensures good(ids2, names2, t, n)
{
    assert forall|k: (u64, u64)| #[trigger] ids2.dom().contains(k) implies rec(n, base(k.0, t), k.1, ids2[k]) by { if k != (p, e.id) { assert(ids.dom().contains(k)); assert(k.0 != p || k.1 != e.id); assert(same_at(m, n, k_data(base(k.0, t), k.1))); } }
    assert forall|k: (u64, Seq<char>)| #[trigger] names2.dom().contains(k) implies names2[k].name@ == k.1 && rec(n, base(k.0, t), names2[k].id, names2[k]) by {
        if k != (p, e.name@) { assert(names.dom().contains(k)); let v = names[k]; assert(rec(m, base(k.0, t), v.id, v)); if k.0 == p && v.id == e.id { assert(v.name@ == e.name@); assert(k == (p, e.name@)); } assert(same_at(m, n, k_data(base(k.0, t), v.id))); }
    }
}
pub proof fn lemma_forgotten(ids: Map<(u64, u64), Property>, names: Map<(u64, Seq<char>), Property>, t: Type, m: Store, n: Store, p: u64, e: Property)
    requires good(ids, names, t, m), one(m, n, p, t, e.id), forall|w: Property| #[trigger] rec(m, base(p, t), e.id, w) ==> w.name == e.name && w.id == e.id
    ensures good(ids.remove((p, e.id)), names.remove((p, e.name@)), t, n), good(ids.remove((p, e.id)), names.remove((p, e.name@)), t, m)
{
    let ids2 = ids.remove((p, e.id)); let names2 = names.remove((p, e.name@));
    assert forall|k: (u64, u64)| #[trigger] ids2.dom().contains(k) implies rec(n, base(k.0, t), k.1, ids2[k]) by { assert(k.0 != p || k.1 != e.id); assert(ids.dom().contains(k)); assert(same_at(m, n, k_data(base(k.0, t), k.1))); }
    assert forall|k: (u64, Seq<char>)| #[trigger] names2.dom().contains(k) implies names2[k].name@ == k.1 && rec(n, base(k.0, t), names2[k].id, names2[k]) by {
        assert(names.dom().contains(k)); let v = names[k]; assert(rec(m, base(k.0, t), v.id, v)); if k.0 == p && v.id == e.id { assert(v.name@ == e.name@); assert(k == (p, e.name@)); } assert(same_at(m, n, k_data(base(k.0, t), v.id)));
    }
    assert forall|k: (u64, u64)| #[trigger] ids2.dom().contains(k) implies rec(m, base(k.0, t), k.1, ids2[k]) by { assert(ids.dom().contains(k)); }
    assert forall|k: (u64, Seq<char>)| #[trigger] names2.dom().contains(k) implies names2[k].name@ == k.1 && rec(m, base(k.0, t), names2[k].id, names2[k]) by { assert(names.dom().contains(k)); }
}
impl Type {
//@fn src/metadata/src/properties.rs Type::path | ret=r block
//@contract
    ensures utf8(r@) == tname(*self),
//@start
    proof { reveal_with_fuel(flat, 4); reveal_strlit("event_properties"); axiom_ascii("event_properties"@); }
//@end
}
impl Property {
//@fn src/metadata/src/properties.rs Property::column_name | ret=r block
//@rule let mut name : String = self . name . chars ( ) . filter ( | c | { c . is_ascii_alphabetic ( ) || c . is_numeric ( ) || c . is_whitespace ( ) || c == & '_' } ) . collect ( ) ; name = name . to_case ( Case :: Snake ) ; name = name . trim ( ) . to_string ( ) ; =>> let name = snake(&self.name);
//@contract
    requires self.is_system || scalar(self.data_type),
    ensures utf8(r@) == col(*self),
//@start
    proof { reveal_with_fuel(flat, 8); }
//@end
}
//@fn src/metadata/src/properties.rs index_name_key | ret=r block
//@contract
    ensures key_of(r) == Some(nkey(project_id, *typ, name@)), r is Some,
//@end
//@fn src/metadata/src/properties.rs index_display_name_key | ret=r block
//@rule display_name . map ( | v | { $$e } ) =>> match display_name { Some(v) => Some({ $e }), None => None }
//@contract
    ensures key_of(r) == dkey(project_id, *typ, display_name),
//@end
//@fn src/metadata/src/properties.rs index_keys | ret=r block
//@contract
    ensures ks(r@) =~= seq![Some(nkey(project_id, *typ, name@)), dkey(project_id, *typ, display_name)],
//@end
//@fn src/metadata/src/properties.rs serialize | ret=r2 block
//@rule unreachable ! ( ) =>> never()
//@rule prop . dictionary_type . clone ( ) . map ( | v | match v { $$arms } ) =>> match same_as(&prop.dictionary_type) { Some(v) => Some(match v { $arms }), None => None }
//@contract
    requires scalar(prop.data_type),
    ensures r2 is Ok ==> r2->Ok_0@ == (*prop).enc(), r2 is Err ==> r2->Err_0 is Bincode,
//@before Ok ( v . encode_to_vec ( ) )
    proof { assert(v == to_pb(*prop)); }
//@end
//@fn src/metadata/src/properties.rs deserialize | ret=r2 block
//@rule unreachable ! ( ) =>> corrupt(data)
//@rule from . dictionary_type . map ( | v | match v { $$arms } ) =>> match from.dictionary_type { Some(v) => Some(match v { $arms }), None => None }
//@rule from . type_group . unwrap ( ) =>> some_group(data, from.type_group)
//@contract
    ensures r2 is Ok ==> unpb::<property::Property>(data@) is Some, r2 is Ok ==> is_read(data@, r2->Ok_0), (exists|x: Property| data@ == #[trigger] x.enc()) ==> r2 is Err ==> r2->Err_0 is Bincode, r2 is Err ==> !(r2->Err_0 is NotFound),
//@end
#[verifier::external_body] fn some_group(data: &[u8], g: Option<u64>) -> (r: u64) requires g is Some || forall|x: Property| data@ != #[trigger] x.enc() ensures g == Some(r) { unimplemented!() }
pub open spec fn field_type(e: Property) -> DType { match e.dictionary_type { Some(DictionaryType::Int8) => DType::Int8, Some(DictionaryType::Int16) => DType::Int16, Some(DictionaryType::Int32) => DType::Int32, Some(DictionaryType::Int64) => DType::Int64, None => e.data_type } }
// the columns a new property asks the event store for: one in the events table, and one in its group's table
pub open spec fn fields(t: Type, e: Property) -> Seq<Field> {
    let ev = (utf8("events"@), col(e), field_type(e), e.nullable);
    match t { Type::Event => seq![ev], Type::Group(g) => seq![ev, (asc("group_"@) + dec(g as u64), col(e), field_type(e), e.nullable)] }
}
pub open spec fn made(r: Property, p: u64, q: CreatePropertyRequest) -> bool { r.project_id == p && r.updated_at is None && r.updated_by is None && r.created_by == q.created_by && r.tags == q.tags && r.name == q.name && r.description == q.description && r.display_name == q.display_name && r.typ == q.typ && r.data_type == q.data_type && r.status == q.status && r.hidden == q.hidden && r.is_system == q.is_system && r.nullable == q.nullable && r.is_array == q.is_array && r.is_dictionary == q.is_dictionary && r.dictionary_type == q.dictionary_type }
pub open spec fn changed(w: Property, r: Property, q: UpdatePropertyRequest) -> bool { r.updated_at is Some && r.updated_by == Some(q.updated_by) && r.id == w.id && r.created_at == w.created_at && r.created_by == w.created_by && r.project_id == w.project_id && r.name == w.name && r.order == w.order && r.hidden == w.hidden
    && set(q.tags, w.tags, r.tags) && set(q.description, w.description, r.description) && set(q.display_name, w.display_name, r.display_name) && set(q.typ, w.typ, r.typ) && set(q.data_type, w.data_type, r.data_type) && set(q.status, w.status, r.status) && set(q.is_system, w.is_system, r.is_system) && set(q.nullable, w.nullable, r.nullable) && set(q.is_array, w.is_array, r.is_array) && set(q.is_dictionary, w.is_dictionary, r.is_dictionary) && set(q.dictionary_type, w.dictionary_type, r.dictionary_type) }
pub open spec fn taken_names(m: Store, p: u64, t: Type, n: Seq<char>, d: Option<String>) -> bool { m.dom().contains(nkey(p, t, n)) || dkey(p, t, d) is Some && m.dom().contains(dkey(p, t, d)->0) }
pub open spec fn fails(e: MetadataError) -> bool { infra(e) || e is Store }
pub proof fn lemma_whose(m: Store, p: u64, t: Type, id: u64, w: Property) requires inv::<Property>(m, base(p, t)), ords(m, p), rec(m, base(p, t), id, w) ensures w.id == id, scalar(w.data_type) { assert(numbered(m, p, w)); }
pub open spec fn found(m: Store, b: Seq<u8>, e: Property, c: Seq<u8>) -> bool { col(e) == c && exists|id: u64| #[trigger] rec(m, b, id, e) }
pub open spec fn rewritten(m: Store, n: Store, p: u64, t: Type, id: u64, r: Property, q: UpdatePropertyRequest) -> bool {
    &&& exists|w: Property| #[trigger] rec(m, base(p, t), id, w) && changed(w, r, q) && step(m, n, base(p, t), id, Some(w), Some(r))
    // nothing but a request to change the type or the kind of a property moves it to another column
    &&& q.data_type is None ==> ords(n, p)
    &&& q.data_type is None && q.typ is None && q.is_system is None ==> forall|w: Property| #[trigger] rec(m, base(p, t), id, w) ==> col(w) == col(r)
}
pub open spec fn naming(p: u64, t: Type, d: OptionalProperty<Option<String>>, e: Option<String>) -> Seq<Option<Seq<u8>>> { match d { OptionalProperty::Some(_) => seq![dkey(p, t, e)], OptionalProperty::None => seq![] } }
pub proof fn lemma_update(m: Store, n: Store, p: u64, t: Type, id: u64, w: Property, e: Property, q: UpdatePropertyRequest, a: Seq<Option<Seq<u8>>>, b: Seq<Option<Seq<u8>>>)
    requires inv::<Property>(m, base(p, t)), ords(m, p), rec(m, base(p, t), id, w), changed(w, e, q), q.data_type is Some ==> scalar(q.data_type->Some_0), a == naming(p, t, q.display_name, e.display_name), b == naming(p, t, q.display_name, w.display_name), n == updated(m, base(p, t), id, e, a, b),
        forall|i: int| 0 <= i < min(a.len(), b.len()) ==> !taken(m, #[trigger] a[i], b[i]),
    ensures inv::<Property>(n, base(p, t)), rewritten(m, n, p, t, id, e, q), forall|x: Property| #[trigger] rec(m, base(p, t), id, x) ==> x.name == e.name && x.id == e.id && col(x) == col(w), step(m, n, base(p, t), id, Some(w), Some(e)), one(m, n, p, t, id), q.data_type is None ==> ords(n, p), rec(n, base(p, t), id, e), e.id == id, forall|i: u64, x: Property| #[trigger] rec(m, base(p, t), i, x) ==> x.id == i
{
    let ns = base(p, t); assert(numbered(m, p, w)); assert(e.ekeys(ns)[1] == dkey(p, t, e.display_name)); assert(w.ekeys(ns)[1] == dkey(p, t, w.display_name)); lemma_distinct(ns, e, w); lemma_distinct(ns, w, w); lemma_distinct(ns, e, e);
    if q.display_name is Some { let s: Seq<int> = seq![1int]; assert(s[0] == 1); lemma_among(w, e, ns, a, b, s); }
    else { let s: Seq<int> = seq![]; lemma_among(w, e, ns, a, b, s); }
    lemma_updated(m, ns, id, w, e, a, b); lemma_one(m, n, p, t, id, Some(w), Some(e));
    if q.data_type is None { lemma_replaced(m, n, p, t, id, w, e); }
    assert forall|x: Property| #[trigger] rec(m, base(p, t), id, x) implies x.name == e.name && x.id == e.id && col(x) == col(w) by { lemma_same(w, x); }
}
impl Properties {
//@fn src/metadata/src/properties.rs Properties::get_by_id_ | ret=r block
//@contract
    requires self.ok(), old(tx)@ == self.db@, inv::<Property>(self.db@, base(project_id, self.typ)),
    ensures final(tx)@ == old(tx)@, r is Ok ==> rec(self.db@, base(project_id, self.typ), id, r->Ok_0), r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !self.db@.dom().contains(k_data(base(project_id, self.typ), id)),
//@before Ok ( deserialize ( & value ) ? )
    proof { let k_ = k_data(base(project_id, self.typ), id); if self.db@.dom().contains(k_) { let e = choose|e: Property| #[trigger] rec(self.db@, base(project_id, self.typ), id, e); assert(rec(self.db@, base(project_id, self.typ), id, e)); Property::back_ok(e); } }
//@end
//@fn src/metadata/src/properties.rs Properties::get_by_name_ | ret=r block
//@contract
    requires self.ok(), old(tx)@ == self.db@, inv::<Property>(self.db@, base(project_id, self.typ)),
    ensures final(tx)@ == old(tx)@, r is Ok ==> rec(self.db@, base(project_id, self.typ), r->Ok_0.id, r->Ok_0) && r->Ok_0.name@ == name@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !self.db@.dom().contains(nkey(project_id, self.typ, name@)),
//@start
    proof { lemma_is_idx(base(project_id, self.typ), asc("name"@), utf8(name@)); }
//@before self . get_by_id_
    proof {
        let ns = base(project_id, self.typ); let k = nkey(project_id, self.typ, name@); let e = choose|e: Property| #[trigger] rec(self.db@, ns, id, e) && has_key(e, ns, k); assert(rec(self.db@, ns, id, e)); lemma_name_keys(ns, e, name@);
        assert forall|x: Property| #[trigger] rec(self.db@, ns, id, x) implies x.name@ == name@ && x.id == id by { lemma_names(e, x); }
    }
//@end
//@fn src/metadata/src/properties.rs Properties::get_by_id | ret=r block
//@contract
    requires self.ok(), inv::<Property>(self.db@, base(project_id, self.typ)),
    ensures r is Ok ==> rec(self.db@, base(project_id, self.typ), id, r->Ok_0), r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !self.db@.dom().contains(k_data(base(project_id, self.typ), id)),
//@end
//@fn src/metadata/src/properties.rs Properties::get_by_name | ret=r block
//@contract
    requires self.ok(), inv::<Property>(self.db@, base(project_id, self.typ)),
    ensures r is Ok ==> rec(self.db@, base(project_id, self.typ), r->Ok_0.id, r->Ok_0) && r->Ok_0.name@ == name@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !self.db@.dom().contains(nkey(project_id, self.typ, name@)),
//@end
//@fn src/metadata/src/properties.rs Properties::create_ | ret=r mut_self block
//@rule idx_keys . iter ( ) . flatten ( ) =>> present(idx_keys.as_slice())
//@rule format ! ( "properties/order/{}" , req . data_type . short_name ( ) ) . as_bytes ( ) =>> text_bytes(&fmt(&[piece("properties/order/").as_slice(), shown(&(req.data_type.short_name())).as_slice()]))
//@contract
    requires inv::<Property>(old(tx)@, base(project_id, old(self).typ)), ords(old(tx)@, project_id), scalar(req.data_type), seq_ok(old(tx)@, k_seq(base(project_id, old(self).typ))), seq_ok(old(tx)@, okey(project_id, req.data_type)),
    ensures final(self).db == old(self).db, final(self).id_cache == old(self).id_cache, final(self).name_cache == old(self).name_cache, final(self).typ == old(self).typ,
        r is Ok ==> made(r->Ok_0, project_id, req), r is Ok ==> r->Ok_0.id == counter(old(tx)@, k_seq(base(project_id, old(self).typ)), 1), r is Ok ==> r->Ok_0.order == counter(old(tx)@, okey(project_id, req.data_type), 0),
        r is Ok ==> final(tx)@ == made_in(old(tx)@, project_id, old(self).typ, r->Ok_0) && !taken_names(old(tx)@, project_id, old(self).typ, req.name@, req.display_name),
        r is Ok ==> inv::<Property>(final(tx)@, base(project_id, old(self).typ)) && ords(final(tx)@, project_id) && one(old(tx)@, final(tx)@, project_id, old(self).typ, r->Ok_0.id) && rec(final(tx)@, base(project_id, old(self).typ), r->Ok_0.id, r->Ok_0) && !old(tx)@.dom().contains(k_data(base(project_id, old(self).typ), r->Ok_0.id)),
        r is Ok ==> final(self).opti_db@ == old(self).opti_db@ + fields(old(self).typ, r->Ok_0),
        r is Err ==> fails(r->Err_0) || r->Err_0 is AlreadyExists && taken_names(old(tx)@, project_id, old(self).typ, req.name@, req.display_name),
//@start
    let ghost m0 = old(tx)@; let ghost t0 = self.typ; let ghost b = base(project_id, self.typ); let ghost ok = okey(project_id, req.data_type);
    proof { reveal_with_fuel(flat, 4); lemma_aside(project_id, t0, project_id, req.data_type, seq![]); lemma_under(b, 0); }
//@loop 0 iter=it
    invariant views(it.seq()) == somes(ks(idx_keys@)), tx@ == m0, forall|i: int| 0 <= i < it.index@ ==> !m0.dom().contains(#[trigger] somes(ks(idx_keys@))[i]),
//@loopstart 0
    proof { assert(views(it.seq())[it.index@ as int] == key@); lemma_some_at(ks(idx_keys@)); let kk_ = somes(ks(idx_keys@))[it.index@ as int]; assert(kk_ == key@); }
//@before let id = next_seq
    let ghost ik = ks(idx_keys@);
    proof { lemma_some_at(ik); lemma_somes(ik); assert forall|k: Seq<u8>| #[trigger] ik.contains(Some(k)) implies !m0.dom().contains(k) by { assert(somes(ik).contains(k)); let i = choose|i: int| 0 <= i < somes(ik).len() && somes(ik)[i] == k; assert(!m0.dom().contains(somes(ik)[i])); } assert(ik[0] == Some(nkey(project_id, t0, req.name@))); assert(ik.contains(ik[0])); assert(ik[1] == dkey(project_id, t0, req.display_name)); assert(ik.contains(ik[1])); }
//@before let created_at
    proof { assert(tx@ == m0.insert(k_seq(b), le(id)).insert(ok, le(order))); }
//@before insert_index
    proof {
        let a = ks(idx_keys@); let ck = ckey(project_id, col(prop)); assert(a =~= ik.push(Some(ck))); assert(a.drop_last() =~= ik); assert(somes(a) == somes(ik).push(ck)); assert(somes(a).drop_last() =~= somes(ik));
        lemma_keyseq(prop, b, ik); let m1 = m0.insert(ok, le(prop.order)); assert(m1.insert(k_seq(b), le(prop.id)) =~= m0.insert(k_seq(b), le(prop.id)).insert(ok, le(prop.order)));
        assert(tx@ == m1.insert(k_seq(b), le(prop.id)).insert(k_data(b, prop.id), prop.enc()));
        assert(put_all(tx@, somes(a), le(prop.id)) == made_in(m0, project_id, t0, prop));
        lemma_new(m0, project_id, t0, prop);
    }
//@before return if let
    let ghost l0 = self.opti_db@;
    proof { assert(dt == field_type(prop)); match t0 { Type::Event => { assert(fields(t0, prop) =~= seq![].push(fields(t0, prop)[0])); assert(l0 + fields(t0, prop) =~= l0.push(fields(t0, prop)[0])); } Type::Group(g) => { assert(l0 + fields(t0, prop) =~= l0.push(fields(t0, prop)[0]).push(fields(t0, prop)[1])); } } }
//@end
//@fn src/metadata/src/properties.rs Properties::cache | ret=r mut_self block
//@contract
    ensures final(self).db == old(self).db, final(self).opti_db == old(self).opti_db, final(self).typ == old(self).typ, shrunk(final(self).id_cache@, old(self).id_cache@.insert((project_id, prop.id), *prop)), renamed(final(self).name_cache@, old(self).name_cache@, project_id, *prop),
//@end
//@fn src/metadata/src/properties.rs Properties::create | ret=r mut_self block
//@contract
    requires old(self).ok(), inv::<Property>(old(self).db@, base(project_id, old(self).typ)), ords(old(self).db@, project_id), scalar(req.data_type), seq_ok(old(self).db@, k_seq(base(project_id, old(self).typ))), seq_ok(old(self).db@, okey(project_id, req.data_type)),
    ensures final(self).typ == old(self).typ, final(self).ok(), inv::<Property>(final(self).db@, base(project_id, old(self).typ)), ords(final(self).db@, project_id),
        r is Ok ==> made(r->Ok_0, project_id, req) && r->Ok_0.order == counter(old(self).db@, okey(project_id, req.data_type), 0) && final(self).db@ == made_in(old(self).db@, project_id, old(self).typ, r->Ok_0) && final(self).opti_db@ == old(self).opti_db@ + fields(old(self).typ, r->Ok_0) && rec(final(self).db@, base(project_id, old(self).typ), r->Ok_0.id, r->Ok_0) && !taken_names(old(self).db@, project_id, old(self).typ, req.name@, req.display_name),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> fails(r->Err_0) || r->Err_0 is AlreadyExists && taken_names(old(self).db@, project_id, old(self).typ, req.name@, req.display_name),
//@before self . cache
    proof { assert(one(old(self).db@, self.db@, project_id, self.typ, ret.id)); }
//@before Ok ( ret )
    proof { lemma_cached(old(self).id_cache@, old(self).name_cache@, self.id_cache@, self.name_cache@, self.typ, old(self).db@, self.db@, project_id, ret); }
//@end
//@fn src/metadata/src/properties.rs Properties::get_or_create | ret=r mut_self block
//@contract
    requires old(self).ok(), inv::<Property>(old(self).db@, base(project_id, old(self).typ)), ords(old(self).db@, project_id), scalar(req.data_type), seq_ok(old(self).db@, k_seq(base(project_id, old(self).typ))), seq_ok(old(self).db@, okey(project_id, req.data_type)),
    ensures final(self).typ == old(self).typ, final(self).ok(), inv::<Property>(final(self).db@, base(project_id, old(self).typ)), ords(final(self).db@, project_id),
        r is Ok ==> rec(final(self).db@, base(project_id, old(self).typ), r->Ok_0.id, r->Ok_0) && r->Ok_0.name@ == req.name@, r is Ok ==> final(self).db@ == old(self).db@ && final(self).opti_db@ == old(self).opti_db@ || made(r->Ok_0, project_id, req) && r->Ok_0.order == counter(old(self).db@, okey(project_id, req.data_type), 0) && final(self).db@ == made_in(old(self).db@, project_id, old(self).typ, r->Ok_0) && final(self).opti_db@ == old(self).opti_db@ + fields(old(self).typ, r->Ok_0) && !old(self).db@.dom().contains(nkey(project_id, old(self).typ, req.name@)),
        old(self).db@.dom().contains(nkey(project_id, old(self).typ, req.name@)) ==> final(self).db@ == old(self).db@,
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> fails(r->Err_0) || r->Err_0 is AlreadyExists && taken_names(old(self).db@, project_id, old(self).typ, req.name@, req.display_name),
//@before self . cache
    proof { assert(one(old(self).db@, self.db@, project_id, self.typ, ret.id)); }
//@before Ok ( ret )
    proof { lemma_cached(old(self).id_cache@, old(self).name_cache@, self.id_cache@, self.name_cache@, self.typ, old(self).db@, self.db@, project_id, ret); }
//@end
//@fn src/metadata/src/properties.rs Properties::list | ret=r block
//@contract
    requires inv::<Property>(self.db@, base(project_id, self.typ)),
    ensures r is Ok ==> listed(self.db@, base(project_id, self.typ), r->Ok_0.data@), r is Err ==> infra(r->Err_0),
//@loop 0 iter=it
    invariant scanned(it.seq(), tx@, k_all(base(project_id, self.typ))), tx@ == self.db@, prefix@ == k_all(base(project_id, self.typ)), it.index@ <= it.seq().len(),
        forall|i: int| 0 <= i < list@.len() ==> is_read(scan(tx@, prefix@)[i].1, #[trigger] list@[i]),
        !brk_0 ==> list@.len() == it.index@,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]) is Ok,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> starts(#[trigger] scan(tx@, prefix@)[i].0, prefix@),
        brk_0 ==> list@.len() == hits(tx@, prefix@),
//@loopstart 0
    proof { axiom_scan(tx@, prefix@); assert(kv == it.seq()[it.index@ as int]); }
//@before if ! from_utf8
    proof { let i = it.index@ as int; assert(it.seq()[i] is Ok); assert(it.seq()[i]->Ok_0 == (key, value)); assert(key@ == scan(tx@, prefix@)[i].0); assert(i > 0 ==> starts(scan(tx@, prefix@)[i - 1].0, prefix@));
        if starts(key@, prefix@) { assert(self.db@.dom().contains(key@)); let id = choose|id: u64| key@ == #[trigger] k_data(base(project_id, self.typ), id); let e = choose|e: Property| #[trigger] rec(self.db@, base(project_id, self.typ), id, e); assert(rec(self.db@, base(project_id, self.typ), id, e)); assert(value@ == e.enc()); } }
//@before ListResponse
    proof { axiom_scan(tx@, prefix@); let n = scan(tx@, prefix@).len() as int; assert(!brk_0 && n > 0 ==> starts(scan(tx@, prefix@)[n - 1].0, prefix@)); lemma_listed(self.db@, base(project_id, self.typ), list@); }
//@end
//@fn src/metadata/src/properties.rs Properties::get_by_column_name | ret=r block
//@contract
    requires inv::<Property>(self.db@, base(project_id, self.typ)), ords(self.db@, project_id),
    ensures r is Ok ==> found(self.db@, base(project_id, self.typ), r->Ok_0, utf8(col_name@)),
        r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && forall|id: u64, w: Property| #[trigger] rec(self.db@, base(project_id, self.typ), id, w) ==> col(w) != utf8(col_name@),
//@before for prop in props . data
    let ghost ds = props.data@; let ghost ids = choose|ids: Seq<u64>| #[trigger] listing(self.db@, base(project_id, self.typ), ds, ids);
    proof { assert forall|i: int| 0 <= i < ds.len() implies rec(self.db@, base(project_id, self.typ), ids[i], #[trigger] ds[i]) && numbered(self.db@, project_id, ds[i]) by { assert(holds(self.db@, base(project_id, self.typ), ids[i], ds[i])); let e = choose|e: Property| #[trigger] rec(self.db@, base(project_id, self.typ), ids[i], e); assert(rec(self.db@, base(project_id, self.typ), ids[i], e)); Property::back_ok(e); assert(rec(self.db@, base(project_id, self.typ), ids[i], ds[i])); } }
//@loop 0 iter=it
    invariant it.seq() == ds, forall|i: int| 0 <= i < it.index@ ==> col(#[trigger] ds[i]) != utf8(col_name@), forall|i: int| 0 <= i < ds.len() ==> rec(self.db@, base(project_id, self.typ), ids[i], #[trigger] ds[i]) && numbered(self.db@, project_id, ds[i]),
//@loopstart 0
    proof { assert(prop == ds[it.index@ as int]); assert(rec(self.db@, base(project_id, self.typ), ids[it.index@ as int], ds[it.index@ as int])); assert(rec(self.db@, base(project_id, self.typ), ids[it.index@ as int], prop)); assert forall|x: Seq<char>, y: Seq<char>| utf8(x) == utf8(y) implies x == y by { axiom_utf8_inj(x, y); } }
//@before return Ok ( prop )
    proof { assert(rec(self.db@, base(project_id, self.typ), ids[it.index@ as int], prop)); assert(col(prop) == utf8(col_name@)); assert(found(self.db@, base(project_id, self.typ), prop, utf8(col_name@))); }
//@before Err
    proof { assert forall|id: u64, w: Property| #[trigger] rec(self.db@, base(project_id, self.typ), id, w) implies col(w) != utf8(col_name@) by { assert(ids.contains(id)); let i = choose|i: int| 0 <= i < ids.len() && ids[i] == id; assert(numbered(self.db@, project_id, ds[i])); assert(rec(self.db@, base(project_id, self.typ), ids[i], ds[i])); lemma_same(ds[i], w); } }
//@end
//@fn src/metadata/src/properties.rs Properties::update | ret=r mut_self block
//@rule if let OptionalProperty :: Some ( $v ) = req . $f { prop . $g = $v ; } =>> apply(&mut prop.$g, req.$f);
//@contract
    requires old(self).ok(), inv::<Property>(old(self).db@, base(project_id, old(self).typ)), ords(old(self).db@, project_id), req.data_type is Some ==> scalar(req.data_type->Some_0),
    ensures final(self).typ == old(self).typ, final(self).ok(), inv::<Property>(final(self).db@, base(project_id, old(self).typ)), final(self).opti_db == old(self).opti_db,
        r is Ok ==> rewritten(old(self).db@, final(self).db@, project_id, old(self).typ, property_id, r->Ok_0, req),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(project_id, old(self).typ), property_id)) || r->Err_0 is AlreadyExists && req.display_name is Some && dkey(project_id, old(self).typ, req.display_name->Some_0) is Some && old(self).db@.dom().contains(dkey(project_id, old(self).typ, req.display_name->Some_0)->0),
//@hide
    hide(inv); hide(ords); hide(rec); hide(one); hide(order_kept); hide(step); hide(shrunk); hide(renamed); hide(good); hide(rewritten); hide(changed); hide(move_all); hide(naming); hide(base); hide(k_data); hide(to_pb);
//@before let mut prop
    let ghost w = prev_prop; proof { lemma_whose(self.db@, project_id, self.typ, property_id, w); }
//@before check_update_constraints
    proof { assert(ks(idx_keys@) =~= naming(project_id, self.typ, req.display_name, prop.display_name)) by { reveal(naming); } assert(ks(idx_prev_keys@) =~= naming(project_id, self.typ, req.display_name, w.display_name)) by { reveal(naming); } }
//@before let data = serialize
    proof { assert(idx_key@ == k_data(base(project_id, self.typ), property_id)) by { reveal(base); } }
//@before tx . put ( idx_key , data )
    proof { assert(data@ == prop.enc()); }
//@before update_index
    proof { assert(tx@ == self.db@.insert(k_data(base(project_id, self.typ), property_id), prop.enc())); }
//@before tx . commit
    proof { assert(changed(w, prop, req)) by { reveal(changed); } let ns = base(project_id, old(self).typ); let a = ks(idx_keys@); let b = ks(idx_prev_keys@);
        assert(tx@ == updated(old(self).db@, ns, property_id, prop, a, b));
    lemma_update(old(self).db@, tx@, project_id, old(self).typ, property_id, w, prop, req, ks(idx_keys@), ks(idx_prev_keys@)); }
//@before Ok ( prop )
    proof { lemma_cached(old(self).id_cache@, old(self).name_cache@, self.id_cache@, self.name_cache@, self.typ, old(self).db@, self.db@, project_id, prop); }
//@end
//@fn src/metadata/src/properties.rs Properties::delete | ret=r mut_self block
//@contract
    requires old(self).ok(), inv::<Property>(old(self).db@, base(project_id, old(self).typ)), ords(old(self).db@, project_id),
    ensures final(self).typ == old(self).typ, final(self).ok(), inv::<Property>(final(self).db@, base(project_id, old(self).typ)), ords(final(self).db@, project_id), order_kept(old(self).db@, final(self).db@, project_id),
        r is Ok ==> rec(old(self).db@, base(project_id, old(self).typ), id, r->Ok_0) && step(old(self).db@, final(self).db@, base(project_id, old(self).typ), id, Some(r->Ok_0), None),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(project_id, old(self).typ), id)),
//@before self . name_cache
    proof {
        let ns = base(project_id, old(self).typ); assert(rec(old(self).db@, ns, id, prop)); lemma_deleted(old(self).db@, ns, id, prop); lemma_somes(prop.ekeys(ns)); assert(seq![Some(nkey(project_id, self.typ, prop.name@)), dkey(project_id, self.typ, prop.display_name)] =~= prop.ekeys(ns)); assert(tx@ == deleted(old(self).db@, ns, id, prop));
        lemma_one(old(self).db@, tx@, project_id, old(self).typ, id, Some(prop), None); lemma_gone(old(self).db@, tx@, project_id, old(self).typ, id); assert(numbered(old(self).db@, project_id, prop)); assert(prop.id == id);
        assert forall|x: Property| #[trigger] rec(old(self).db@, ns, id, x) implies x.name == prop.name && x.id == prop.id by { lemma_same(prop, x); }
        lemma_forgotten(self.id_cache@, self.name_cache@, self.typ, old(self).db@, tx@, project_id, prop);
    }
//@end
}
}
}
//@helpers
fn main() {}
