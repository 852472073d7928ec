// ---- rewrites and assumed contracts shared by the metadata providers
//@rule Arc < TransactionDB > =>> Db
//@rule let tx = =>> let mut tx =
//@rule & tx =>> &mut tx
//@rule tx . commit ( ) =>> self.db.commit(tx)
//@rule & Transaction < TransactionDB > =>> &mut Tx
//@rule Utc :: now ( ) =>> now()
//@rule DateTime < Utc > =>> Instant
//@rule $x . $f . clone_from ( $$e ) =>> $x.$f = same_as($e)
//@rule $x . as_ref ( ) =>> $x.as_slice()
//@rule make_index_key ( $$a ) . to_vec ( ) =>> make_index_key($a)
//@rule [ $$x ] . to_vec ( ) =>> vec![$$x]
//@rule ! from_utf8 ( & prefix ) . unwrap ( ) . is_prefix_of ( from_utf8 ( & key ) . unwrap ( ) ) =>> !has_prefix(&key, &prefix)
//@rule ! prefix . is_prefix_of ( from_utf8 ( & key ) . unwrap ( ) ) =>> !has_prefix(&key, &prefix)
//@rule key . len ( ) < prefix . len ( ) || ! prefix . as_slice ( ) . cmp ( & key [ .. prefix . len ( ) ] ) . is_eq ( ) =>> !has_prefix(&key, &prefix)
//@rule MetadataError :: NotFound ( $$x ) =>> MetadataError::NotFound(some_text())
//@rule NAMESPACE =>> NAMESPACE()
//@rule $v . encode_to_vec ( ) =>> encode(&$v)
//@rule serialize ( & $r . query ) =>> bin(&$r.query)
//@rule deserialize ( & from . query ) =>> unbin(&from.query)
//@rule $x . $f . timestamp ( ) =>> secs(&$x.$f)
//@rule $x . $f . map ( | t | t . timestamp ( ) ) =>> secs_opt(&$x.$f)
//@rule chrono :: DateTime :: from_timestamp ( from . $f , 0 ) . unwrap ( ) =>> at(from.$f)
//@rule from . $f . map ( | t | chrono :: DateTime :: from_timestamp ( t , 0 ) . unwrap ( ) ) =>> at_opt(from.$f)
//@rule $x . $f . clone ( ) . unwrap_or_default ( ) =>> or_empty(&$x.$f)
//@rule $x . $f . clone ( ) =>> same_as(&$x.$f)
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct Instant { pub t: i64, pub n: u32 }
#[verifier::external_body] pub fn now() -> Instant { unimplemented!() }
#[verifier::external_body] pub fn secs(x: &Instant) -> (r: i64) ensures r == x.t { unimplemented!() }
pub open spec fn s_secs(x: Option<Instant>) -> Option<i64> { match x { Some(x) => Some(x.t), None => None } }
pub open spec fn s_at(x: Option<i64>) -> Option<Instant> { match x { Some(t) => Some(Instant { t, n: 0 }), None => None } }
#[verifier::external_body] pub fn secs_opt(x: &Option<Instant>) -> (r: Option<i64>) ensures r == s_secs(*x) { unimplemented!() }
#[verifier::external_body] pub fn at(t: i64) -> (r: Instant) ensures r == (Instant { t, n: 0 }) { unimplemented!() }
#[verifier::external_body] pub fn at_opt(t: Option<i64>) -> (r: Option<Instant>) ensures r == s_at(t) { unimplemented!() }
#[verifier::external_body] pub fn same_as<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body] pub fn some_text() -> String { unimplemented!() }
// a vector is its contents
pub uninterp spec fn no_items<T>() -> Vec<T>;
pub open spec fn s_or_empty<T>(x: Option<Vec<T>>) -> Vec<T> { match x { Some(v) => v, None => no_items() } }
#[verifier::external_body] pub fn or_empty<T>(x: &Option<Vec<T>>) -> (r: Vec<T>) ensures r == s_or_empty(*x) { unimplemented!() }
// prost: one encoding per message, decode undoes encode
pub uninterp spec fn pb<T>(x: T) -> Seq<u8>;
pub uninterp spec fn unpb<T>(b: Seq<u8>) -> Option<T>;
#[verifier::external_body] pub fn encode<T>(x: &T) -> (r: Vec<u8>) ensures r@ == pb(*x) { unimplemented!() }
#[verifier::external_body] pub fn decode<T>(b: &[u8]) -> (r: Result<T>) ensures r is Ok ==> unpb::<T>(b@) == Some(r->Ok_0), unpb::<T>(b@) is Some ==> r is Ok, r is Err ==> r->Err_0 is ProstDecodeError { unimplemented!() }
// bincode, likewise
pub uninterp spec fn s_bin<T>(x: T) -> Vec<u8>;
pub uninterp spec fn s_unbin<T>(b: Vec<u8>) -> T;
#[verifier::external_body] pub fn bin<T>(x: &T) -> (r: Result<Vec<u8>>) ensures r is Ok ==> r->Ok_0 == s_bin(*x), r is Err ==> r->Err_0 is Bincode { unimplemented!() }
#[verifier::external_body] pub fn unbin<T>(b: &Vec<u8>) -> (r: Result<T>) ensures r is Ok ==> r->Ok_0 == s_unbin::<T>(*b), r is Err ==> r->Err_0 is Bincode { unimplemented!() }
pub struct Db { pub m: Ghost<Store>, pub x: u8 }
impl Db {
    pub open spec fn view(&self) -> Store { self.m@ }
    #[verifier::external_body] pub fn transaction(&self) -> (r: Tx) ensures r@ == self@ { unimplemented!() }
    // a commit takes effect whole or not at all
    #[verifier::external_body] pub fn commit(&mut self, tx: Tx) -> (r: Result<()>) ensures r is Ok ==> final(self)@ == tx@, r is Err ==> final(self)@ == old(self)@ && r->Err_0 is RocksDb { unimplemented!() }
}
// a prefix scan yields the entries from the prefix on, in key order: those carrying the prefix come first
pub uninterp spec fn scan(m: Store, p: Seq<u8>) -> Seq<(Seq<u8>, Seq<u8>)>;
pub uninterp spec fn hits(m: Store, p: Seq<u8>) -> nat;
pub axiom fn axiom_scan(m: Store, p: Seq<u8>) ensures hits(m, p) <= scan(m, p).len(),
    forall|i: int| 0 <= i < scan(m, p).len() ==> m.dom().contains(#[trigger] scan(m, p)[i].0) && m[scan(m, p)[i].0] == scan(m, p)[i].1,
    forall|i: int| 0 <= i < scan(m, p).len() ==> (starts(#[trigger] scan(m, p)[i].0, p) <==> i < hits(m, p)),
    forall|i: int, j: int| 0 <= i < j < scan(m, p).len() ==> #[trigger] scan(m, p)[i].0 != #[trigger] scan(m, p)[j].0,
    forall|k: Seq<u8>| m.dom().contains(k) && #[trigger] starts(k, p) ==> exists|i: int| 0 <= i < hits(m, p) && #[trigger] scan(m, p)[i].0 == k;
#[verifier::external_body] pub fn has_prefix<P: AsBytes>(k: &Vec<u8>, p: &P) -> (r: bool) ensures r == starts(k@, p.b()) { unimplemented!() }
pub open spec fn scanned(r: Seq<Result<(Vec<u8>, Vec<u8>)>>, m: Store, p: Seq<u8>) -> bool {
    r.len() <= scan(m, p).len() && ((forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) is Ok) ==> r.len() == scan(m, p).len())
    && (forall|i: int| 0 <= i < r.len() && (#[trigger] r[i]) is Err ==> r[i]->Err_0 is RocksDb)
    && forall|i: int| 0 <= i < r.len() && (#[trigger] r[i]) is Ok ==> r[i]->Ok_0.0@ == scan(m, p)[i].0 && r[i]->Ok_0.1@ == scan(m, p)[i].1
}
impl Tx {
    #[verifier::external_body] pub fn prefix_iterator<P: AsBytes>(&self, p: P) -> (r: Vec<Result<(Vec<u8>, Vec<u8>)>>)
        ensures scanned(r@, self@, p.b()) { unimplemented!() }
}
// lists of (id, role) pairs, as the closures passed to any, all and retain read them
pub open spec fn has_id<R>(s: Seq<(u64, R)>, id: u64) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == id }
#[verifier::external_body] pub fn any_id<R>(v: &Vec<(u64, R)>, id: u64) -> (r: bool) ensures r == has_id(v@, id) { unimplemented!() }
pub open spec fn drop_id<R>(s: Seq<(u64, R)>, id: u64) -> Seq<(u64, R)> decreases s.len() { if s.len() == 0 { seq![] } else { let d = drop_id(s.drop_last(), id); if s.last().0 == id { d } else { d.push(s.last()) } } }
#[verifier::external_body] pub fn retain_other<R>(v: &mut Vec<(u64, R)>, id: u64) ensures final(v)@ == drop_id(old(v)@, id) { unimplemented!() }
#[verifier::external_body] pub fn get_or_insert<T>(o: &mut Option<Vec<T>>) -> (r: &mut Vec<T>) ensures *r == s_or_empty(*old(o)), *final(o) == Some(*final(r)) { unimplemented!() }
pub open spec fn first_set<R>(a: Seq<(u64, R)>, b: Seq<(u64, R)>, id: u64, role: R) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == id && (forall|j: int| 0 <= j < i ==> (#[trigger] a[j]).0 != id) && b == a.update(i, (id, role)) }
#[verifier::external_body] pub fn set_first<R>(v: &mut Vec<(u64, R)>, id: u64, role: R) -> (r: bool) ensures r == has_id(old(v)@, id), r ==> first_set(old(v)@, final(v)@, id, role), !r ==> final(v)@ == old(v)@ { unimplemented!() }
pub open spec fn infra(e: MetadataError) -> bool { e is RocksDb || e is FromUtf8 || e is Bincode }
pub open spec fn seq_ok(m: Store, k: Seq<u8>) -> bool { m.dom().contains(k) ==> m[k].len() == 8 && un_le(m[k]) < u64::MAX }
pub broadcast axiom fn axiom_no_items<T>(v: Vec<T>) ensures #[trigger] v@.len() == 0 <==> v == no_items::<T>();
// a vector is determined by its elements
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn axiom_vec_of<T>(s: Seq<T>) requires s.len() <= usize::MAX ensures (#[trigger] vec_of(s))@ == s;
pub broadcast axiom fn axiom_of_vec<T>(v: Vec<T>) ensures vec_of(#[trigger] v@) == v, v@.len() <= usize::MAX;
pub broadcast axiom fn axiom_pb<T>(x: T) ensures unpb::<T>(#[trigger] pb(x)) == Some(x);
pub broadcast axiom fn axiom_bin<T>(x: T) ensures s_unbin::<T>(#[trigger] s_bin(x)) == x;
pub broadcast group all { axiom_le, axiom_no_items, axiom_vec_of, axiom_of_vec, axiom_pb, axiom_bin }
