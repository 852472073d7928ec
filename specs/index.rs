//@rule & Transaction < TransactionDB > =>> &mut Tx
//@rule $x . iter ( ) . flatten ( ) =>> present($x)
//@rule keys . iter ( ) . zip ( prev_keys ) =>> pairs(keys, prev_keys)
//@rule key != prev_key =>> !same(key, prev_key)
//@rule key == prev_key =>> same(key, prev_key)
//@rule String :: from_utf8 ( $$e ) =>> text_of($e)
//@rule AsRef < [ u8 ] > =>> AsBytes
//@rule key . as_ref ( ) =>> &key
//@rule err_key . to_string ( ) =>> text(err_key)
//@rule err_key : impl ToString =>> err_key: impl Texty
use vstd::std_specs::cmp::PartialEqSpec;
pub trait Texty {}
impl<T> Texty for T {}
#[verifier::external_body] fn text<T>(e: T) -> String { unimplemented!() }
#[verifier::external_body] fn text_of(v: Vec<u8>) -> (r: Result<String>) ensures r is Err ==> r->Err_0 is FromUtf8 { unimplemented!() }
pub open spec fn key_of(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
#[verifier::external_body] fn same(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> (r: bool) ensures r == (key_of(*a) == key_of(*b)) { unimplemented!() }
// slice iterators with their adaptors, as the sequence they yield
pub open spec fn ks(s: Seq<Option<Vec<u8>>>) -> Seq<Option<Seq<u8>>> { Seq::new(s.len(), |i: int| key_of(s[i])) }
pub open spec fn somes(s: Seq<Option<Seq<u8>>>) -> Seq<Seq<u8>> decreases s.len() { if s.len() == 0 { seq![] } else { let r = somes(s.drop_last()); match s.last() { Some(v) => r.push(v), None => r } } }
spec fn views(s: Seq<&Vec<u8>>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i]@) }
#[verifier::external_body] fn present<'a>(s: &'a [Option<Vec<u8>>]) -> (r: Vec<&'a Vec<u8>>) ensures views(r@) == somes(ks(s@)) { unimplemented!() }
pub open spec fn min(a: nat, b: nat) -> nat { if a < b { a } else { b } }
#[verifier::external_body] fn pairs<'a>(a: &'a [Option<Vec<u8>>], b: &'a [Option<Vec<u8>>]) -> (r: Vec<(&'a Option<Vec<u8>>, &'a Option<Vec<u8>>)>)
    ensures r@.len() == min(a@.len(), b@.len()), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == a@[i] && *r@[i].1 == b@[i] { unimplemented!() }

// ---- what the index holds afterwards
pub open spec fn put_all(m: Store, ks: Seq<Seq<u8>>, v: Seq<u8>) -> Store decreases ks.len() { if ks.len() == 0 { m } else { put_all(m, ks.drop_last(), v).insert(ks.last(), v) } }
pub open spec fn del_all(m: Store, ks: Seq<Seq<u8>>) -> Store decreases ks.len() { if ks.len() == 0 { m } else { del_all(m, ks.drop_last()).remove(ks.last()) } }
pub open spec fn move_one(m: Store, k: Option<Seq<u8>>, p: Option<Seq<u8>>, v: Seq<u8>) -> Store { let a = if k != p && p is Some { m.remove(p->0) } else { m }; if k is Some { a.insert(k->0, v) } else { a } }
pub open spec fn move_all(m: Store, a: Seq<Option<Seq<u8>>>, p: Seq<Option<Seq<u8>>>, n: nat, v: Seq<u8>) -> Store decreases n { if n == 0 { m } else { move_one(move_all(m, a, p, (n - 1) as nat, v), a[n - 1], p[n - 1], v) } }
pub open spec fn taken(m: Store, k: Option<Seq<u8>>, p: Option<Seq<u8>>) -> bool { k is Some && k != p && m.dom().contains(k->0) }

//@fn src/metadata/src/index.rs check_insert_constraints | ret=r block
//@contract
    ensures final(tx).view() == old(tx).view(),
        r is Ok ==> forall|i: int| 0 <= i < somes(ks(keys@)).len() ==> !old(tx).view().dom().contains(#[trigger] somes(ks(keys@))[i]),
        r is Err && r->Err_0 is AlreadyExists ==> exists|i: int| 0 <= i < somes(ks(keys@)).len() && old(tx).view().dom().contains(#[trigger] somes(ks(keys@))[i]),
        r is Err ==> r->Err_0 is AlreadyExists || r->Err_0 is RocksDb || r->Err_0 is FromUtf8,
//@loop 0 iter=it
    invariant views(it.seq()) == somes(ks(keys@)), tx.view() == old(tx).view(),
        forall|i: int| 0 <= i < it.index@ ==> !tx.view().dom().contains(#[trigger] somes(ks(keys@))[i]),
//@loopstart 0
    proof { assert(views(it.seq())[it.index@ as int] == key@); assert(somes(ks(keys@))[it.index@ as int] == key@); }
//@end
//@fn src/metadata/src/index.rs insert_index | ret=r block
//@contract
    ensures r is Ok ==> final(tx).view() == put_all(old(tx).view(), somes(ks(keys@)), le(id)), r is Err ==> r->Err_0 is RocksDb,
//@loop 0 iter=it
    invariant views(it.seq()) == somes(ks(keys@)), it.index@ <= it.seq().len(), tx.view() == put_all(old(tx).view(), somes(ks(keys@)).take(it.index@ as int), le(id)),
//@start
    proof { assert(somes(ks(keys@)).take(0) =~= seq![]); }
//@loopstart 0
    proof { let i = it.index@ as int; assert(views(it.seq())[i] == key@); assert(somes(ks(keys@)).take(i + 1).drop_last() =~= somes(ks(keys@)).take(i)); assert(somes(ks(keys@)).take(i + 1).last() == key@); }
//@before Ok ( ( ) )
    proof { assert(somes(ks(keys@)).take(somes(ks(keys@)).len() as int) =~= somes(ks(keys@))); }
//@end
//@fn src/metadata/src/index.rs delete_index | ret=r block
//@contract
    ensures r is Ok ==> final(tx).view() == del_all(old(tx).view(), somes(ks(keys@))), r is Err ==> r->Err_0 is RocksDb,
//@loop 0 iter=it
    invariant views(it.seq()) == somes(ks(keys@)), it.index@ <= it.seq().len(), tx.view() == del_all(old(tx).view(), somes(ks(keys@)).take(it.index@ as int)),
//@start
    proof { assert(somes(ks(keys@)).take(0) =~= seq![]); }
//@loopstart 0
    proof { let i = it.index@ as int; assert(views(it.seq())[i] == key@); assert(somes(ks(keys@)).take(i + 1).drop_last() =~= somes(ks(keys@)).take(i)); assert(somes(ks(keys@)).take(i + 1).last() == key@); }
//@before Ok ( ( ) )
    proof { assert(somes(ks(keys@)).take(somes(ks(keys@)).len() as int) =~= somes(ks(keys@))); }
//@end
//@fn src/metadata/src/index.rs check_update_constraints | ret=r block
//@contract
    ensures final(tx).view() == old(tx).view(),
        r is Ok ==> forall|i: int| 0 <= i < min(keys@.len(), prev_keys@.len()) ==> !taken(old(tx).view(), #[trigger] ks(keys@)[i], ks(prev_keys@)[i]),
        r is Err && r->Err_0 is AlreadyExists ==> exists|i: int| 0 <= i < min(keys@.len(), prev_keys@.len()) && taken(old(tx).view(), #[trigger] ks(keys@)[i], ks(prev_keys@)[i]),
        r is Err ==> r->Err_0 is AlreadyExists || r->Err_0 is RocksDb || r->Err_0 is FromUtf8,
//@loop 0 iter=it
    invariant it.seq().len() == min(keys@.len(), prev_keys@.len()), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).0 == keys@[i] && *it.seq()[i].1 == prev_keys@[i],
        tx.view() == old(tx).view(), forall|i: int| 0 <= i < it.index@ ==> !taken(tx.view(), #[trigger] ks(keys@)[i], ks(prev_keys@)[i]),
//@loopstart 0
    proof { let i = it.index@ as int; assert(*it.seq()[i].0 == keys@[i]); assert(*key == keys@[i] && *prev_key == prev_keys@[i]); assert(ks(keys@)[i] == key_of(*key) && ks(prev_keys@)[i] == key_of(*prev_key)); }
//@end
//@fn src/metadata/src/index.rs update_index | ret=r block
//@contract
    ensures r is Ok ==> final(tx).view() == move_all(old(tx).view(), ks(keys@), ks(prev_keys@), min(keys@.len(), prev_keys@.len()), le(value)), r is Err ==> r->Err_0 is RocksDb,
//@loop 0 iter=it
    invariant it.seq().len() == min(keys@.len(), prev_keys@.len()), it.index@ <= it.seq().len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).0 == keys@[i] && *it.seq()[i].1 == prev_keys@[i],
        tx.view() == move_all(old(tx).view(), ks(keys@), ks(prev_keys@), it.index@ as nat, le(value)),
//@loopstart 0
    proof { let i = it.index@ as int; assert(*it.seq()[i].0 == keys@[i]); assert(*key == keys@[i] && *prev_key == prev_keys@[i]); assert(ks(keys@)[i] == key_of(*key) && ks(prev_keys@)[i] == key_of(*prev_key)); }
//@end
//@fn src/metadata/src/index.rs get_index | ret=r block
//@contract
    requires old(tx).view().dom().contains(key.b()) ==> old(tx).view()[key.b()].len() == 8,
    ensures final(tx).view() == old(tx).view(),
        r is Ok ==> old(tx).view().dom().contains(key.b()) && r->Ok_0 == un_le(old(tx).view()[key.b()]),
        r is Err && r->Err_0 is NotFound ==> !old(tx).view().dom().contains(key.b()), r is Err ==> r->Err_0 is NotFound || r->Err_0 is RocksDb,
//@end
pub open spec fn counter(m: Store, k: Seq<u8>, first: int) -> int { if m.dom().contains(k) { un_le(m[k]) + 1 } else { first } }
//@fn src/metadata/src/index.rs next_seq | ret=r block
//@contract
    requires old(tx).view().dom().contains(key.b()) ==> old(tx).view()[key.b()].len() == 8 && un_le(old(tx).view()[key.b()]) < u64::MAX,
    ensures r is Ok ==> r->Ok_0 == counter(old(tx).view(), key.b(), 1) && final(tx).view() == old(tx).view().insert(key.b(), le(r->Ok_0)), r is Err ==> r->Err_0 is RocksDb,
//@end
//@fn src/metadata/src/index.rs next_zero_seq | ret=r block
//@contract
    requires old(tx).view().dom().contains(key.b()) ==> old(tx).view()[key.b()].len() == 8 && un_le(old(tx).view()[key.b()]) < u64::MAX,
    ensures r is Ok ==> r->Ok_0 == counter(old(tx).view(), key.b(), 0) && final(tx).view() == old(tx).view().insert(key.b(), le(r->Ok_0)), r is Err ==> r->Err_0 is RocksDb,
//@end
