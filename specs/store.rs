// ---- an assumed model of RocksDB's transactional store: a transaction is a private map over byte keys
pub type Bytes = Seq<u8>;
pub type Store = Map<Seq<u8>, Seq<u8>>;
pub trait AsBytes { spec fn b(&self) -> Seq<u8>; }
impl AsBytes for Vec<u8> { open spec fn b(&self) -> Seq<u8> { self@ } }
impl AsBytes for [u8] { open spec fn b(&self) -> Seq<u8> { self@ } }
impl<const N: usize> AsBytes for [u8; N] { open spec fn b(&self) -> Seq<u8> { self@ } }
impl AsBytes for String { open spec fn b(&self) -> Seq<u8> { utf8(self@) } }
impl AsBytes for str { open spec fn b(&self) -> Seq<u8> { utf8(self@) } }
impl<T: AsBytes + ?Sized> AsBytes for &T { open spec fn b(&self) -> Seq<u8> { (**self).b() } }
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn le(x: u64) -> Seq<u8>;
pub uninterp spec fn un_le(b: Seq<u8>) -> u64;
pub broadcast axiom fn axiom_le(x: u64) ensures un_le(#[trigger] le(x)) == x, le(x).len() == 8;
pub broadcast axiom fn axiom_un_le(b: Seq<u8>) requires b.len() == 8 ensures le(#[trigger] un_le(b)) == b;
//@rule $x . to_le_bytes ( ) =>> to_le($x)
//@rule u64 :: from_le_bytes ( $v . try_into ( ) . unwrap ( ) ) =>> from_le(to8($v))
//@rule u64 :: from_le_bytes ( $$e ) =>> from_le($e)
#[verifier::external_body] pub fn to_le(x: u64) -> (r: [u8; 8]) ensures r@ == le(x) { unimplemented!() }
#[verifier::external_body] pub fn from_le(b: [u8; 8]) -> (r: u64) ensures r == un_le(b@) { unimplemented!() }
// the `.try_into().unwrap()` of a stored id: panics unless it has eight bytes, so its presence is a proof obligation
#[verifier::external_body] pub fn to8(v: Vec<u8>) -> (r: [u8; 8]) requires v@.len() == 8 ensures r@ == v@ { unimplemented!() }
pub struct Tx { pub m: Ghost<Store>, pub x: u8 }
impl Tx {
    pub open spec fn view(&self) -> Store { self.m@ }
    #[verifier::external_body] pub fn get<K: AsBytes>(&self, k: K) -> (r: Result<Option<Vec<u8>>>)
        ensures r is Ok ==> (match r->Ok_0 { Some(v) => self.view().dom().contains(k.b()) && v@ == self.view()[k.b()], None => !self.view().dom().contains(k.b()) }), r is Err ==> r->Err_0 is RocksDb { unimplemented!() }
    #[verifier::external_body] pub fn put<K: AsBytes, V: AsBytes>(&mut self, k: K, v: V) -> (r: Result<()>)
        ensures r is Ok ==> final(self).view() == old(self).view().insert(k.b(), v.b()), r is Err ==> r->Err_0 is RocksDb { unimplemented!() }
    #[verifier::external_body] pub fn delete<K: AsBytes>(&mut self, k: K) -> (r: Result<()>)
        ensures r is Ok ==> final(self).view() == old(self).view().remove(k.b()), r is Err ==> r->Err_0 is RocksDb { unimplemented!() }
}
