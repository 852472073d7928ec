// ---- text as bytes
//@formats
//@rule StoreError :: Internal ( $$a ) =>> StoreError::Internal(message())
//@rule StoreError :: AlreadyExists ( $$a ) =>> StoreError::AlreadyExists(message())
pub open spec fn asc(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub axiom fn axiom_utf8(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 ensures utf8(s) == asc(s);
pub uninterp spec fn dec(x: nat) -> Seq<u8>;
pub uninterp spec fn dec_in(w: nat, x: nat) -> Seq<u8>;
// decimal rendering (padded or not): digits only, one per number
pub axiom fn axiom_dec(x: nat) ensures dec(x).len() > 0, forall|i: int| 0 <= i < dec(x).len() ==> 48 <= #[trigger] dec(x)[i] <= 57;
pub axiom fn axiom_dec_inj(x: nat, y: nat) requires dec(x) == dec(y) ensures x == y;
pub axiom fn axiom_dec_in_inj(w: nat, x: nat, y: nat) requires dec_in(w, x) == dec_in(w, y) ensures x == y;
pub trait Shown { spec fn shown(&self) -> Seq<u8>; }
impl Shown for u64 { open spec fn shown(&self) -> Seq<u8> { dec(*self as nat) } }
impl Shown for usize { open spec fn shown(&self) -> Seq<u8> { dec(*self as nat) } }
impl Shown for str { open spec fn shown(&self) -> Seq<u8> { utf8(self@) } }
impl Shown for String { open spec fn shown(&self) -> Seq<u8> { utf8(self@) } }
impl<T: Shown + ?Sized> Shown for &T { open spec fn shown(&self) -> Seq<u8> { (**self).shown() } }
pub trait Number { spec fn number(&self) -> nat; }
impl Number for u64 { open spec fn number(&self) -> nat { *self as nat } }
impl Number for usize { open spec fn number(&self) -> nat { *self as nat } }
#[verifier::external_body] pub fn shown<T: Shown + ?Sized>(x: &T) -> (r: Vec<u8>) ensures r@ == x.shown() { unimplemented!() }
#[verifier::external_body] pub fn shown_in<T: Number>(w: usize, x: &T) -> (r: Vec<u8>) ensures r@ == dec_in(w as nat, x.number()) { unimplemented!() }
#[verifier::external_body] pub fn piece(s: &'static str) -> (r: Vec<u8>) ensures r@ == asc(s@) { unimplemented!() }
pub open spec fn flat(p: Seq<&[u8]>) -> Seq<u8> decreases p.len() { if p.len() == 0 { seq![] } else { flat(p.drop_last()) + p.last()@ } }
#[verifier::external_body] pub fn fmt(p: &[&[u8]]) -> (r: String) ensures utf8(r@) == flat(p@) { unimplemented!() }
#[verifier::external_body] pub fn message() -> (r: String) { unimplemented!() }
// ---- the file system: what each path holds. A regular file is read in full up to its end; a write may stop half way, the rest of the file staying as it was
pub type Files = Map<Seq<u8>, Seq<u8>>;
// it keeps the states it went through: after each operation, whether it succeeded or not
pub struct Disk { pub m: Ghost<Files>, pub t: Ghost<Seq<Files>> }
impl Disk { pub open spec fn view(&self) -> Files { self.m@ } pub open spec fn trace(&self) -> Seq<Files> { self.t@ } }
pub open spec fn one_step(a: Disk, b: Disk) -> bool { b.trace() == a.trace().push(b@) }
/// b is a later moment of the same disk
pub open spec fn later(a: Disk, b: Disk) -> bool { a.trace().len() <= b.trace().len() && forall|i: int| 0 <= i < a.trace().len() ==> #[trigger] b.trace()[i] == a.trace()[i] }
#[verifier::external_body] pub struct Cause { x: u8 }
pub enum StoreError { Internal(String), AlreadyExists(String), Io(Cause), Codec(Cause) }
pub type IoError = StoreError;
/// an answer to the caller, as opposed to a failure underneath
pub open spec fn refusal(e: StoreError) -> bool { e is Internal || e is AlreadyExists }
pub type Result<T> = core::result::Result<T, StoreError>;
#[verifier::external_body] pub struct PathBuf { x: u8 }
pub type Path = PathBuf;
impl PathBuf { pub uninterp spec fn view(&self) -> Seq<u8>; }
pub open spec fn joined(p: Seq<u8>, s: Seq<u8>) -> Seq<u8> { p + asc("/"@) + s }
impl PathBuf {
    #[verifier::external_body] pub fn join<S: Shown>(&self, s: S) -> (r: PathBuf) ensures r@ == joined(self@, s.shown()) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
}
/// what a file holds after writing at a position
pub open spec fn written(c: Seq<u8>, pos: nat, d: Seq<u8>) -> Seq<u8> { c.take(pos as int) + d + (if pos + d.len() < c.len() { c.skip((pos + d.len()) as int) } else { seq![] }) }
pub struct OpenOptions { pub read: bool, pub write: bool, pub create: bool, pub create_new: bool, pub truncate: bool }
impl OpenOptions {
    pub fn new() -> (r: OpenOptions) ensures r == (OpenOptions { read: false, write: false, create: false, create_new: false, truncate: false }) { OpenOptions { read: false, write: false, create: false, create_new: false, truncate: false } }
    pub fn read(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { read: b, ..self }) { OpenOptions { read: b, ..self } }
    pub fn write(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { write: b, ..self }) { OpenOptions { write: b, ..self } }
    pub fn create(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { create: b, ..self }) { OpenOptions { create: b, ..self } }
    pub fn create_new(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { create_new: b, ..self }) { OpenOptions { create_new: b, ..self } }
    pub fn truncate(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { truncate: b, ..self }) { OpenOptions { truncate: b, ..self } }
    #[verifier::external_body] pub fn open_at(&self, p: &PathBuf, disk: &mut Disk) -> (r: core::result::Result<File, IoError>)
        ensures r is Err ==> r->Err_0 is Io, one_step(*old(disk), *final(disk)), r is Err ==> final(disk)@ == old(disk)@,
            r is Ok ==> r->Ok_0.path() == p@ && r->Ok_0.pos() == 0 && final(disk)@ == (if old(disk)@.contains_key(p@) && !self.truncate { old(disk)@ } else { old(disk)@.insert(p@, seq![]) }),
            r is Ok && self.create_new ==> !old(disk)@.contains_key(p@),
            r is Ok && !old(disk)@.contains_key(p@) ==> self.write && (self.create || self.create_new),
            r is Ok && self.truncate ==> self.write { unimplemented!() }
}
//@rule . open ( & $p ) ? =>> .open_at(&$p, disk)?
//@rule . open ( $$p ) ? =>> .open_at(&$p, disk)?
//@rule $f . read ( & mut $b ) ? =>> $f.read_in(&mut $b, disk)?
//@rule . write_all ( $$d ) ? =>> .write_all($d, disk)?
//@rule . set_len ( $$d ) ? =>> .set_len($d, disk)?
//@rule . try_remove_file ( $$d ) ? =>> .try_remove_file($d, disk)?
//@rule _ = $f . read ( & mut $b ) ? ; =>> let _ = $f.read_in(&mut $b, disk)?;
pub trait Buf { spec fn b(&self) -> Seq<u8>; }
impl<const N: usize> Buf for [u8; N] { open spec fn b(&self) -> Seq<u8> { self@ } }
impl Buf for Vec<u8> { open spec fn b(&self) -> Seq<u8> { self@ } }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
#[verifier::external_body] pub struct File { x: u8 }
/// how many bytes a read of up to n bytes gets
pub open spec fn got(c: Seq<u8>, pos: nat, n: nat) -> nat { if pos >= c.len() { 0 } else if pos + n <= c.len() { n } else { (c.len() - pos) as nat } }
impl File {
    pub uninterp spec fn path(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body] pub fn read_in<B: Buf>(&mut self, buf: &mut B, disk: &Disk) -> (r: core::result::Result<usize, IoError>)
        requires disk@.contains_key(old(self).path())
        ensures r is Err ==> r->Err_0 is Io, final(self).path() == old(self).path(), final(buf).b().len() == old(buf).b().len(),
            r is Ok ==> r->Ok_0 == got(disk@[old(self).path()], old(self).pos(), old(buf).b().len()) && final(self).pos() == old(self).pos() + r->Ok_0
                && (r->Ok_0 == old(buf).b().len() ==> (r->Ok_0 == 0 || final(buf).b() == disk@[old(self).path()].subrange(old(self).pos() as int, old(self).pos() + r->Ok_0))) { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, d: &[u8], disk: &mut Disk) -> (r: core::result::Result<(), IoError>)
        requires old(disk)@.contains_key(old(self).path()), old(self).pos() <= old(disk)@[old(self).path()].len()
        ensures r is Err ==> r->Err_0 is Io, one_step(*old(disk), *final(disk)), final(self).path() == old(self).path(),
            r is Ok ==> final(self).pos() == old(self).pos() + d@.len() && final(disk)@ == old(disk)@.insert(old(self).path(), written(old(disk)@[old(self).path()], old(self).pos(), d@)),
            r is Err ==> exists|k: int| 0 <= k && (k < d@.len() || k == 0) && final(disk)@ == old(disk)@.insert(old(self).path(), #[trigger] written(old(disk)@[old(self).path()], old(self).pos(), d@.take(k))) { unimplemented!() }
    #[verifier::external_body] pub fn set_len(&mut self, n: u64, disk: &mut Disk) -> (r: core::result::Result<(), IoError>)
        requires old(disk)@.contains_key(old(self).path()), n <= old(disk)@[old(self).path()].len()
        ensures r is Err ==> r->Err_0 is Io, one_step(*old(disk), *final(disk)), final(self).path() == old(self).path(), final(self).pos() == old(self).pos(), r is Err ==> final(disk)@ == old(disk)@,
            r is Ok ==> final(disk)@ == old(disk)@.insert(old(self).path(), old(disk)@[old(self).path()].take(n as int)) { unimplemented!() }
    #[verifier::external_body] pub fn seek(&mut self, s: SeekFrom) -> (r: core::result::Result<u64, IoError>)
        ensures r is Err ==> r->Err_0 is Io, final(self).path() == old(self).path(), r is Ok && s is Start ==> final(self).pos() == s->Start_0 { unimplemented!() }
    #[verifier::external_body] pub fn rewind(&mut self) -> (r: core::result::Result<(), IoError>)
        ensures r is Err ==> r->Err_0 is Io, final(self).path() == old(self).path(), r is Ok ==> final(self).pos() == 0 { unimplemented!() }
}
//@rule $p . metadata ( ) . unwrap ( ) . len ( ) =>> file_len(&$p, disk)
#[verifier::external_body] pub fn file_len(p: &PathBuf, disk: &Disk) -> (r: u64) requires disk@.contains_key(p@) ensures r == disk@[p@].len() { unimplemented!() }
// buffered handles are used through `get_mut` only: what is written goes straight to the file
pub struct BufWriter { pub f: File }
impl BufWriter {
    pub fn new(f: File) -> (r: BufWriter) ensures r.f == f { BufWriter { f } }
    pub fn get_mut(&mut self) -> (r: &mut File) ensures *r == old(self).f, final(self).f == *final(r) { &mut self.f }
}
/// the open-file counts only ever keep a file from being removed
#[verifier::external_body] pub struct Fs { x: u8 }
impl Fs {
    #[verifier::external_body] pub fn open_at(&self, p: &PathBuf, disk: &mut Disk) -> (r: Result<()>) ensures one_step(*old(disk), *final(disk)), r is Err ==> r->Err_0 is Io, final(disk)@ == old(disk)@ { unimplemented!() }
    #[verifier::external_body] pub fn close(&self, p: &PathBuf) -> (r: Result<()>) ensures r is Err ==> r->Err_0 is Io { unimplemented!() }
    #[verifier::external_body] pub fn try_remove_file(&self, p: PathBuf, disk: &mut Disk) -> (r: Result<()>) ensures one_step(*old(disk), *final(disk)), r is Err ==> r->Err_0 is Io, (final(disk)@ == old(disk)@ || final(disk)@ == old(disk)@.remove(p@)) { unimplemented!() }
}
// ---- little-endian integers, checksums, concatenation
//@rule u32 :: from_le_bytes ( $$e ) =>> from_le4($e)
//@rule u64 :: from_le_bytes ( $$e ) =>> from_le8($e)
//@rule $~x . to_le_bytes ( ) =>> ($x).le_()
//@rule mem :: size_of :: < u32 > ( ) =>> 4
//@rule mem :: size_of :: < u64 > ( ) =>> 8
//@rule a . concat ( ) =>> concat_all(&a)
//@rule a . push ( & $d ) =>> a.push($d.as_slice())
pub uninterp spec fn le4(x: u32) -> Seq<u8>;
pub uninterp spec fn le8(x: u64) -> Seq<u8>;
pub uninterp spec fn un4(b: Seq<u8>) -> u32;
pub uninterp spec fn un8(b: Seq<u8>) -> u64;
pub broadcast axiom fn axiom_le4(x: u32) ensures un4(#[trigger] le4(x)) == x, le4(x).len() == 4;
pub broadcast axiom fn axiom_le8(x: u64) ensures un8(#[trigger] le8(x)) == x, le8(x).len() == 8;
pub trait ToLe { type B; fn le_(self) -> (r: Self::B) where Self: Sized; }
impl ToLe for u32 { type B = [u8; 4]; #[verifier::external_body] fn le_(self) -> (r: [u8; 4]) ensures r@ == le4(self) { unimplemented!() } }
impl ToLe for u64 { type B = [u8; 8]; #[verifier::external_body] fn le_(self) -> (r: [u8; 8]) ensures r@ == le8(self) { unimplemented!() } }
#[verifier::external_body] pub fn from_le4(b: [u8; 4]) -> (r: u32) ensures r == un4(b@) { unimplemented!() }
#[verifier::external_body] pub fn from_le8(b: [u8; 8]) -> (r: u64) ensures r == un8(b@) { unimplemented!() }
#[verifier::external_body] pub fn concat_all(p: &Vec<&[u8]>) -> (r: Vec<u8>) ensures r@ == flat(p@) { unimplemented!() }
pub uninterp spec fn crc32(b: Seq<u8>) -> u32;
pub mod crc32fast { use super::*;
    pub struct Hasher { pub g: Ghost<Seq<u8>> }
    impl Hasher {
        #[verifier::external_body] pub fn new() -> (r: Hasher) ensures r.g@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, v: &[u8]) ensures final(self).g@ == old(self).g@ + v@ { unimplemented!() }
        #[verifier::external_body] pub fn finalize(self) -> (r: u32) ensures r == crc32(self.g@) { unimplemented!() }
    }
}
pub open spec fn sum(b: Seq<u8>) -> u32 { crc32(b) ^ 0xFF }
/// one framed record: checksum, length, bytes
pub open spec fn frame(d: Seq<u8>) -> Seq<u8> { le4(sum(d)) + le8(d.len() as u64) + d }
