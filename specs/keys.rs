//@bytestrings
//@formats
//@rule [ $$a ] . concat ( ) =>> cat(&[$a])
//@rule $~x . to_string ( ) . as_bytes ( ) =>> shown(&$x).as_slice()
//@rule $~x . as_bytes ( ) =>> bytes_of($x)
// ---- text as bytes
pub open spec fn asc(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }
pub uninterp spec fn dec(x: u64) -> Seq<u8>;
// decimal rendering: digits only, never empty, one per number; UTF-8 is injective
pub axiom fn axiom_dec(x: u64) ensures dec(x).len() > 0, forall|i: int| 0 <= i < dec(x).len() ==> 48 <= #[trigger] dec(x)[i] <= 57;
pub axiom fn axiom_dec_inj(x: u64, y: u64) requires dec(x) == dec(y) ensures x == y;
pub axiom fn axiom_utf8_inj(a: Seq<char>, b: Seq<char>) requires utf8(a) == utf8(b) ensures a == b;
#[verifier::external_body] pub fn bs(s: &'static str) -> (r: &'static [u8]) ensures r@ == asc(s@) { unimplemented!() }
#[verifier::external_body] pub fn bytes_of(s: &str) -> (r: &[u8]) ensures r@ == utf8(s@) { unimplemented!() }
pub trait Shown { spec fn shown(&self) -> Seq<u8>; }
impl Shown for u64 { open spec fn shown(&self) -> Seq<u8> { dec(*self) } }
impl Shown for str { open spec fn shown(&self) -> Seq<u8> { utf8(self@) } }
impl Shown for String { open spec fn shown(&self) -> Seq<u8> { utf8(self@) } }
impl<T: Shown + ?Sized> Shown for &T { open spec fn shown(&self) -> Seq<u8> { (**self).shown() } }
#[verifier::external_body] pub fn shown<T: Shown + ?Sized>(x: &T) -> (r: Vec<u8>) ensures r@ == x.shown() { unimplemented!() }
#[verifier::external_body] pub fn piece(s: &'static str) -> (r: Vec<u8>) ensures r@ == asc(s@) { unimplemented!() }
pub open spec fn flat(p: Seq<&[u8]>) -> Seq<u8> decreases p.len() { if p.len() == 0 { seq![] } else { flat(p.drop_last()) + p.last()@ } }
#[verifier::external_body] pub fn cat(p: &[&[u8]]) -> (r: Vec<u8>) ensures r@ == flat(p@) { unimplemented!() }
#[verifier::external_body] pub fn fmt(p: &[&[u8]]) -> (r: String) ensures utf8(r@) == flat(p@) { unimplemented!() }
// ---- the key layout
pub open spec fn k_project(p: u64, ns: Seq<u8>) -> Seq<u8> { asc("projects/"@) + dec(p) + asc("/"@) + ns }
pub open spec fn k_org(p: u64, ns: Seq<u8>) -> Seq<u8> { asc("organizations/"@) + dec(p) + asc("/"@) + ns }
pub open spec fn k_all(ns: Seq<u8>) -> Seq<u8> { ns + asc("/data"@) }
pub open spec fn k_data(ns: Seq<u8>, id: u64) -> Seq<u8> { ns + asc("/data/"@) + dec(id) }
pub open spec fn k_index(ns: Seq<u8>, name: Seq<u8>, key: Seq<u8>) -> Seq<u8> { ns + asc("/idx/"@) + name + asc("/"@) + key }
pub open spec fn k_seq(ns: Seq<u8>) -> Seq<u8> { ns + asc("id_seq"@) }
broadcast proof fn flat_step(p: Seq<&[u8]>) requires p.len() > 0 ensures #[trigger] flat(p) == flat(p.drop_last()) + p.last()@ { }
//@fn src/metadata/src/lib.rs project_ns | ret=r block
//@contract
    ensures r@ == k_project(project_id, ns@),
//@start
    proof { reveal_with_fuel(flat, 6); }
//@end
//@fn src/metadata/src/lib.rs org_ns | ret=r block
//@contract
    ensures r@ == k_org(organization_id, ns@),
//@start
    proof { reveal_with_fuel(flat, 6); }
//@end
//@fn src/metadata/src/lib.rs make_data_value_key | ret=r block
//@contract
    ensures r@ == k_data(ns@, id),
//@start
    proof { reveal_with_fuel(flat, 6); }
//@end
//@fn src/metadata/src/lib.rs make_data_key | ret=r block
//@contract
    ensures r@ == k_all(ns@),
//@start
    proof { reveal_with_fuel(flat, 6); }
//@end
//@fn src/metadata/src/lib.rs make_index_key | ret=r block
//@contract
    ensures r@ == k_index(ns@, idx_name@, utf8(key@)),
//@start
    proof { reveal_with_fuel(flat, 6); }
//@end
//@fn src/metadata/src/lib.rs make_id_seq_key | ret=r block
//@contract
    ensures r@ == k_seq(ns@),
//@start
    proof { reveal_with_fuel(flat, 6); }
//@end
