#![verifier::loop_isolation(false)]
#![allow(unused, internal_features)]
//@rule String :: from_utf8 ( value ) =>> text_back(value)
//@rule dict . as_bytes ( ) =>> bytes_of(dict)
//@rule Arc < Dictionaries > =>> Dictionaries
//@include base.rs
use vstd::prelude::*;
use std::fmt::Debug;
verus! {
global size_of usize == 8;
//@include metaerr.rs
//@include store.rs
//@include keys.rs
//@include stdspec.rs
//@include index.rs
//@include keylemmas.rs
//@include provider.rs
pub mod dictionaries { use super::*; broadcast use crate::all;
#[verifier::external_body] pub fn text_back(v: Vec<u8>) -> (r: Result<String>) ensures r is Ok ==> utf8(r->Ok_0@) == v@, (exists|s: Seq<char>| v@ == #[trigger] utf8(s)) ==> r is Ok, r is Err ==> r->Err_0 is FromUtf8 { unimplemented!() }
//@static src/metadata/src/dictionaries.rs NAMESPACE | block
//@contract
    ensures r@ == NS(),
//@end
pub open spec fn NS() -> Seq<u8> { asc("dictinaries"@) }
// where one dictionary of one table of one project lives
pub open spec fn path(t: Seq<char>, d: Seq<char>) -> Seq<u8> { asc("tables/"@) + utf8(t) + asc("/"@) + utf8(d) + asc("/"@) }
pub open spec fn under(p: u64, at: Seq<u8>) -> Seq<u8> { k_project(p, NS() + asc("/"@) + at) }
pub open spec fn base(p: u64, t: Seq<char>, d: Seq<char>) -> Seq<u8> { under(p, path(t, d)) }
pub open spec fn kk(b: Seq<u8>, k: u64) -> Seq<u8> { b + asc("keys/"@) + dec(k) }
pub open spec fn vk(b: Seq<u8>, v: Seq<u8>) -> Seq<u8> { b + asc("values/"@) + v }
pub open spec fn key_at(m: Store, b: Seq<u8>, v: Seq<u8>, k: u64) -> bool { m.dom().contains(vk(b, v)) && m[vk(b, v)] == le(k) }
pub open spec fn value_at(m: Store, b: Seq<u8>, k: u64, v: Seq<u8>) -> bool { m.dom().contains(kk(b, k)) && m[kk(b, k)] == v }
/// keys and values of one dictionary are in one-to-one correspondence and every key was issued
pub open spec fn inv(m: Store, b: Seq<u8>) -> bool {
    &&& m.dom().contains(k_seq(b)) ==> m[k_seq(b)].len() == 8
    &&& forall|k: u64| m.dom().contains(#[trigger] kk(b, k)) ==> m.dom().contains(k_seq(b)) && 1 <= k <= un_le(m[k_seq(b)])
    &&& paired(m, b)
}
pub open spec fn paired(m: Store, b: Seq<u8>) -> bool {
    &&& forall|k: u64| m.dom().contains(#[trigger] kk(b, k)) ==> key_at(m, b, m[kk(b, k)], k) && is_text(m[kk(b, k)])
    &&& forall|v: Seq<u8>| m.dom().contains(#[trigger] vk(b, v)) ==> m[vk(b, v)].len() == 8 && value_at(m, b, un_le(m[vk(b, v)]), v)
}
pub open spec fn is_text(b: Seq<u8>) -> bool { exists|s: Seq<char>| b == #[trigger] utf8(s) }
pub open spec fn linked(m: Store, b: Seq<u8>, k: u64, v: Seq<u8>) -> Store { m.insert(kk(b, k), v).insert(vk(b, v), le(k)) }
pub open spec fn learnt(m: Store, b: Seq<u8>, v: Seq<u8>) -> Store { if m.dom().contains(vk(b, v)) { m } else { linked(m.insert(k_seq(b), le(fresh(m, b))), b, fresh(m, b), v) } }
pub open spec fn fresh(m: Store, b: Seq<u8>) -> u64 { counter(m, k_seq(b), 1) as u64 }
// the three families of one dictionary never meet, nor do two dictionaries
pub proof fn lemma_apart(b: Seq<u8>, k: u64, v: Seq<u8>) ensures kk(b, k) != vk(b, v), kk(b, k) != k_seq(b), vk(b, v) != k_seq(b)
{
    reveal_strlit("keys/"); reveal_strlit("values/"); lemma_lits(); let n = b.len() as int;
    assert(kk(b, k)[n] == 107); assert(vk(b, v)[n] == 118); assert(k_seq(b)[n] == 105);
}
pub proof fn lemma_kk(b: Seq<u8>, j: u64, k: u64) requires kk(b, j) == kk(b, k) ensures j == k
{ lemma_cancel(b + asc("keys/"@), dec(j), dec(k)); axiom_dec_inj(j, k); }
pub proof fn lemma_vk(b: Seq<u8>, v: Seq<u8>, w: Seq<u8>) requires vk(b, v) == vk(b, w) ensures v == w
{ lemma_cancel(b + asc("values/"@), v, w); }
pub open spec fn of_dict(b: Seq<u8>, x: Seq<u8>) -> bool { starts(x, b) }
// nothing of one dictionary is a key of another table's, another dictionary's or another project's
pub proof fn lemma_dicts(p: u64, t: Seq<char>, d: Seq<char>, x: Seq<u8>, q: u64, u: Seq<char>, e: Seq<char>, y: Seq<u8>)
    requires slash_free(utf8(t)), slash_free(utf8(d)), slash_free(utf8(u)), slash_free(utf8(e)), base(p, t, d) + x == base(q, u, e) + y ensures p == q, t == u, d == e, x == y
{
    let h = NS() + asc("/"@); lemma_slash(); let s = seq![47u8]; let tb = asc("tables/"@);
    let l = utf8(t) + s + (utf8(d) + s + x); let r = utf8(u) + s + (utf8(e) + s + y);
    assert(base(p, t, d) + x =~= k_project(p, h + path(t, d) + x)); assert(base(q, u, e) + y =~= k_project(q, h + path(u, e) + y));
    lemma_project(p, h + path(t, d) + x, q, h + path(u, e) + y);
    assert(h + path(t, d) + x =~= (h + tb) + l); assert(h + path(u, e) + y =~= (h + tb) + r); lemma_cancel(h + tb, l, r);
    lemma_head(utf8(t), utf8(d) + s + x, utf8(u), utf8(e) + s + y); lemma_head(utf8(d), x, utf8(e), y); axiom_utf8_inj(t, u); axiom_utf8_inj(d, e);
}
pub proof fn lemma_paired(m: Store, b: Seq<u8>, k: u64, v: Seq<u8>)
    requires paired(m, b), is_text(v), !m.dom().contains(kk(b, k)), !m.dom().contains(vk(b, v))
    ensures paired(linked(m, b, k, v), b)
{
    let n = linked(m, b, k, v); lemma_apart(b, k, v);
    assert forall|j: u64| n.dom().contains(#[trigger] kk(b, j)) implies key_at(n, b, n[kk(b, j)], j) && is_text(n[kk(b, j)]) by {
        lemma_apart(b, j, v); if kk(b, j) == kk(b, k) { lemma_kk(b, j, k); } else { assert(m.dom().contains(kk(b, j))); let w = m[kk(b, j)]; assert(key_at(m, b, w, j)); lemma_apart(b, k, w); } }
    assert forall|w: Seq<u8>| n.dom().contains(#[trigger] vk(b, w)) implies n[vk(b, w)].len() == 8 && value_at(n, b, un_le(n[vk(b, w)]), w) by {
        lemma_apart(b, k, w); if vk(b, w) == vk(b, v) { lemma_vk(b, w, v); } else { assert(m.dom().contains(vk(b, w))); let j = un_le(m[vk(b, w)]); assert(value_at(m, b, j, w)); lemma_apart(b, j, v); } }
}
/// asking for the key of a value keeps the dictionary one-to-one, and what was there stays
pub proof fn lemma_learnt(m: Store, b: Seq<u8>, v: Seq<u8>)
    requires inv(m, b), seq_ok(m, k_seq(b)), is_text(v)
    ensures inv(learnt(m, b, v), b), m.dom().contains(vk(b, v)) ==> key_at(learnt(m, b, v), b, v, un_le(m[vk(b, v)])), !m.dom().contains(vk(b, v)) ==> key_at(learnt(m, b, v), b, v, fresh(m, b)),
        forall|k: u64, w: Seq<u8>| #[trigger] value_at(m, b, k, w) ==> value_at(learnt(m, b, v), b, k, w), forall|k: u64, w: Seq<u8>| #[trigger] key_at(m, b, w, k) ==> key_at(learnt(m, b, v), b, w, k)
{
    if !m.dom().contains(vk(b, v)) {
        let k = fresh(m, b); let a = m.insert(k_seq(b), le(k)); let n = learnt(m, b, v); lemma_apart(b, k, v);
        assert forall|j: u64| a.dom().contains(#[trigger] kk(b, j)) implies key_at(a, b, a[kk(b, j)], j) && is_text(a[kk(b, j)]) by { lemma_apart(b, j, v); assert(m.dom().contains(kk(b, j))); lemma_apart(b, j, m[kk(b, j)]); }
        assert forall|w: Seq<u8>| a.dom().contains(#[trigger] vk(b, w)) implies a[vk(b, w)].len() == 8 && value_at(a, b, un_le(a[vk(b, w)]), w) by { lemma_apart(b, k, w); assert(m.dom().contains(vk(b, w))); assert(value_at(m, b, un_le(m[vk(b, w)]), w)); lemma_apart(b, un_le(m[vk(b, w)]), w); }
        assert(paired(a, b)); assert(!m.dom().contains(kk(b, k))); lemma_paired(a, b, k, v);
        assert forall|j: u64| n.dom().contains(#[trigger] kk(b, j)) implies n.dom().contains(k_seq(b)) && 1 <= j <= un_le(n[k_seq(b)]) by { lemma_apart(b, j, v); if kk(b, j) == kk(b, k) { lemma_kk(b, j, k); } else { assert(m.dom().contains(kk(b, j))); } }
        assert forall|j: u64, w: Seq<u8>| #[trigger] value_at(m, b, j, w) implies value_at(n, b, j, w) by { lemma_apart(b, j, v); if kk(b, j) == kk(b, k) { } }
        assert forall|j: u64, w: Seq<u8>| #[trigger] key_at(m, b, w, j) implies key_at(n, b, w, j) by { lemma_apart(b, k, w); }
    } else { assert(le(un_le(m[vk(b, v)])) == m[vk(b, v)]) by { axiom_un_le(m[vk(b, v)]); } }
}
//@fn src/metadata/src/dictionaries.rs dict_ns | ret=r block
//@contract
    ensures r@ == NS() + asc("/"@) + utf8(dict@),
//@start
    proof { reveal_with_fuel(flat, 6); }
//@end
//@fn src/metadata/src/dictionaries.rs tbl_dict | ret=r block
//@contract
    ensures utf8(r@) == path(tbl@, dict@),
//@start
    proof { reveal_with_fuel(flat, 8); }
//@end
//@fn src/metadata/src/dictionaries.rs make_key_key | ret=r block
//@contract
    ensures r@ == kk(under(project_id, utf8(dict@)), key),
//@start
    proof { reveal_with_fuel(flat, 6); }
//@end
//@fn src/metadata/src/dictionaries.rs make_value_key | ret=r block
//@contract
    ensures r@ == vk(under(project_id, utf8(dict@)), utf8(value@)),
//@start
    proof { reveal_with_fuel(flat, 6); }
//@end
//@item src/metadata/src/dictionaries.rs Dictionaries | vis=keep
impl Dictionaries {
//@fn src/metadata/src/dictionaries.rs Dictionaries::_get_key_or_create | ret=r block
//@contract
    requires inv(old(tx)@, base(project_id, table@, dict@)), seq_ok(old(tx)@, k_seq(base(project_id, table@, dict@))),
    ensures r is Ok ==> final(tx)@ == learnt(old(tx)@, base(project_id, table@, dict@), utf8(value@)),
        r is Ok ==> key_at(final(tx)@, base(project_id, table@, dict@), utf8(value@), r->Ok_0),
        r is Ok ==> inv(final(tx)@, base(project_id, table@, dict@)),
        r is Err ==> r->Err_0 is RocksDb,
//@start
    proof { lemma_learnt(tx@, base(project_id, table@, dict@), utf8(value@)); }
//@end
//@fn src/metadata/src/dictionaries.rs Dictionaries::create_key | ret=r mut_self block
//@contract
    ensures r is Ok ==> final(self).db@ == linked(old(self).db@, base(project_id, table@, dict@), key, utf8(value@)),
        r is Ok && paired(old(self).db@, base(project_id, table@, dict@)) && !old(self).db@.dom().contains(kk(base(project_id, table@, dict@), key)) && !old(self).db@.dom().contains(vk(base(project_id, table@, dict@), utf8(value@))) ==> paired(final(self).db@, base(project_id, table@, dict@)),
        r is Err ==> final(self).db@ == old(self).db@ && r->Err_0 is RocksDb,
//@start
    proof { let b = base(project_id, table@, dict@); if paired(self.db@, b) && !self.db@.dom().contains(kk(b, key)) && !self.db@.dom().contains(vk(b, utf8(value@))) { lemma_paired(self.db@, b, key, utf8(value@)); } }
//@end
//@fn src/metadata/src/dictionaries.rs Dictionaries::get_key_or_create | ret=r mut_self block
//@contract
    requires inv(old(self).db@, base(project_id, table@, dict@)), seq_ok(old(self).db@, k_seq(base(project_id, table@, dict@))),
    ensures r is Ok ==> final(self).db@ == learnt(old(self).db@, base(project_id, table@, dict@), utf8(value@)),
        r is Ok ==> key_at(final(self).db@, base(project_id, table@, dict@), utf8(value@), r->Ok_0),
        r is Ok ==> inv(final(self).db@, base(project_id, table@, dict@)),
        r is Err ==> final(self).db@ == old(self).db@ && r->Err_0 is RocksDb,
//@end
//@fn src/metadata/src/dictionaries.rs Dictionaries::get_value | ret=r block
//@contract
    ensures r is Ok ==> value_at(self.db@, base(project_id, table@, dict@), key, utf8(r->Ok_0@)),
        !self.db@.dom().contains(kk(base(project_id, table@, dict@), key)) ==> r is Err,
        r is Err && r->Err_0 is NotFound ==> !self.db@.dom().contains(kk(base(project_id, table@, dict@), key)),
        r is Err ==> r->Err_0 is NotFound || r->Err_0 is RocksDb || r->Err_0 is FromUtf8,
        paired(self.db@, base(project_id, table@, dict@)) && r is Err ==> !(r->Err_0 is FromUtf8),
//@end
//@fn src/metadata/src/dictionaries.rs Dictionaries::get_key | ret=r block
//@contract
    requires paired(self.db@, base(project_id, table@, dict@)),
    ensures r is Ok ==> key_at(self.db@, base(project_id, table@, dict@), utf8(value@), r->Ok_0),
        r is Err && r->Err_0 is NotFound ==> !self.db@.dom().contains(vk(base(project_id, table@, dict@), utf8(value@))),
        r is Err ==> r->Err_0 is NotFound || r->Err_0 is RocksDb,
//@before_last match
    proof { let b = base(project_id, table@, dict@); if self.db@.dom().contains(vk(b, utf8(value@))) { axiom_un_le(self.db@[vk(b, utf8(value@))]); } }
//@end
}
//@item src/metadata/src/dictionaries.rs SingleDictionaryProvider | vis=keep
impl SingleDictionaryProvider {
    pub open spec fn at(&self) -> Seq<u8> { base(self.project_id, self.table@, self.dict@) }
//@fn src/metadata/src/dictionaries.rs SingleDictionaryProvider::new | ret=r block
//@contract
    ensures r.project_id == project_id, r.table == table, r.dict == dict, r.dictionaries == dictionaries,
//@end
//@fn src/metadata/src/dictionaries.rs SingleDictionaryProvider::get_key_or_create | ret=r mut_self block
//@contract
    requires inv(old(self).dictionaries.db@, old(self).at()), seq_ok(old(self).dictionaries.db@, k_seq(old(self).at())),
    ensures r is Ok ==> final(self).dictionaries.db@ == learnt(old(self).dictionaries.db@, old(self).at(), utf8(value@)),
        r is Ok ==> key_at(final(self).dictionaries.db@, old(self).at(), utf8(value@), r->Ok_0),
        r is Err ==> final(self).dictionaries.db@ == old(self).dictionaries.db@,
//@end
//@fn src/metadata/src/dictionaries.rs SingleDictionaryProvider::get_value | ret=r block
//@contract
    ensures r is Ok ==> value_at(self.dictionaries.db@, self.at(), key, utf8(r->Ok_0@)),
        r is Err && r->Err_0 is NotFound ==> !self.dictionaries.db@.dom().contains(kk(self.at(), key)),
//@end
//@fn src/metadata/src/dictionaries.rs SingleDictionaryProvider::get_key | ret=r block
//@contract
    requires paired(self.dictionaries.db@, self.at()),
    ensures r is Ok ==> key_at(self.dictionaries.db@, self.at(), utf8(value@), r->Ok_0),
        r is Err && r->Err_0 is NotFound ==> !self.dictionaries.db@.dom().contains(vk(self.at(), utf8(value@))),
//@end
}
}
}
//@helpers
fn main() {}
