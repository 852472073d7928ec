//@rule b"/data" . as_slice ( ) =>> bs("/data")
//@rule chrono :: DateTime :: from_timestamp ( v . created_at , 0 ) . unwrap ( ) =>> at(v.created_at)
//@rule session :: Session :: decode =>> decode::<session::Session>
//@include base.rs
use vstd::prelude::*;
use std::fmt::Debug;
verus! {
global size_of usize == 8;
//@include metaerr.rs
//@include store.rs
//@include keys.rs
//@include stdspec.rs
//@include index.rs
//@include keylemmas.rs
//@include provider.rs
pub mod sessions { use super::*; broadcast use crate::all;
pub mod session { use super::*;
//@item pb:session.rs Session | vis=keep
}
//@item src/metadata/src/sessions.rs Session | vis=keep std="clone"
//@item src/metadata/src/sessions.rs Sessions | vis=keep
//@static src/metadata/src/sessions.rs NAMESPACE | block
//@contract
    ensures r@ == NS(),
//@end
pub open spec fn NS() -> Seq<u8> { asc("sessions"@) }
pub open spec fn area(p: u64) -> Seq<u8> { k_project(p, NS()) + asc("/data"@) }
pub open spec fn at_key(p: u64, u: u64) -> Seq<u8> { area(p) + dec(u) }
pub open spec fn enc(s: Session) -> Seq<u8> { pb(session::Session { user_id: s.user_id, created_at: s.created_at.t }) }
// a session reads back with its time to the second
pub open spec fn back(s: Session) -> Session { Session { user_id: s.user_id, created_at: Instant { t: s.created_at.t, n: 0 } } }
pub open spec fn is_enc(b: Seq<u8>, s: Session) -> bool { b == enc(s) }
pub open spec fn reads(b: Seq<u8>, r: Session) -> bool { forall|s: Session| #[trigger] is_enc(b, s) ==> r == back(s) }
pub open spec fn kept(m: Store, p: u64, k: Seq<u8>, u: u64) -> bool { k == at_key(p, u) && exists|s: Session| #[trigger] is_enc(m[k], s) && s.user_id == u }
/// every entry of the project's sessions is one user's, under that user's key
pub open spec fn inv(m: Store, p: u64) -> bool { forall|k: Seq<u8>| #[trigger] m.dom().contains(k) && starts(k, area(p)) ==> exists|u: u64| #[trigger] kept(m, p, k, u) }
/// what is left of m once the sessions the decisions name are gone
pub open spec fn gone(m: Store, p: u64, ds: Seq<bool>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < ds.len() && #[trigger] ds[i] && scan(m, area(p))[i].0 == k }
pub open spec fn left(m: Store, n: Store, p: u64, ds: Seq<bool>) -> bool { forall|k: Seq<u8>| (#[trigger] n.dom().contains(k) <==> m.dom().contains(k) && !gone(m, p, ds, k)) && (n.dom().contains(k) ==> n[k] == m[k]) }
pub open spec fn wiped(m: Store, n: Store, p: u64) -> bool { forall|k: Seq<u8>| (#[trigger] n.dom().contains(k) <==> m.dom().contains(k) && !starts(k, area(p))) && (n.dom().contains(k) ==> n[k] == m[k]) }
pub open spec fn all_true(n: nat) -> Seq<bool> { Seq::new(n, |i: int| true) }
pub open spec fn seen(m: Store, p: u64, l: Seq<Session>) -> bool { forall|i: int| 0 <= i < l.len() ==> reads(scan(m, area(p))[i].1, #[trigger] l[i]) }
pub proof fn lemma_key(p: u64, u: u64, q: u64, v: u64) requires at_key(p, u) == at_key(q, v) ensures p == q, u == v
{ let a = NS() + asc("/data"@); assert(at_key(p, u) =~= k_project(p, a + dec(u))); assert(at_key(q, v) =~= k_project(q, a + dec(v))); lemma_project(p, a + dec(u), q, a + dec(v)); lemma_cancel(a, dec(u), dec(v)); axiom_dec_inj(u, v); }
pub proof fn lemma_in(p: u64, u: u64) ensures starts(at_key(p, u), area(p)) { assert(at_key(p, u).take(area(p).len() as int) =~= area(p)); }
// a scan of one project's sessions never meets another's
pub proof fn lemma_scan(p: u64, q: u64, u: u64) requires starts(at_key(q, u), area(p)) ensures p == q
{ let a = NS() + asc("/data"@); assert(at_key(q, u) =~= k_project(q, a + dec(u))); assert(area(p) =~= k_project(p, a)); lemma_project_scan(p, a, q, a + dec(u)); }
pub proof fn lemma_set(m: Store, p: u64, s: Session) requires inv(m, p) ensures inv(m.insert(at_key(p, s.user_id), enc(s)), p)
{
    let n = m.insert(at_key(p, s.user_id), enc(s));
    assert forall|k: Seq<u8>| #[trigger] n.dom().contains(k) && starts(k, area(p)) implies exists|u: u64| #[trigger] kept(n, p, k, u) by {
        if k == at_key(p, s.user_id) { assert(is_enc(n[k], s)); assert(kept(n, p, k, s.user_id)); } else { assert(m.dom().contains(k)); let u = choose|u: u64| #[trigger] kept(m, p, k, u); assert(kept(m, p, k, u)); let w = choose|w: Session| #[trigger] is_enc(m[k], w) && w.user_id == u; assert(is_enc(n[k], w)); assert(kept(n, p, k, u)); } }
}
// the entry a read session came from is the one under its user's key
pub proof fn lemma_entry(m: Store, p: u64, l: Seq<Session>, i: int) requires inv(m, p), seen(m, p, l), 0 <= i < l.len() <= hits(m, area(p)) ensures scan(m, area(p))[i].0 == at_key(p, l[i].user_id)
{
    axiom_scan(m, area(p)); let k = scan(m, area(p))[i].0; assert(m.dom().contains(k)); assert(starts(k, area(p))); let u = choose|u: u64| #[trigger] kept(m, p, k, u); assert(kept(m, p, k, u));
    let s = choose|s: Session| #[trigger] is_enc(m[k], s) && s.user_id == u; assert(is_enc(m[k], s)); assert(reads(scan(m, area(p))[i].1, l[i])); assert(l[i] == back(s));
}
pub proof fn lemma_step(m: Store, n: Store, p: u64, ds: Seq<bool>, d: bool) requires left(m, n, p, ds), ds.len() < hits(m, area(p)) ensures left(m, if d { n.remove(scan(m, area(p))[ds.len() as int].0) } else { n }, p, ds.push(d))
{
    axiom_scan(m, area(p)); let i = ds.len() as int; let x = scan(m, area(p))[i].0; let e = ds.push(d);
    assert forall|k: Seq<u8>| gone(m, p, e, k) <==> gone(m, p, ds, k) || (d && k == x) by {
        if gone(m, p, e, k) { let j = choose|j: int| 0 <= j < e.len() && #[trigger] e[j] && scan(m, area(p))[j].0 == k; if j < i { assert(ds[j]); } }
        if gone(m, p, ds, k) { let j = choose|j: int| 0 <= j < ds.len() && #[trigger] ds[j] && scan(m, area(p))[j].0 == k; assert(e[j]); }
        if d && k == x { assert(e[i]); }
    }
}
pub proof fn lemma_still(m: Store, n: Store, p: u64, ds: Seq<bool>) requires left(m, n, p, ds), ds.len() < hits(m, area(p)) ensures n.dom().contains(scan(m, area(p))[ds.len() as int].0)
{ axiom_scan(m, area(p)); let x = scan(m, area(p))[ds.len() as int].0; assert(m.dom().contains(x)); if gone(m, p, ds, x) { let j = choose|j: int| 0 <= j < ds.len() && #[trigger] ds[j] && scan(m, area(p))[j].0 == x; } }
pub proof fn lemma_wiped(m: Store, n: Store, p: u64) requires left(m, n, p, all_true(hits(m, area(p)))) ensures wiped(m, n, p)
{
    axiom_scan(m, area(p)); let ds = all_true(hits(m, area(p)));
    assert forall|k: Seq<u8>| m.dom().contains(k) implies (gone(m, p, ds, k) <==> starts(k, area(p))) by {
        if gone(m, p, ds, k) { let j = choose|j: int| 0 <= j < ds.len() && #[trigger] ds[j] && scan(m, area(p))[j].0 == k; assert(starts(scan(m, area(p))[j].0, area(p))); }
        if starts(k, area(p)) { let i = choose|i: int| 0 <= i < hits(m, area(p)) && #[trigger] scan(m, area(p))[i].0 == k; assert(ds[i]); }
    }
}
pub proof fn lemma_area(p: u64) ensures asc("projects/"@) + dec(p) + asc("/sessions/data"@) == area(p)
{ reveal_strlit("/sessions/data"); reveal_strlit("sessions"); reveal_strlit("/data"); reveal_strlit("/"); assert(asc("/sessions/data"@) =~= asc("/"@) + asc("sessions"@) + asc("/data"@)); assert(asc("projects/"@) + dec(p) + asc("/sessions/data"@) =~= area(p)); }
//@fn src/metadata/src/sessions.rs make_data_key | ret=r block
//@contract
    ensures r@ == at_key(project_id, user_id),
//@start
    proof { reveal_with_fuel(flat, 6); }
//@end
//@fn src/metadata/src/sessions.rs serialize | ret=r block
//@contract
    ensures r is Ok, r->Ok_0@ == enc(*session),
//@end
//@fn src/metadata/src/sessions.rs deserialize | ret=r block
//@contract
    ensures r is Ok ==> reads(data@, r->Ok_0), (exists|s: Session| #[trigger] is_enc(data@, s)) ==> r is Ok, r is Err ==> r->Err_0 is ProstDecodeError,
//@end
/// one decision for each session there is, in any order the store lists them
pub open spec fn decided<F: Fn(&Session) -> Result<bool>>(m: Store, p: u64, callback: F, l: Seq<Session>, ds: Seq<bool>) -> bool {
    l.len() == hits(m, area(p)) && ds.len() == l.len() && seen(m, p, l) && forall|i: int| 0 <= i < l.len() ==> callback.ensures((&#[trigger] l[i],), Ok::<bool, MetadataError>(ds[i]))
}
impl Sessions {
//@fn src/metadata/src/sessions.rs Sessions::get_by_user_id | ret=r block
//@contract
    requires inv(self.db@, project_id),
    ensures r is Ok ==> self.db@.dom().contains(at_key(project_id, user_id)) && reads(self.db@[at_key(project_id, user_id)], r->Ok_0),
        r is Ok ==> r->Ok_0.user_id == user_id,
        r is Err ==> r->Err_0 is RocksDb || r->Err_0 is NotFound && !self.db@.dom().contains(at_key(project_id, user_id)),
//@start
    proof { lemma_in(project_id, user_id); let k = at_key(project_id, user_id); if self.db@.dom().contains(k) { let u = choose|u: u64| #[trigger] kept(self.db@, project_id, k, u); assert(kept(self.db@, project_id, k, u)); lemma_key(project_id, user_id, project_id, u); let s = choose|s: Session| #[trigger] is_enc(self.db@[k], s) && s.user_id == u; assert(is_enc(self.db@[k], s)); } }
//@end
//@fn src/metadata/src/sessions.rs Sessions::set_current_time | ret=r mut_self block
//@contract
    requires inv(old(self).db@, project_id),
    ensures r is Ok ==> (r->Ok_0 <==> !old(self).db@.dom().contains(at_key(project_id, user_id))),
        r is Ok ==> final(self).db@ == old(self).db@.insert(at_key(project_id, user_id), enc(Session { user_id, created_at: time })),
        r is Ok ==> inv(final(self).db@, project_id),
        r is Err ==> final(self).db@ == old(self).db@ && r->Err_0 is RocksDb,
//@start
    proof { lemma_in(project_id, user_id); lemma_set(self.db@, project_id, Session { user_id, created_at: time }); let k = at_key(project_id, user_id); if self.db@.dom().contains(k) { let u = choose|u: u64| #[trigger] kept(self.db@, project_id, k, u); assert(kept(self.db@, project_id, k, u)); lemma_key(project_id, user_id, project_id, u); let s = choose|s: Session| #[trigger] is_enc(self.db@[k], s) && s.user_id == u; assert(is_enc(self.db@[k], s)); } }
//@end
//@fn src/metadata/src/sessions.rs Sessions::clear_project | ret=r mut_self block
//@contract
    requires inv(old(self).db@, project_id),
    ensures r is Ok ==> wiped(old(self).db@, final(self).db@, project_id),
        r is Err ==> final(self).db@ == old(self).db@ && r->Err_0 is RocksDb,
//@loop 0 iter=it
    invariant scanned(it.seq(), tx@, area(project_id)), tx@ == self.db@, self.db@ == old(self).db@, prefix@ == area(project_id), it.index@ <= it.seq().len(), seen(tx@, project_id, list@),
        !brk_0 ==> list@.len() == it.index@,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]) is Ok,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> starts(#[trigger] scan(tx@, prefix@)[i].0, prefix@),
        brk_0 ==> list@.len() == hits(tx@, prefix@),
//@loopstart 0
    proof { axiom_scan(tx@, prefix@); assert(kv == it.seq()[it.index@ as int]); }
//@before if ! from_utf8
    proof { let i = it.index@ as int; assert(it.seq()[i] is Ok); assert(it.seq()[i]->Ok_0 == (key, value)); assert(key@ == scan(tx@, prefix@)[i].0); assert(i > 0 ==> starts(scan(tx@, prefix@)[i - 1].0, prefix@));
        if starts(key@, prefix@) { assert(self.db@.dom().contains(key@)); let u = choose|u: u64| #[trigger] kept(self.db@, project_id, key@, u); assert(kept(self.db@, project_id, key@, u)); let s = choose|s: Session| #[trigger] is_enc(self.db@[key@], s) && s.user_id == u; assert(is_enc(value@, s)); } }
//@loop 1 iter=it
    invariant self.db@ == old(self).db@, inv(self.db@, project_id), it.seq() == l0, seen(self.db@, project_id, l0), l0.len() == hits(self.db@, area(project_id)), it.index@ <= l0.len(),
        left(self.db@, tx@, project_id, all_true(it.index@ as nat)),
//@loopstart 1
    proof { let i = it.index@ as int; assert(s == l0[i]); lemma_entry(self.db@, project_id, l0, i); lemma_step(self.db@, tx@, project_id, all_true(i as nat), true); assert(all_true(i as nat).push(true) =~= all_true((i + 1) as nat)); }
//@before_last let tx
    proof { axiom_scan(tx@, prefix@); let n = scan(tx@, prefix@).len() as int; assert(!brk_0 && n > 0 ==> starts(scan(tx@, prefix@)[n - 1].0, prefix@)); }
    let ghost l0 = list@;
    proof { assert(all_true(0) =~= seq![]); }
//@before tx . commit
    proof { lemma_wiped(self.db@, tx@, project_id); }
//@end
//@fn src/metadata/src/sessions.rs Sessions::check_for_deletion | ret=r mut_self block
//@start
    proof { lemma_area(project_id); reveal_with_fuel(flat, 6); }
//@contract
    requires inv(old(self).db@, project_id), forall|s: &Session| #[trigger] callback.requires((s,)),
    ensures r is Ok ==> exists|l: Seq<Session>, ds: Seq<bool>| #[trigger] decided(old(self).db@, project_id, callback, l, ds) && left(old(self).db@, final(self).db@, project_id, ds),
        r is Err ==> final(self).db@ == old(self).db@,
//@loop 0 iter=it
    invariant scanned(it.seq(), tx@, area(project_id)), tx@ == self.db@, self.db@ == old(self).db@, utf8(prefix@) == area(project_id), it.index@ <= it.seq().len(), seen(tx@, project_id, list@),
        !brk_0 ==> list@.len() == it.index@,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]) is Ok,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> starts(#[trigger] scan(tx@, area(project_id))[i].0, area(project_id)),
        brk_0 ==> list@.len() == hits(tx@, area(project_id)),
//@loopstart 0
    proof { axiom_scan(tx@, area(project_id)); assert(kv == it.seq()[it.index@ as int]); }
//@before if ! prefix
    proof { let i = it.index@ as int; assert(it.seq()[i] is Ok); assert(it.seq()[i]->Ok_0 == (key, value)); assert(key@ == scan(tx@, area(project_id))[i].0); assert(i > 0 ==> starts(scan(tx@, area(project_id))[i - 1].0, area(project_id)));
        if starts(key@, area(project_id)) { assert(self.db@.dom().contains(key@)); let u = choose|u: u64| #[trigger] kept(self.db@, project_id, key@, u); assert(kept(self.db@, project_id, key@, u)); let s = choose|s: Session| #[trigger] is_enc(self.db@[key@], s) && s.user_id == u; assert(is_enc(value@, s)); } }
//@loop 1 iter=it
    invariant self.db@ == old(self).db@, inv(self.db@, project_id), it.seq() == l0, seen(self.db@, project_id, l0), l0.len() == hits(self.db@, area(project_id)), it.index@ <= l0.len(),
        forall|s: &Session| #[trigger] callback.requires((s,)),
        ds.len() == it.index@, left(self.db@, tx@, project_id, ds), forall|i: int| 0 <= i < it.index@ ==> callback.ensures((&#[trigger] l0[i],), Ok::<bool, MetadataError>(ds[i])),
//@loopstart 1
    let ghost t0 = tx@;
    proof { let i = it.index@ as int; assert(s == l0[i]); lemma_entry(self.db@, project_id, l0, i); lemma_step(self.db@, tx@, project_id, ds, true); lemma_step(self.db@, tx@, project_id, ds, false); lemma_still(self.db@, tx@, project_id, ds); }
//@loopend 1
    proof { ds = ds.push(!tx@.dom().contains(at_key(project_id, s.user_id))); }
//@before_last let tx
    proof { axiom_scan(tx@, area(project_id)); let n = scan(tx@, area(project_id)).len() as int; assert(!brk_0 && n > 0 ==> starts(scan(tx@, area(project_id))[n - 1].0, area(project_id))); }
    let ghost l0 = list@;
    let ghost mut ds = Seq::<bool>::empty();
//@before tx . commit
    proof { assert(decided(self.db@, project_id, callback, l0, ds)); }
//@end
}
}
}
//@helpers
fn main() {}
