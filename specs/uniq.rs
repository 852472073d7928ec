// ---- what a collection keeps true: ids issued once, records in place, index entries exactly those of the records
pub open spec fn is_idx(ns: Seq<u8>, k: Seq<u8>) -> bool { starts(k, ns + asc("/idx/"@)) }
pub trait Ent: Sized {
    spec fn enc(self) -> Seq<u8>;
    spec fn eid(self) -> u64;
    spec fn ekeys(self, ns: Seq<u8>) -> Seq<Option<Seq<u8>>>;
    // what a read of the stored bytes gives back
    spec fn back(self) -> Self;
    proof fn back_ok(a: Self) ensures a.back().enc() == a.enc();
    proof fn enc_ok(a: Self, b: Self, ns: Seq<u8>) requires a.enc() == b.enc() ensures a.eid() == b.eid(), a.ekeys(ns) == b.ekeys(ns);
    proof fn keys_ok(a: Self, ns: Seq<u8>) ensures forall|i: int| 0 <= i < a.ekeys(ns).len() && (#[trigger] a.ekeys(ns)[i]) is Some ==> is_idx(ns, a.ekeys(ns)[i]->0);
}
pub open spec fn has_key<E: Ent>(e: E, ns: Seq<u8>, k: Seq<u8>) -> bool { e.ekeys(ns).contains(Some(k)) }
pub open spec fn rec<E: Ent>(m: Store, ns: Seq<u8>, id: u64, e: E) -> bool { m.dom().contains(k_data(ns, id)) && m[k_data(ns, id)] == e.enc() }
pub open spec fn inv<E: Ent>(m: Store, ns: Seq<u8>) -> bool {
    &&& m.dom().contains(k_seq(ns)) ==> m[k_seq(ns)].len() == 8
    // every record's id was issued
    &&& forall|id: u64| m.dom().contains(#[trigger] k_data(ns, id)) ==> m.dom().contains(k_seq(ns)) && 1 <= id <= un_le(m[k_seq(ns)])
    // nothing else sits among the records
    &&& forall|k: Seq<u8>| #[trigger] m.dom().contains(k) && starts(k, k_all(ns)) ==> exists|id: u64| k == #[trigger] k_data(ns, id)
    // a record sits under its own id and all its index keys lead to it
    &&& forall|id: u64| m.dom().contains(#[trigger] k_data(ns, id)) ==> exists|e: E| #[trigger] rec(m, ns, id, e)
    &&& forall|id: u64, e: E| #[trigger] rec(m, ns, id, e) ==> e.eid() == id
    &&& forall|id: u64, e: E, k: Seq<u8>| #[trigger] rec(m, ns, id, e) && #[trigger] has_key(e, ns, k) ==> m.dom().contains(k) && m[k] == le(id)
    // every index entry leads to a record that has it
    &&& forall|k: Seq<u8>| #[trigger] m.dom().contains(k) && is_idx(ns, k) ==> m[k].len() == 8 && exists|e: E| #[trigger] rec(m, ns, un_le(m[k]), e) && has_key(e, ns, k)
}
pub open spec fn keyed<E: Ent>(e: Option<E>, ns: Seq<u8>, k: Seq<u8>) -> bool { e is Some && has_key(e->0, ns, k) }
/// one record goes from `was` to `is` under `id`, and nothing else changes
pub open spec fn step<E: Ent>(m: Store, n: Store, ns: Seq<u8>, id: u64, was: Option<E>, is: Option<E>) -> bool {
    &&& is is Some ==> rec(n, ns, id, is->0)
    &&& is is None ==> !n.dom().contains(k_data(ns, id))
    &&& was is None ==> n.dom().contains(k_seq(ns)) && n[k_seq(ns)] == le(id)
    &&& forall|k: Seq<u8>| keyed(is, ns, k) ==> #[trigger] n.dom().contains(k) && n[k] == le(id)
    &&& forall|k: Seq<u8>| keyed(was, ns, k) && !keyed(is, ns, k) ==> !#[trigger] n.dom().contains(k)
    &&& forall|k: Seq<u8>| k != k_data(ns, id) && !keyed(is, ns, k) && !keyed(was, ns, k) && !(was is None && k == k_seq(ns)) ==> (#[trigger] n.dom().contains(k) <==> m.dom().contains(k)) && (m.dom().contains(k) ==> n[k] == m[k])
}
pub open spec fn may<E: Ent>(m: Store, ns: Seq<u8>, id: u64, was: Option<E>, is: Option<E>) -> bool {
    &&& was is Some ==> rec(m, ns, id, was->0)
    &&& was is None ==> id == counter(m, k_seq(ns), 1)
    &&& is is Some ==> is->0.eid() == id
    &&& forall|k: Seq<u8>| keyed(is, ns, k) && !keyed(was, ns, k) ==> !#[trigger] m.dom().contains(k)
}
pub proof fn lemma_idx(ns: Seq<u8>, k: Seq<u8>) requires is_idx(ns, k) ensures k != k_seq(ns), forall|id: u64| k != #[trigger] k_data(ns, id)
{
    lemma_lits(); let n = ns.len() as int; let p = ns + asc("/idx/"@);
    assert(k.take(p.len() as int)[n] == p[n]); assert(k[n] == 47); assert(k.take(p.len() as int)[n + 1] == p[n + 1]); assert(k[n + 1] == 105);
    assert forall|id: u64| k != #[trigger] k_data(ns, id) by { assert(k_data(ns, id)[n + 1] == 100); }
    assert(k_seq(ns)[n] == 105);
}
pub proof fn lemma_not_all(ns: Seq<u8>, k: Seq<u8>) requires starts(k, k_all(ns)) ensures k != k_seq(ns), !is_idx(ns, k)
{
    lemma_lits(); let n = ns.len() as int; let p = k_all(ns);
    assert(k.take(p.len() as int)[n] == p[n]); assert(k[n] == 47); assert(k.take(p.len() as int)[n + 1] == p[n + 1]); assert(k[n + 1] == 100); assert(k_seq(ns)[n] == 105);
    if is_idx(ns, k) { let q = ns + asc("/idx/"@); assert(k.take(q.len() as int)[n + 1] == q[n + 1]); assert(q[n + 1] == 105); }
}
pub proof fn lemma_all(ns: Seq<u8>, id: u64) ensures starts(k_data(ns, id), k_all(ns)) { lemma_lits(); assert(k_data(ns, id).take(k_all(ns).len() as int) =~= k_all(ns)); }
/// what a reader may be given for stored bytes, for an id, for a whole collection
pub open spec fn is_read<E: Ent>(b: Seq<u8>, r: E) -> bool { forall|x: E| b == #[trigger] x.enc() ==> r == x.back() }
pub open spec fn holds<E: Ent>(m: Store, ns: Seq<u8>, id: u64, r: E) -> bool { m.dom().contains(k_data(ns, id)) && is_read(m[k_data(ns, id)], r) }
pub open spec fn listed<E: Ent>(m: Store, ns: Seq<u8>, d: Seq<E>) -> bool { exists|ids: Seq<u64>| #[trigger] listing(m, ns, d, ids) }
pub open spec fn listing<E: Ent>(m: Store, ns: Seq<u8>, d: Seq<E>, ids: Seq<u64>) -> bool {
    ids.len() == d.len() && ids.no_duplicates() && (forall|i: int| 0 <= i < ids.len() ==> holds(m, ns, #[trigger] ids[i], d[i])) && forall|id: u64| m.dom().contains(#[trigger] k_data(ns, id)) ==> ids.contains(id)
}
pub proof fn lemma_listed<E: Ent>(m: Store, ns: Seq<u8>, d: Seq<E>)
    requires inv::<E>(m, ns), d.len() == hits(m, k_all(ns)), forall|i: int| 0 <= i < d.len() ==> is_read(scan(m, k_all(ns))[i].1, #[trigger] d[i])
    ensures listed(m, ns, d)
{
    let p = k_all(ns); let s = scan(m, p); axiom_scan(m, p);
    assert forall|i: int| #![trigger s[i]] 0 <= i < d.len() implies exists|id: u64| s[i].0 == #[trigger] k_data(ns, id) by { assert(starts(s[i].0, p)); assert(m.dom().contains(s[i].0)); }
    let ids = Seq::new(d.len(), |i: int| choose|id: u64| s[i].0 == #[trigger] k_data(ns, id));
    assert forall|i: int| 0 <= i < ids.len() implies s[i].0 == k_data(ns, #[trigger] ids[i]) by { let t = s[i]; assert(t.0 == s[i].0); assert(exists|id: u64| s[i].0 == #[trigger] k_data(ns, id)); }
    assert forall|i: int| 0 <= i < ids.len() implies holds(m, ns, #[trigger] ids[i], d[i]) by { assert(m.dom().contains(s[i].0)); assert(is_read(s[i].1, d[i])); }
    assert forall|id: u64| m.dom().contains(#[trigger] k_data(ns, id)) implies ids.contains(id) by { lemma_all(ns, id); let i = choose|i: int| 0 <= i < hits(m, p) && #[trigger] s[i].0 == k_data(ns, id); lemma_data_key(ns, ids[i], id); assert(ids[i] == id); }
    assert(ids.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < j < ids.len() implies ids[i] != ids[j] by { assert(s[i].0 != s[j].0); } }
    assert(listing(m, ns, d, ids));
}
pub open spec fn same_at(m: Store, n: Store, k: Seq<u8>) -> bool { (n.dom().contains(k) <==> m.dom().contains(k)) && (m.dom().contains(k) ==> n[k] == m[k]) }
/// a step in one project's collection leaves every key of every other project alone
pub proof fn lemma_isolated<E: Ent>(m: Store, n: Store, p: u64, kind: Seq<u8>, id: u64, was: Option<E>, is: Option<E>)
    requires step(m, n, k_project(p, kind), id, was, is)
    ensures forall|q: u64, rest: Seq<u8>| q != p ==> same_at(m, n, #[trigger] k_project(q, rest))
{
    let ns = k_project(p, kind); lemma_lits();
    assert forall|q: u64, rest: Seq<u8>| q != p implies same_at(m, n, #[trigger] k_project(q, rest)) by {
        let k = k_project(q, rest);
        if k == k_data(ns, id) { assert(k_data(ns, id) =~= k_project(p, kind + asc("/data/"@) + dec(id))); lemma_project(q, rest, p, kind + asc("/data/"@) + dec(id)); }
        if k == k_seq(ns) { assert(k_seq(ns) =~= k_project(p, kind + asc("id_seq"@))); lemma_project(q, rest, p, kind + asc("id_seq"@)); }
        if is_idx(ns, k) { assert(k =~= k_project(p, kind + asc("/idx/"@) + k.skip(ns.len() as int + 5))) by { let h = ns + asc("/idx/"@); assert(k.take(h.len() as int) =~= h); assert(k =~= h + k.skip(h.len() as int)); assert(h + k.skip(h.len() as int) =~= k_project(p, kind + asc("/idx/"@) + k.skip(ns.len() as int + 5))); } lemma_project(q, rest, p, kind + asc("/idx/"@) + k.skip(ns.len() as int + 5)); }
        if keyed(is, ns, k) { lemma_keys(is->0, ns, k); }
        if keyed(was, ns, k) { lemma_keys(was->0, ns, k); }
    }
}
pub proof fn lemma_isolated_org<E: Ent>(m: Store, n: Store, p: u64, kind: Seq<u8>, id: u64, was: Option<E>, is: Option<E>)
    requires step(m, n, k_org(p, kind), id, was, is)
    ensures forall|q: u64, rest: Seq<u8>| q != p ==> same_at(m, n, #[trigger] k_org(q, rest))
{
    let ns = k_org(p, kind); lemma_lits();
    assert forall|q: u64, rest: Seq<u8>| q != p implies same_at(m, n, #[trigger] k_org(q, rest)) by {
        let k = k_org(q, rest);
        if k == k_data(ns, id) { assert(k_data(ns, id) =~= k_org(p, kind + asc("/data/"@) + dec(id))); lemma_org(q, rest, p, kind + asc("/data/"@) + dec(id)); }
        if k == k_seq(ns) { assert(k_seq(ns) =~= k_org(p, kind + asc("id_seq"@))); lemma_org(q, rest, p, kind + asc("id_seq"@)); }
        if is_idx(ns, k) { assert(k =~= k_org(p, kind + asc("/idx/"@) + k.skip(ns.len() as int + 5))) by { let h = ns + asc("/idx/"@); assert(k.take(h.len() as int) =~= h); assert(k =~= h + k.skip(h.len() as int)); assert(h + k.skip(h.len() as int) =~= k_org(p, kind + asc("/idx/"@) + k.skip(ns.len() as int + 5))); } lemma_org(q, rest, p, kind + asc("/idx/"@) + k.skip(ns.len() as int + 5)); }
        if keyed(is, ns, k) { lemma_keys(is->0, ns, k); }
        if keyed(was, ns, k) { lemma_keys(was->0, ns, k); }
    }
}
pub proof fn lemma_seq_data(ns: Seq<u8>, id: u64) ensures k_seq(ns) != k_data(ns, id) { lemma_lits(); let n = ns.len() as int; assert(k_seq(ns)[n] == 105); assert(k_data(ns, id)[n] == 47); }
pub proof fn lemma_keys<E: Ent>(e: E, ns: Seq<u8>, k: Seq<u8>) requires has_key(e, ns, k) ensures is_idx(ns, k), k != k_seq(ns), forall|id: u64| k != #[trigger] k_data(ns, id)
{ E::keys_ok(e, ns); let i = choose|i: int| 0 <= i < e.ekeys(ns).len() && e.ekeys(ns)[i] == Some(k); assert(e.ekeys(ns)[i] is Some); lemma_idx(ns, k); }
pub proof fn lemma_step<E: Ent>(m: Store, n: Store, ns: Seq<u8>, id: u64, was: Option<E>, is: Option<E>)
    requires inv::<E>(m, ns), step(m, n, ns, id, was, is), may(m, ns, id, was, is), was is None ==> !(m.dom().contains(k_seq(ns)) && un_le(m[k_seq(ns)]) == u64::MAX), was is Some || is is Some
    ensures inv::<E>(n, ns), was is None ==> !m.dom().contains(k_data(ns, id))
{
    axiom_le(id); lemma_seq_data(ns, id);
    assert forall|k: Seq<u8>| #[trigger] keyed(is, ns, k) implies is_idx(ns, k) && k != k_seq(ns) && forall|i: u64| k != #[trigger] k_data(ns, i) by { lemma_keys(is->0, ns, k); }
    assert forall|k: Seq<u8>| #[trigger] keyed(was, ns, k) implies is_idx(ns, k) && k != k_seq(ns) && forall|i: u64| k != #[trigger] k_data(ns, i) by { lemma_keys(was->0, ns, k); }
    if was is Some { assert(n.dom().contains(k_seq(ns)) <==> m.dom().contains(k_seq(ns))); }
    if was is None { if m.dom().contains(k_data(ns, id)) { assert(false); } }
    assert forall|i: u64| n.dom().contains(#[trigger] k_data(ns, i)) implies n.dom().contains(k_seq(ns)) && 1 <= i <= un_le(n[k_seq(ns)]) && (i != id ==> m.dom().contains(k_data(ns, i)) && n[k_data(ns, i)] == m[k_data(ns, i)]) by {
        if i != id { if k_data(ns, i) == k_data(ns, id) { lemma_data_key(ns, i, id); } lemma_seq_data(ns, i); assert(m.dom().contains(k_data(ns, i))); }
        else if was is Some { assert(m.dom().contains(k_data(ns, id))); }
    }
    assert forall|k: Seq<u8>| #[trigger] n.dom().contains(k) && starts(k, k_all(ns)) implies exists|i: u64| k == #[trigger] k_data(ns, i) by {
        lemma_not_all(ns, k);
        if k != k_data(ns, id) && !keyed(is, ns, k) && !keyed(was, ns, k) { assert(m.dom().contains(k)); }
    }
    assert forall|i: u64| n.dom().contains(#[trigger] k_data(ns, i)) implies exists|e: E| #[trigger] rec(n, ns, i, e) by {
        if i == id { assert(rec(n, ns, i, is->0)); } else { let e = choose|e: E| #[trigger] rec(m, ns, i, e); assert(rec(n, ns, i, e)); }
    }
    assert forall|i: u64, e: E| #[trigger] rec(n, ns, i, e) implies e.eid() == i && (i != id ==> rec(m, ns, i, e)) by {
        assert(n.dom().contains(k_data(ns, i)));
        if i == id { E::enc_ok(e, is->0, ns); } else { assert(rec(m, ns, i, e)); }
    }
    assert forall|i: u64, e: E, k: Seq<u8>| #[trigger] rec(n, ns, i, e) && #[trigger] has_key(e, ns, k) implies n.dom().contains(k) && n[k] == le(i) by {
        lemma_keys(e, ns, k);
        if i == id { assert(n.dom().contains(k_data(ns, i))); assert(is is Some); E::enc_ok(e, is->0, ns); assert(keyed(is, ns, k)); assert(n.dom().contains(k)); assert(n[k] == le(i)); }
        else {
            assert(rec(m, ns, i, e)); assert(m.dom().contains(k) && m[k] == le(i));
            if keyed(was, ns, k) { assert(rec(m, ns, id, was->0)); assert(m[k] == le(id)); axiom_le(i); assert(false); }
            if keyed(is, ns, k) { assert(false); }
            assert(k != k_data(ns, id)); assert(k != k_seq(ns)); assert(n.dom().contains(k)); assert(n[k] == m[k]);
        }
    }
    assert forall|k: Seq<u8>| #[trigger] n.dom().contains(k) && is_idx(ns, k) implies n[k].len() == 8 && exists|e: E| #[trigger] rec(n, ns, un_le(n[k]), e) && has_key(e, ns, k) by {
        lemma_idx(ns, k);
        if keyed(is, ns, k) { assert(rec(n, ns, id, is->0)); }
        else {
            assert(m.dom().contains(k)); let i = un_le(m[k]); let e = choose|e: E| #[trigger] rec(m, ns, i, e) && has_key(e, ns, k);
            assert(rec(m, ns, i, e));
            if i == id { if was is Some { E::enc_ok(e, was->0, ns); assert(keyed(was, ns, k)); } assert(false); }
            if k_data(ns, i) == k_data(ns, id) { lemma_data_key(ns, i, id); }
            lemma_seq_data(ns, i);
            assert(n.dom().contains(k_data(ns, i)));
            assert(rec(n, ns, i, e));
        }
    }
}
pub proof fn lemma_somes(s: Seq<Option<Seq<u8>>>) ensures forall|k: Seq<u8>| #[trigger] somes(s).contains(k) <==> s.contains(Some(k)) decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last(); lemma_somes(d);
        let r = somes(d); let q = somes(s);
        assert forall|k: Seq<u8>| #[trigger] q.contains(k) <==> s.contains(Some(k)) by {
            assert(r.contains(k) <==> d.contains(Some(k)));
            assert(s.contains(Some(k)) <==> d.contains(Some(k)) || s.last() == Some(k)) by {
                if d.contains(Some(k)) { let i = choose|i: int| 0 <= i < d.len() && d[i] == Some(k); assert(s[i] == Some(k)); }
                if s.last() == Some(k) { assert(s[s.len() - 1] == Some(k)); }
                if s.contains(Some(k)) { let i = choose|i: int| 0 <= i < s.len() && s[i] == Some(k); if i < d.len() { assert(d[i] == Some(k)); } }
            }
            if s.last() is Some { assert(q == r.push(s.last()->0)); assert(q.drop_last() =~= r); lemma_push(q); } else { assert(q == r); }
        }
    }
}
pub open spec fn put_at(m: Store, s: Seq<Seq<u8>>, v: Seq<u8>, k: Seq<u8>) -> bool { let n = put_all(m, s, v); (n.dom().contains(k) <==> s.contains(k) || m.dom().contains(k)) && (s.contains(k) ==> n[k] == v) && (!s.contains(k) ==> n[k] == m[k]) }
pub proof fn lemma_put_one(m: Store, s: Seq<Seq<u8>>, v: Seq<u8>, k: Seq<u8>) ensures put_at(m, s, v, k) decreases s.len()
{ if s.len() > 0 { let d = s.drop_last(); let b = put_all(m, d, v); lemma_put_one(m, d, v, k); lemma_push(s); let n = put_all(m, s, v); assert(n == b.insert(s.last(), v)); assert(s.contains(k) <==> d.contains(k) || k == s.last());
    if k == s.last() { assert(n[k] == v); } else { assert(n.dom().contains(k) <==> b.dom().contains(k)); assert(n[k] == b[k]); } } }
pub proof fn lemma_put_all(m: Store, s: Seq<Seq<u8>>, v: Seq<u8>) ensures forall|k: Seq<u8>| (#[trigger] put_all(m, s, v).dom().contains(k) <==> s.contains(k) || m.dom().contains(k)) && (s.contains(k) ==> put_all(m, s, v)[k] == v) && (!s.contains(k) ==> put_all(m, s, v)[k] == m[k])
{ assert forall|k: Seq<u8>| (#[trigger] put_all(m, s, v).dom().contains(k) <==> s.contains(k) || m.dom().contains(k)) && (s.contains(k) ==> put_all(m, s, v)[k] == v) && (!s.contains(k) ==> put_all(m, s, v)[k] == m[k]) by { lemma_put_one(m, s, v, k); } }
pub proof fn lemma_push(s: Seq<Seq<u8>>) requires s.len() > 0 ensures forall|k: Seq<u8>| #[trigger] s.contains(k) <==> s.drop_last().contains(k) || k == s.last()
{ let d = s.drop_last(); assert forall|k: Seq<u8>| #[trigger] s.contains(k) <==> d.contains(k) || k == s.last() by {
    if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; if i < d.len() { assert(d[i] == k); } }
    if d.contains(k) { let i = choose|i: int| 0 <= i < d.len() && d[i] == k; assert(s[i] == k); } if k == s.last() { assert(s[s.len() - 1] == k); } } }
pub proof fn lemma_del_all(m: Store, s: Seq<Seq<u8>>) ensures forall|k: Seq<u8>| (#[trigger] del_all(m, s).dom().contains(k) <==> !s.contains(k) && m.dom().contains(k)) && (!s.contains(k) && m.dom().contains(k) ==> del_all(m, s)[k] == m[k]) decreases s.len()
{ if s.len() > 0 { let d = s.drop_last(); let b = del_all(m, d); lemma_del_all(m, d); lemma_push(s); assert(del_all(m, s) == b.remove(s.last()));
    assert forall|k: Seq<u8>| (#[trigger] del_all(m, s).dom().contains(k) <==> !s.contains(k) && m.dom().contains(k)) && (!s.contains(k) && m.dom().contains(k) ==> del_all(m, s)[k] == m[k]) by { assert(b.dom().contains(k) || !b.dom().contains(k)); assert(d.contains(k) || !d.contains(k)); } } }
pub open spec fn created<E: Ent>(m: Store, ns: Seq<u8>, id: u64, e: E) -> Store { put_all(m.insert(k_seq(ns), le(id)).insert(k_data(ns, id), e.enc()), somes(e.ekeys(ns)), le(id)) }
pub open spec fn deleted<E: Ent>(m: Store, ns: Seq<u8>, id: u64, e: E) -> Store { del_all(m.remove(k_data(ns, id)), somes(e.ekeys(ns))) }
pub proof fn lemma_created<E: Ent>(m: Store, ns: Seq<u8>, id: u64, e: E)
    requires inv::<E>(m, ns), id == counter(m, k_seq(ns), 1), e.eid() == id, !(m.dom().contains(k_seq(ns)) && un_le(m[k_seq(ns)]) == u64::MAX), forall|i: int| 0 <= i < somes(e.ekeys(ns)).len() ==> !m.dom().contains(#[trigger] somes(e.ekeys(ns))[i])
    ensures step(m, created(m, ns, id, e), ns, id, None, Some(e)), may(m, ns, id, None, Some(e)), inv::<E>(created(m, ns, id, e), ns), !m.dom().contains(k_data(ns, id))
{
    let s = somes(e.ekeys(ns)); let n = created(m, ns, id, e); lemma_somes(e.ekeys(ns)); lemma_put_all(m.insert(k_seq(ns), le(id)).insert(k_data(ns, id), e.enc()), s, le(id)); lemma_seq_data(ns, id);
    assert forall|k: Seq<u8>| #[trigger] s.contains(k) implies has_key(e, ns, k) && !m.dom().contains(k) && k != k_seq(ns) && k != k_data(ns, id) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(!m.dom().contains(s[i])); assert(has_key(e, ns, k)); lemma_keys(e, ns, k); }
    assert forall|k: Seq<u8>| keyed(Some(e), ns, k) <==> #[trigger] s.contains(k) by {}
    assert(n.dom().contains(k_data(ns, id))); assert(n.dom().contains(k_seq(ns)));
    assert(step(m, n, ns, id, None::<E>, Some(e)));
    assert forall|k: Seq<u8>| keyed(Some(e), ns, k) implies !#[trigger] m.dom().contains(k) by { assert(s.contains(k)); }
    lemma_step(m, n, ns, id, None::<E>, Some(e));
}
pub proof fn lemma_deleted<E: Ent>(m: Store, ns: Seq<u8>, id: u64, e: E)
    requires inv::<E>(m, ns), rec(m, ns, id, e)
    ensures step(m, deleted(m, ns, id, e), ns, id, Some(e), None), inv::<E>(deleted(m, ns, id, e), ns)
{
    let s = somes(e.ekeys(ns)); let n = deleted(m, ns, id, e); lemma_somes(e.ekeys(ns)); lemma_del_all(m.remove(k_data(ns, id)), s); lemma_seq_data(ns, id);
    assert forall|k: Seq<u8>| #[trigger] s.contains(k) implies has_key(e, ns, k) && k != k_seq(ns) && k != k_data(ns, id) by { assert(has_key(e, ns, k)); lemma_keys(e, ns, k); }
    assert forall|k: Seq<u8>| keyed(Some(e), ns, k) <==> #[trigger] s.contains(k) by {}
    assert(step(m, n, ns, id, Some(e), None::<E>));
    lemma_step(m, n, ns, id, Some(e), None::<E>);
}
pub open spec fn apart(a: Seq<Option<Seq<u8>>>, p: Seq<Option<Seq<u8>>>, n: nat) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j && (#[trigger] a[i]) is Some ==> a[i] != #[trigger] p[j] }
pub open spec fn among(a: Seq<Option<Seq<u8>>>, n: nat, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < n && #[trigger] a[i] == Some(k) }
pub proof fn lemma_move_all(m: Store, a: Seq<Option<Seq<u8>>>, p: Seq<Option<Seq<u8>>>, n: nat, v: Seq<u8>) requires apart(a, p, n)
    ensures forall|k: Seq<u8>| #![trigger move_all(m, a, p, n, v).dom().contains(k)] #![trigger among(a, n, k)] #![trigger among(p, n, k)] (among(a, n, k) ==> move_all(m, a, p, n, v).dom().contains(k) && move_all(m, a, p, n, v)[k] == v)
        && (!among(a, n, k) && among(p, n, k) ==> !move_all(m, a, p, n, v).dom().contains(k))
        && (!among(a, n, k) && !among(p, n, k) ==> (move_all(m, a, p, n, v).dom().contains(k) <==> m.dom().contains(k)) && move_all(m, a, p, n, v)[k] == m[k])
    decreases n
{
    if n > 0 {
        let c = (n - 1) as nat; lemma_move_all(m, a, p, c, v); let b = move_all(m, a, p, c, v);
        assert forall|k: Seq<u8>| #![trigger move_all(m, a, p, n, v).dom().contains(k)] #![trigger among(a, n, k)] #![trigger among(p, n, k)] (among(a, n, k) ==> move_all(m, a, p, n, v).dom().contains(k) && move_all(m, a, p, n, v)[k] == v)
        && (!among(a, n, k) && among(p, n, k) ==> !move_all(m, a, p, n, v).dom().contains(k))
        && (!among(a, n, k) && !among(p, n, k) ==> (move_all(m, a, p, n, v).dom().contains(k) <==> m.dom().contains(k)) && move_all(m, a, p, n, v)[k] == m[k]) by {
            assert(among(a, n, k) <==> among(a, c, k) || a[n - 1] == Some(k)) by { if among(a, c, k) { let i = choose|i: int| 0 <= i < c && #[trigger] a[i] == Some(k); assert(a[i] == Some(k)); } }
            assert(among(p, n, k) <==> among(p, c, k) || p[n - 1] == Some(k)) by { if among(p, c, k) { let i = choose|i: int| 0 <= i < c && #[trigger] p[i] == Some(k); assert(p[i] == Some(k)); } }
            if among(a, c, k) { let i = choose|i: int| 0 <= i < c && #[trigger] a[i] == Some(k); assert(a[i] != p[n - 1]); }
            assert(b.dom().contains(k) || !b.dom().contains(k));
        }
    }
}
pub open spec fn updated<E: Ent>(m: Store, ns: Seq<u8>, id: u64, e: E, a: Seq<Option<Seq<u8>>>, p: Seq<Option<Seq<u8>>>) -> Store { move_all(m.insert(k_data(ns, id), e.enc()), a, p, min(a.len(), p.len()), le(id)) }
pub proof fn lemma_updated<E: Ent>(m: Store, ns: Seq<u8>, id: u64, w: E, e: E, a: Seq<Option<Seq<u8>>>, p: Seq<Option<Seq<u8>>>)
    requires inv::<E>(m, ns), rec(m, ns, id, w), e.eid() == id, a.len() == p.len(), apart(a, p, a.len()),
        forall|i: int| 0 <= i < min(a.len(), p.len()) ==> !taken(m, #[trigger] a[i], p[i]),
        forall|k: Seq<u8>| #[trigger] among(a, a.len(), k) ==> has_key(e, ns, k),
        forall|k: Seq<u8>| #[trigger] among(p, p.len(), k) ==> has_key(w, ns, k),
        forall|k: Seq<u8>| #[trigger] has_key(e, ns, k) && !among(a, a.len(), k) ==> has_key(w, ns, k) && !among(p, p.len(), k),
        forall|k: Seq<u8>| #[trigger] has_key(w, ns, k) && !has_key(e, ns, k) ==> among(p, p.len(), k)
    ensures step(m, updated(m, ns, id, e, a, p), ns, id, Some(w), Some(e)), may(m, ns, id, Some(w), Some(e)), inv::<E>(updated(m, ns, id, e, a, p), ns)
{
    let c = a.len(); let n = updated(m, ns, id, e, a, p); let b = m.insert(k_data(ns, id), e.enc()); lemma_move_all(b, a, p, c, le(id));
    assert forall|k: Seq<u8>| #[trigger] has_key(e, ns, k) implies k != k_data(ns, id) by { lemma_keys(e, ns, k); }
    assert forall|k: Seq<u8>| #[trigger] has_key(w, ns, k) implies k != k_data(ns, id) && m.dom().contains(k) && m[k] == le(id) by { lemma_keys(w, ns, k); }
    assert(rec(n, ns, id, e)) by { let k = k_data(ns, id); if among(a, c, k) { assert(has_key(e, ns, k)); } if among(p, c, k) { assert(has_key(w, ns, k)); } }
    assert forall|k: Seq<u8>| keyed(Some(e), ns, k) implies #[trigger] n.dom().contains(k) && n[k] == le(id) by { assert(has_key(e, ns, k)); }
    assert forall|k: Seq<u8>| keyed(Some(w), ns, k) && !keyed(Some(e), ns, k) implies !#[trigger] n.dom().contains(k) by { assert(has_key(w, ns, k)); if among(a, c, k) { assert(has_key(e, ns, k)); } }
    assert forall|k: Seq<u8>| k != k_data(ns, id) && !keyed(Some(e), ns, k) && !keyed(Some(w), ns, k) implies (#[trigger] n.dom().contains(k) <==> m.dom().contains(k)) && (m.dom().contains(k) ==> n[k] == m[k]) by { if among(a, c, k) { assert(has_key(e, ns, k)); } if among(p, c, k) { assert(has_key(w, ns, k)); } }
    assert(step(m, n, ns, id, Some(w), Some(e)));
    assert forall|k: Seq<u8>| keyed(Some(e), ns, k) && !keyed(Some(w), ns, k) implies !#[trigger] m.dom().contains(k) by {
        assert(has_key(e, ns, k)); assert(among(a, c, k)); let i = choose|i: int| 0 <= i < c && #[trigger] a[i] == Some(k); if p[i] == Some(k) { assert(among(p, c, k)); } assert(!taken(m, a[i], p[i]));
    }
    lemma_step(m, n, ns, id, Some(w), Some(e));
}
pub proof fn lemma_some_at(s: Seq<Option<Seq<u8>>>) ensures forall|i: int| 0 <= i < somes(s).len() ==> exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == Some(#[trigger] somes(s)[i])
{ lemma_somes(s); assert forall|i: int| 0 <= i < somes(s).len() implies exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == Some(#[trigger] somes(s)[i]) by { assert(somes(s).contains(somes(s)[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == Some(somes(s)[i]); assert(s[j] == Some(somes(s)[i])); } }
pub proof fn lemma_keyseq<E: Ent>(e: E, ns: Seq<u8>, a: Seq<Option<Seq<u8>>>) requires a =~= e.ekeys(ns) ensures a == e.ekeys(ns), e.ekeys(ns).len() == 0 ==> somes(e.ekeys(ns)).len() == 0 { }
// what a list of changed keys and their previous values must satisfy; `t` says which index keys take part
pub open spec fn changes(x: Seq<Option<Seq<u8>>>, y: Seq<Option<Seq<u8>>>, a: Seq<Option<Seq<u8>>>, p: Seq<Option<Seq<u8>>>, t: Seq<int>) -> bool {
    &&& x.len() == y.len() && a.len() == p.len() && t.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] t[i] < x.len() && a[i] == x[t[i]] && p[i] == y[t[i]]
    &&& forall|i: int| 0 <= i < x.len() && !t.contains(i) ==> #[trigger] x[i] == y[i]
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> #[trigger] t[i] != #[trigger] t[j]
}
pub open spec fn distinct(x: Seq<Option<Seq<u8>>>, y: Seq<Option<Seq<u8>>>) -> bool { forall|i: int, j: int| 0 <= i < x.len() && 0 <= j < y.len() && i != j && (#[trigger] x[i]) is Some ==> x[i] != #[trigger] y[j] }
pub proof fn lemma_among<E: Ent>(w: E, e: E, ns: Seq<u8>, a: Seq<Option<Seq<u8>>>, p: Seq<Option<Seq<u8>>>, t: Seq<int>)
    requires changes(e.ekeys(ns), w.ekeys(ns), a, p, t), distinct(e.ekeys(ns), w.ekeys(ns)), distinct(w.ekeys(ns), w.ekeys(ns)), distinct(e.ekeys(ns), e.ekeys(ns))
    ensures a.len() == p.len(), apart(a, p, a.len()),
        forall|k: Seq<u8>| #[trigger] among(a, a.len(), k) ==> has_key(e, ns, k),
        forall|k: Seq<u8>| #[trigger] among(p, p.len(), k) ==> has_key(w, ns, k),
        forall|k: Seq<u8>| #[trigger] has_key(e, ns, k) && !among(a, a.len(), k) ==> has_key(w, ns, k) && !among(p, p.len(), k),
        forall|k: Seq<u8>| #[trigger] has_key(w, ns, k) && !has_key(e, ns, k) ==> among(p, p.len(), k)
{
    let x = e.ekeys(ns); let y = w.ekeys(ns);
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j && (#[trigger] a[i]) is Some implies a[i] != #[trigger] p[j] by { assert(t[i] != t[j]) by { if i < j { assert(t[i] != t[j]); } else { assert(t[j] != t[i]); } } assert(x[t[i]] is Some); assert(x[t[i]] != y[t[j]]); }
    assert forall|k: Seq<u8>| #[trigger] among(a, a.len(), k) implies has_key(e, ns, k) by { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == Some(k); assert(x[t[i]] == Some(k)); }
    assert forall|k: Seq<u8>| #[trigger] among(p, p.len(), k) implies has_key(w, ns, k) by { let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == Some(k); assert(t[i] < x.len()); assert(y[t[i]] == Some(k)); }
    assert forall|k: Seq<u8>| #[trigger] has_key(e, ns, k) && !among(a, a.len(), k) implies has_key(w, ns, k) && !among(p, p.len(), k) by {
        let i = choose|i: int| 0 <= i < x.len() && x[i] == Some(k);
        if t.contains(i) { let j = choose|j: int| 0 <= j < t.len() && t[j] == i; assert(a[j] == Some(k)); }
        assert(x[i] == y[i]); assert(y[i] == Some(k));
        if among(p, p.len(), k) { let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == Some(k); assert(t[j] < x.len()); assert(t[j] != i) by { assert(t[j] == t[j]); } assert(x[i] is Some); assert(x[i] != y[t[j]]); }
    }
    assert forall|k: Seq<u8>| #[trigger] has_key(w, ns, k) && !has_key(e, ns, k) implies among(p, p.len(), k) by {
        let i = choose|i: int| 0 <= i < y.len() && y[i] == Some(k);
        if t.contains(i) { let j = choose|j: int| 0 <= j < t.len() && t[j] == i; assert(p[j] == Some(k)); } else { assert(x[i] == y[i]); assert(x[i] == Some(k)); }
    }
}
pub proof fn lemma_is_idx(ns: Seq<u8>, name: Seq<u8>, key: Seq<u8>) ensures is_idx(ns, k_index(ns, name, key)) { assert(k_index(ns, name, key).take((ns + asc("/idx/"@)).len() as int) =~= ns + asc("/idx/"@)); }
// ---- two collections side by side
pub proof fn lemma_outside<E: Ent>(m: Store, n: Store, ns: Seq<u8>, id: u64, was: Option<E>, is: Option<E>) requires step(m, n, ns, id, was, is) ensures forall|k: Seq<u8>| !starts(k, ns) ==> #[trigger] same_at(m, n, k)
{
    assert forall|k: Seq<u8>| !starts(k, ns) implies #[trigger] same_at(m, n, k) by {
        lemma_under(ns, id);
        if is_idx(ns, k) { let h = ns + asc("/idx/"@); assert(k.take(h.len() as int) =~= h); assert(k.take(ns.len() as int) =~= ns); }
        if keyed(is, ns, k) { lemma_keys(is->0, ns, k); } if keyed(was, ns, k) { lemma_keys(was->0, ns, k); }
    }
}
pub proof fn lemma_under(ns: Seq<u8>, id: u64) ensures starts(k_data(ns, id), ns), starts(k_seq(ns), ns) { assert(k_data(ns, id).take(ns.len() as int) =~= ns); assert(k_seq(ns).take(ns.len() as int) =~= ns); }
pub proof fn lemma_frame<E: Ent>(m: Store, n: Store, ns: Seq<u8>) requires inv::<E>(m, ns), forall|k: Seq<u8>| starts(k, ns) ==> #[trigger] same_at(m, n, k) ensures inv::<E>(n, ns), forall|id: u64, e: E| #[trigger] rec(n, ns, id, e) <==> rec(m, ns, id, e)
{
    assert forall|id: u64| #[trigger] same_at(m, n, k_data(ns, id)) by { lemma_under(ns, id); }
    lemma_under(ns, 0); assert(same_at(m, n, k_seq(ns)));
    assert forall|k: Seq<u8>| is_idx(ns, k) implies #[trigger] same_at(m, n, k) && starts(k, ns) by { let h = ns + asc("/idx/"@); assert(k.take(h.len() as int) =~= h); assert(k.take(ns.len() as int) =~= ns); }
    assert forall|k: Seq<u8>| starts(k, k_all(ns)) implies #[trigger] same_at(m, n, k) by { assert(k.take(ns.len() as int) =~= k.take(k_all(ns).len() as int).take(ns.len() as int)); assert(k_all(ns).take(ns.len() as int) =~= ns); }
    assert forall|id: u64, e: E| #[trigger] rec(n, ns, id, e) <==> rec(m, ns, id, e) by { assert(same_at(m, n, k_data(ns, id))); }
    assert forall|id: u64| n.dom().contains(#[trigger] k_data(ns, id)) implies n.dom().contains(k_seq(ns)) && 1 <= id <= un_le(n[k_seq(ns)]) && exists|e: E| #[trigger] rec(n, ns, id, e) by { assert(same_at(m, n, k_data(ns, id))); let e = choose|e: E| #[trigger] rec(m, ns, id, e); assert(rec(n, ns, id, e)); }
    assert forall|id: u64, e: E, k: Seq<u8>| #[trigger] rec(n, ns, id, e) && #[trigger] has_key(e, ns, k) implies n.dom().contains(k) && n[k] == le(id) by { assert(rec(m, ns, id, e)); lemma_keys(e, ns, k); assert(same_at(m, n, k)); }
    assert forall|k: Seq<u8>| #[trigger] n.dom().contains(k) && is_idx(ns, k) implies n[k].len() == 8 && exists|e: E| #[trigger] rec(n, ns, un_le(n[k]), e) && has_key(e, ns, k) by { assert(same_at(m, n, k)); let e = choose|e: E| #[trigger] rec(m, ns, un_le(m[k]), e) && has_key(e, ns, k); assert(rec(n, ns, un_le(n[k]), e)); }
    assert forall|k: Seq<u8>| #[trigger] n.dom().contains(k) && starts(k, k_all(ns)) implies exists|id: u64| k == #[trigger] k_data(ns, id) by { assert(same_at(m, n, k)); }
}
// the role a list gives an id: the first entry decides
pub open spec fn role_of<R>(s: Seq<(u64, R)>, id: u64) -> Option<R> decreases s.len() { if s.len() == 0 { None } else if s[0].0 == id { Some(s[0].1) } else { role_of(s.skip(1), id) } }
pub proof fn lemma_role_none<R>(s: Seq<(u64, R)>, id: u64) ensures role_of(s, id) is None <==> !has_id(s, id) decreases s.len()
{ if s.len() > 0 { let t = s.skip(1); lemma_role_none(t, id); if has_id(t, id) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == id; assert(s[i + 1].0 == id); } if has_id(s, id) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == id; if i > 0 { assert(t[i - 1].0 == id); } else { assert(s[0].0 == id); } } } }
pub proof fn lemma_role_push<R>(s: Seq<(u64, R)>, id: u64, role: R, j: u64) ensures role_of(s.push((id, role)), j) == (match role_of(s, j) { Some(r) => Some(r), None => if j == id { Some(role) } else { None } }) decreases s.len()
{ let p = s.push((id, role)); if s.len() > 0 { assert(p.skip(1) =~= s.skip(1).push((id, role))); lemma_role_push(s.skip(1), id, role, j); assert(p[0] == s[0]); } else { assert(p[0] == (id, role)); assert(p.skip(1) =~= Seq::empty()); assert(role_of(p.skip(1), j) is None); } }
pub proof fn lemma_role_drop<R>(s: Seq<(u64, R)>, id: u64, j: u64) ensures role_of(drop_id(s, id), j) == (if j == id { None } else { role_of(s, j) }) decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last(); lemma_role_drop(d, id, j); assert(s =~= d.push(s.last())); lemma_role_push(d, s.last().0, s.last().1, j); assert((s.last().0, s.last().1) == s.last());
        if s.last().0 != id { lemma_role_push(drop_id(d, id), s.last().0, s.last().1, j); }
    }
}
pub proof fn lemma_role_set<R>(a: Seq<(u64, R)>, b: Seq<(u64, R)>, id: u64, role: R, j: u64) requires first_set(a, b, id, role) ensures role_of(b, j) == (if j == id { Some(role) } else { role_of(a, j) }) decreases a.len()
{
    let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == id && (forall|j: int| 0 <= j < i ==> (#[trigger] a[j]).0 != id) && b == a.update(i, (id, role));
    if i == 0 { assert(b[0] == (id, role)); assert(b.skip(1) =~= a.skip(1)); }
    else { let c = a.skip(1); let d = b.skip(1); assert(a[0].0 != id); assert(b[0] == a[0]); assert(c[i - 1].0 == id); assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] c[j]).0 != id by { assert(a[j + 1].0 != id); } assert(d =~= c.update(i - 1, (id, role))); assert(first_set(c, d, id, role)); lemma_role_set(c, d, id, role, j); }
}
