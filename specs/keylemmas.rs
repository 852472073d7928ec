// ---- separation lemmas over the key layout
pub open spec fn slash_free(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 47 }
pub open spec fn starts(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub proof fn lemma_cancel(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires a + b == a + c ensures b == c
{ assert(b =~= (a + b).skip(a.len() as int)); assert(c =~= (a + c).skip(a.len() as int)); }
// a slash-free head, a slash, a tail: both are determined
pub proof fn lemma_head(n: Seq<u8>, x: Seq<u8>, m: Seq<u8>, y: Seq<u8>) requires slash_free(n), slash_free(m), n + seq![47u8] + x == m + seq![47u8] + y ensures n == m, x == y
{
    let l = n + seq![47u8] + x; let r = m + seq![47u8] + y;
    assert(l[n.len() as int] == 47); assert(r[m.len() as int] == 47);
    if n.len() < m.len() { assert(r[n.len() as int] == m[n.len() as int]); }
    if m.len() < n.len() { assert(l[m.len() as int] == n[m.len() as int]); }
    assert(n =~= l.take(n.len() as int)); assert(m =~= r.take(m.len() as int));
    assert(x =~= l.skip(n.len() as int + 1)); assert(y =~= r.skip(m.len() as int + 1));
}
pub proof fn lemma_dec_free(p: u64) ensures slash_free(dec(p)) { axiom_dec(p); }
pub proof fn lemma_slash() ensures asc("/"@) == seq![47u8] { reveal_strlit("/"); assert(asc("/"@) =~= seq![47u8]); }
pub proof fn lemma_project(p: u64, a: Seq<u8>, q: u64, b: Seq<u8>) requires k_project(p, a) == k_project(q, b) ensures p == q, a == b
{
    lemma_slash(); lemma_dec_free(p); lemma_dec_free(q);
    let h = asc("projects/"@);
    assert(k_project(p, a) =~= h + (dec(p) + seq![47u8] + a)); assert(k_project(q, b) =~= h + (dec(q) + seq![47u8] + b));
    lemma_cancel(h, dec(p) + seq![47u8] + a, dec(q) + seq![47u8] + b); lemma_head(dec(p), a, dec(q), b); axiom_dec_inj(p, q);
}
pub proof fn lemma_org(p: u64, a: Seq<u8>, q: u64, b: Seq<u8>) requires k_org(p, a) == k_org(q, b) ensures p == q, a == b
{
    lemma_slash(); lemma_dec_free(p); lemma_dec_free(q);
    let h = asc("organizations/"@);
    assert(k_org(p, a) =~= h + (dec(p) + seq![47u8] + a)); assert(k_org(q, b) =~= h + (dec(q) + seq![47u8] + b));
    lemma_cancel(h, dec(p) + seq![47u8] + a, dec(q) + seq![47u8] + b); lemma_head(dec(p), a, dec(q), b); axiom_dec_inj(p, q);
}
// a scan of project p never meets a key of project q
pub proof fn lemma_project_scan(p: u64, a: Seq<u8>, q: u64, b: Seq<u8>) requires starts(k_project(q, b), k_project(p, a)) ensures p == q, starts(b, a)
{
    let k = k_project(q, b); let w = k_project(p, a); let rest = k.skip(w.len() as int);
    assert(k =~= w + rest); assert(w + rest =~= k_project(p, a + rest)); lemma_project(p, a + rest, q, b);
    assert(b.take(a.len() as int) =~= a);
}
pub proof fn lemma_org_scan(p: u64, a: Seq<u8>, q: u64, b: Seq<u8>) requires starts(k_org(q, b), k_org(p, a)) ensures p == q, starts(b, a)
{
    let k = k_org(q, b); let w = k_org(p, a); let rest = k.skip(w.len() as int);
    assert(k =~= w + rest); assert(w + rest =~= k_org(p, a + rest)); lemma_org(p, a + rest, q, b);
    assert(b.take(a.len() as int) =~= a);
}
pub proof fn lemma_data_key(ns: Seq<u8>, i: u64, j: u64) requires k_data(ns, i) == k_data(ns, j) ensures i == j
{ assert(k_data(ns, i) =~= ns + asc("/data/"@) + dec(i)); lemma_cancel(ns + asc("/data/"@), dec(i), dec(j)); axiom_dec_inj(i, j); }
pub proof fn lemma_lits() ensures asc("/data/"@) == seq![47u8, 100, 97, 116, 97, 47], asc("/data"@) == seq![47u8, 100, 97, 116, 97], asc("/idx/"@) == seq![47u8, 105, 100, 120, 47], asc("id_seq"@) == seq![105u8, 100, 95, 115, 101, 113], asc("/"@) == seq![47u8]
{ reveal_strlit("/data/"); reveal_strlit("/data"); reveal_strlit("/idx/"); reveal_strlit("id_seq"); reveal_strlit("/");
  assert(asc("/data/"@) =~= seq![47u8, 100, 97, 116, 97, 47]); assert(asc("/data"@) =~= seq![47u8, 100, 97, 116, 97]); assert(asc("/idx/"@) =~= seq![47u8, 105, 100, 120, 47]); assert(asc("id_seq"@) =~= seq![105u8, 100, 95, 115, 101, 113]); assert(asc("/"@) =~= seq![47u8]); }
pub proof fn lemma_families(ns: Seq<u8>, i: u64, name: Seq<u8>, key: Seq<u8>) ensures k_data(ns, i) != k_index(ns, name, key), k_data(ns, i) != k_seq(ns), k_index(ns, name, key) != k_seq(ns)
{
    lemma_lits(); let n = ns.len() as int;
    assert(k_data(ns, i)[n + 1] == 100); assert(k_index(ns, name, key)[n + 1] == 105); assert(k_data(ns, i)[n] == 47); assert(k_index(ns, name, key)[n] == 47); assert(k_seq(ns)[n] == 105);
}
pub proof fn lemma_index_key(ns: Seq<u8>, n: Seq<u8>, x: Seq<char>, m: Seq<u8>, y: Seq<char>) requires slash_free(n), slash_free(m), k_index(ns, n, utf8(x)) == k_index(ns, m, utf8(y)) ensures n == m, x == y
{
    lemma_lits(); let h = ns + asc("/idx/"@);
    assert(k_index(ns, n, utf8(x)) =~= h + (n + seq![47u8] + utf8(x))); assert(k_index(ns, m, utf8(y)) =~= h + (m + seq![47u8] + utf8(y)));
    lemma_cancel(h, n + seq![47u8] + utf8(x), m + seq![47u8] + utf8(y)); lemma_head(n, utf8(x), m, utf8(y)); axiom_utf8_inj(x, y);
}
// different kinds of entity (slash-free names) share neither keys nor scans
pub proof fn lemma_kinds(n: Seq<u8>, i: u64, m: Seq<u8>, j: u64) requires slash_free(n), slash_free(m) ensures starts(k_data(m, j), k_all(n)) ==> n == m, k_data(n, i) == k_data(m, j) ==> n == m && i == j
{
    lemma_lits();
    if starts(k_data(m, j), k_all(n)) { let k = k_data(m, j); let rest = k.skip(k_all(n).len() as int); assert(k =~= k_all(n) + rest); assert(k_all(n) + rest =~= n + seq![47u8] + (seq![100u8, 97, 116, 97] + rest)); assert(k =~= m + seq![47u8] + (seq![100u8, 97, 116, 97, 47] + dec(j))); lemma_head(n, seq![100u8, 97, 116, 97] + rest, m, seq![100u8, 97, 116, 97, 47] + dec(j)); }
    if k_data(n, i) == k_data(m, j) { assert(k_data(n, i) =~= n + seq![47u8] + (seq![100u8, 97, 116, 97, 47] + dec(i))); assert(k_data(m, j) =~= m + seq![47u8] + (seq![100u8, 97, 116, 97, 47] + dec(j))); lemma_head(n, seq![100u8, 97, 116, 97, 47] + dec(i), m, seq![100u8, 97, 116, 97, 47] + dec(j)); lemma_data_key(n, i, j); }
}
