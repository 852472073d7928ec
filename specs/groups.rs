// The grouping side of an aggregate: Arrow's row encoding and the map from an encoded row to its bucket, as opaque
// values.  Assumed: encoded rows are equal when the grouping values are; a map's keys come back each once, in some order.
#[verifier::external_body]
pub struct SortField { x: u8 }
#[verifier::external_body]
pub struct RowConverter { x: u8 }
#[verifier::external_body]
pub struct Encoded { x: u8 }
#[verifier::external_body]
pub struct Arrays { x: u8 }
#[verifier::external_body]
pub struct OwnedRow { x: u8 }
#[verifier::external_body]
pub struct Row { x: u8 }
#[verifier::external_body]
pub struct ArrayRef { x: u8 }
#[verifier::external_body]
pub struct Users { x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct GroupMap<T> { x: Vec<T> }
pub uninterp spec fn map_of<T>(m: GroupMap<T>) -> Map<OwnedRow, T>;
impl<T> View for GroupMap<T> { type V = Map<OwnedRow, T>; open spec fn view(&self) -> Map<OwnedRow, T> { map_of(*self) } }
/// the values the grouping expressions take on a row, as one key
pub uninterp spec fn key_at(exprs: Seq<PhysicalExprRef>, b: RecordBatch, i: int) -> OwnedRow;
pub uninterp spec fn arrays_of(a: Arrays) -> (Seq<PhysicalExprRef>, RecordBatch);
pub uninterp spec fn encoded_of(a: Encoded) -> (Seq<PhysicalExprRef>, RecordBatch);
pub uninterp spec fn row_of(a: Row) -> OwnedRow;
pub uninterp spec fn users_of(u: Users) -> Set<i64>;
/// the columns that show a list of keys
pub uninterp spec fn key_columns(ks: Seq<OwnedRow>) -> Seq<ArrayRef>;
pub uninterp spec fn erase<T>(a: Arr<T>) -> ArrayRef;
impl Clone for PhysicalExprRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for SortField { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Column { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn columns(e: &Vec<PhysicalExprRef>, b: &RecordBatch) -> (r: Result<Arrays>) ensures r is Ok ==> arrays_of(r->Ok_0) == (e@, *b) { unimplemented!() }
impl RowConverter {
    #[verifier::external_body]
    pub fn new(f: Vec<SortField>) -> (r: Result<RowConverter>) { unimplemented!() }
    #[verifier::external_body]
    pub fn convert_columns(&mut self, a: &Arrays) -> (r: Result<Encoded>) ensures r is Ok ==> encoded_of(r->Ok_0) == arrays_of(*a) { unimplemented!() }
    #[verifier::external_body]
    pub fn convert_rows(&self, rows: Vec<Row>) -> (r: Result<Vec<ArrayRef>>) ensures r is Ok ==> r->Ok_0@ == key_columns(rows@.map_values(|a: Row| row_of(a))) { unimplemented!() }
}
impl Encoded {
    #[verifier::external_body]
    pub fn row(&self, i: usize) -> (r: Row) requires i < rows_of(encoded_of(*self).1) ensures row_of(r) == key_at(encoded_of(*self).0, encoded_of(*self).1, i as int) { unimplemented!() }
}
impl Row {
    #[verifier::external_body]
    pub fn owned(&self) -> (r: OwnedRow) ensures r == row_of(*self) { unimplemented!() }
}
impl OwnedRow {
    #[verifier::external_body]
    pub fn row(&self) -> (r: Row) ensures row_of(r) == *self { unimplemented!() }
}
impl Users {
    #[verifier::external_body]
    pub fn contains_key(&self, u: &i64) -> (r: bool) ensures r == users_of(*self).contains(*u) { unimplemented!() }
}
pub open spec fn got<T>(m: Map<OwnedRow, T>, k: OwnedRow, f: T) -> T { if m.contains_key(k) { m[k] } else { f } }
impl<T> GroupMap<T> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn none() -> (r: Self) ensures r@ == Map::<OwnedRow, T>::empty() { unimplemented!() }
}
#[verifier::external_body]
pub fn entry_or<T>(m: &mut GroupMap<T>, k: OwnedRow, f: T) -> (r: &mut T)
    ensures *r == got(old(m)@, k, f), final(m)@ == old(m)@.insert(k, *final(r))
{ unimplemented!() }
#[verifier::external_body]
pub fn keys_of<T>(m: &GroupMap<T>) -> (r: Vec<OwnedRow>)
    ensures r@.no_duplicates(), forall|k: OwnedRow| #[trigger] r@.contains(k) <==> m@.contains_key(k)
{ unimplemented!() }
#[verifier::external_body]
pub fn slot_mut<'a, T>(m: &'a mut GroupMap<T>, k: &OwnedRow) -> (r: &'a mut T)
    requires old(m)@.contains_key(*k)
    ensures *r == old(m)@[*k], final(m)@ == old(m)@.insert(*k, *final(r))
{ unimplemented!() }
#[verifier::external_body]
pub fn slot_ref<'a, T>(m: &'a GroupMap<T>, k: &OwnedRow) -> (r: &'a T) requires m@.contains_key(*k) ensures *r == m@[*k] { unimplemented!() }
#[verifier::external_body]
pub fn erased<T>(a: Arr<T>) -> (r: ArrayRef) ensures r == erase(a) { unimplemented!() }
pub fn concat2(a: Vec<ArrayRef>, b: Vec<ArrayRef>) -> (r: Vec<ArrayRef>) ensures r@ == a@ + b@ { let mut a = a; let mut b = b; a.append(&mut b); a }
#[verifier::external_body]
pub fn firsts(g: &Vec<(PhysicalExprRef, String, SortField)>) -> (r: Vec<PhysicalExprRef>) ensures r@.len() == g@.len(), forall|i: int| 0 <= i < g@.len() ==> #[trigger] r@[i] == g@[i].0 { unimplemented!() }
#[verifier::external_body]
pub fn seconds_of(g: &Vec<(PhysicalExprRef, String, SortField)>) -> (r: Vec<String>) ensures r@.len() == g@.len(), forall|i: int| 0 <= i < g@.len() ==> #[trigger] r@[i] == g@[i].1 { unimplemented!() }
#[verifier::external_body]
pub fn thirds(g: &Vec<(PhysicalExprRef, String, SortField)>) -> (r: Vec<SortField>) ensures r@.len() == g@.len(), forall|i: int| 0 <= i < g@.len() ==> #[trigger] r@[i] == g@[i].2 { unimplemented!() }
#[verifier::external_body]
pub fn same_exprs(g: &Vec<PhysicalExprRef>) -> (r: Vec<PhysicalExprRef>) ensures r@ == g@ { unimplemented!() }
#[verifier::external_body]
pub fn same_names(g: &Vec<String>) -> (r: Vec<String>) ensures r@ == g@ { unimplemented!() }
#[verifier::external_body]
pub fn same_fields(g: &Vec<SortField>) -> (r: Vec<SortField>) ensures r@ == g@ { unimplemented!() }
//@rule HashMap < OwnedRow , T > =>> GroupMap<T>
//@rule Option < & HashMap < i64 , ( ) , RandomState > > =>> Option<&Users>
//@rule $~g . iter ( ) . map ( | e | { $$b } ) . collect :: < result :: Result < Vec < _ > , _ > > ( ) ? =>> columns(&$g, batch)?
//@rule $~g . entry ( $$k ) . or_insert_with ( | | $$f ) =>> entry_or(&mut $g, $$k, $$f)
//@rule Arc :: new ( $x ) as ArrayRef =>> erased($x)
//@rule vec ! [ $a , vec ! [ $b ] ] . concat ( ) =>> concat2($a, vec![$b])
//@rule groups . iter ( ) . map ( | ( v , _ , _ ) | v . clone ( ) ) . collect :: < Vec < _ > > ( ) =>> firsts(&groups)
//@rule groups . iter ( ) . map ( | ( _ , v , _ ) | v . to_owned ( ) ) . collect ( ) =>> seconds_of(&groups)
//@rule groups . iter ( ) . map ( | ( _ , _ , $v ) | $w . clone ( ) ) . collect ( ) =>> thirds(&groups)
//@rule self . exprs . clone ( ) =>> same_exprs(&self.exprs)
//@rule self . names . clone ( ) =>> same_names(&self.names)
//@rule self . sort_fields . clone ( ) =>> same_fields(&self.sort_fields)
//@rule groups : Default :: default ( ) =>> groups: GroupMap::none()
#[verifier::reject_recursive_types(T)]
//@item src/query/src/physical_plan/expressions/aggregate/mod.rs Groups | vis=keep
impl<T> Groups<T> {
    pub closed spec fn by(&self) -> Seq<PhysicalExprRef> { self.exprs@ }
    pub closed spec fn buckets(&self) -> Map<OwnedRow, T> { self.groups@ }
//@fn src/query/src/physical_plan/expressions/aggregate/mod.rs Groups::try_make_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.by() == self.by() && r->Ok_0.buckets() == Map::<OwnedRow, T>::empty(),
//@end
//@fn src/query/src/physical_plan/expressions/aggregate/mod.rs Groups::maybe_from | ret=r block vis=keep
//@contract
    ensures r is Ok ==> (r->Ok_0 is Some <==> groups is Some) && (r->Ok_0 is Some ==> r->Ok_0->0.by() == groups->0@.map_values(|g: (PhysicalExprRef, String, SortField)| g.0) && r->Ok_0->0.buckets() == Map::<OwnedRow, T>::empty()),
//@end
}
/// a row as an aggregate sees it: the group it belongs to, its user, and the value it contributes if it counts at all
pub type Seen<V> = (OwnedRow, i64, Option<V>);
pub open spec fn ours<V>(r: Seen<V>, k: Option<OwnedRow>) -> bool { r.2 is Some && (k is None || k == Some(r.0)) }
/// what the rows contribute to a group (to the whole, when there is no grouping): users and values, in order
pub open spec fn share<V>(h: Seq<Seen<V>>, k: Option<OwnedRow>) -> Seq<(i64, V)> decreases h.len()
{ if h.len() == 0 { Seq::empty() } else { let s = share(h.drop_last(), k); if ours(h.last(), k) { s.push((h.last().1, h.last().2->0)) } else { s } } }
pub proof fn lemma_share<V>(h: Seq<Seen<V>>, r: Seen<V>, k: Option<OwnedRow>)
    ensures share(h.push(r), k) == if ours(r, k) { share(h, k).push((r.1, r.2->0)) } else { share(h, k) }, share(h, k).len() <= h.len()
    decreases h.len()
{ assert(h.push(r).drop_last() =~= h); if h.len() > 0 { lemma_share(h.drop_last(), h.last(), k); assert(h.drop_last().push(h.last()) =~= h); } }
/// what stands in the buckets is what the rows so far contribute
#[verifier::opaque]
pub open spec fn stands<B, V>(groups: Option<Map<OwnedRow, B>>, single: B, h: Seq<Seen<V>>, ok: spec_fn(B, Seq<(i64, V)>) -> bool) -> bool {
    match groups { Some(m) => forall|k: OwnedRow| (#[trigger] m.contains_key(k) <==> share(h, Some(k)).len() > 0) && (m.contains_key(k) ==> ok(m[k], share(h, Some(k)))), None => ok(single, share(h, None)) } }
/// a bucket that took a value more
pub open spec fn fed<B, V>(a: B, b: B, x: (i64, V), ok: spec_fn(B, Seq<(i64, V)>) -> bool) -> bool { forall|s: Seq<(i64, V)>| #[trigger] ok(a, s) ==> ok(b, s.push(x)) }
pub proof fn lemma_stands<B, V>(a: Option<Map<OwnedRow, B>>, a1: B, b: Option<Map<OwnedRow, B>>, b1: B, r: Seen<V>, f: B, ok: spec_fn(B, Seq<(i64, V)>) -> bool)
    requires a is Some <==> b is Some, r.2 is None ==> a == b && a1 == b1, r.2 is Some && a is None ==> fed(a1, b1, (r.1, r.2->0), ok),
        r.2 is Some && a is Some ==> ok(f, Seq::empty()) && b->0 =~= a->0.insert(r.0, b->0[r.0]) && fed(got(a->0, r.0, f), b->0[r.0], (r.1, r.2->0), ok),
    ensures forall|h: Seq<Seen<V>>| #[trigger] stands(a, a1, h, ok) ==> stands(b, b1, h.push(r), ok),
{
    reveal(stands);
    assert forall|h: Seq<Seen<V>>| #[trigger] stands(a, a1, h, ok) implies stands(b, b1, h.push(r), ok) by {
        lemma_share(h, r, None);
        if a is Some { assert forall|k: OwnedRow| (#[trigger] b->0.contains_key(k) <==> share(h.push(r), Some(k)).len() > 0) && (b->0.contains_key(k) ==> ok(b->0[k], share(h.push(r), Some(k)))) by {
            lemma_share(h, r, Some(k)); assert(a->0.contains_key(k) <==> share(h, Some(k)).len() > 0);
            if ours(r, Some(k)) && !a->0.contains_key(k) { assert(share(h, Some(k)) =~= Seq::empty()); }
        } }
    }
}
pub proof fn lemma_listed<B, V, T>(m: Map<OwnedRow, B>, single: B, ks: Seq<OwnedRow>, vs: Seq<Option<T>>, ok: spec_fn(B, Seq<(i64, V)>) -> bool, value: spec_fn(Seq<(i64, V)>) -> T)
    requires ks.no_duplicates(), forall|k: OwnedRow| #[trigger] ks.contains(k) <==> m.contains_key(k), vs.len() == ks.len(), forall|i: int, s: Seq<(i64, V)>| #![trigger vs[i], ok(m[ks[i]], s)] 0 <= i < ks.len() && ok(m[ks[i]], s) ==> vs[i] == Some(value(s)),
    ensures forall|h: Seq<Seen<V>>| #[trigger] stands(Some(m), single, h, ok) ==> (forall|k: OwnedRow| #[trigger] ks.contains(k) <==> share(h, Some(k)).len() > 0) && vs == answers(h, ks, value),
{
    reveal(stands);
    assert forall|h: Seq<Seen<V>>, k: OwnedRow| #[trigger] stands(Some(m), single, h, ok) implies (#[trigger] ks.contains(k) <==> share(h, Some(k)).len() > 0) by { let o = Some(m); assert(stands(o, single, h, ok)); assert(ks.contains(k) <==> o->0.contains_key(k)); }
    assert forall|h: Seq<Seen<V>>| #[trigger] stands(Some(m), single, h, ok) implies vs == answers(h, ks, value) by {
        let o = Some(m); assert(stands(o, single, h, ok));
        assert forall|i: int| 0 <= i < ks.len() implies vs[i] == #[trigger] answers(h, ks, value)[i] by { assert(ks.contains(ks[i])); assert(o->0.contains_key(ks[i])); assert(ok(m[ks[i]], share(h, Some(ks[i])))); }
        assert(vs =~= answers(h, ks, value));
    }
}
/// one user's rows that stand together
pub open spec fn runs<V>(s: Seq<(i64, V)>) -> Seq<(i64, Seq<V>)> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let p = runs(s.drop_last()); let x = s.last(); if p.len() > 0 && p.last().0 == x.0 { p.drop_last().push((x.0, p.last().1.push(x.1))) } else { p.push((x.0, seq![x.1])) } } }
pub proof fn lemma_runs<V>(s: Seq<(i64, V)>, x: (i64, V))
    ensures runs(s.push(x)) == { let p = runs(s); if p.len() > 0 && p.last().0 == x.0 { p.drop_last().push((x.0, p.last().1.push(x.1))) } else { p.push((x.0, seq![x.1])) } },
        runs(s).len() == 0 <==> s.len() == 0, runs(s).len() > 0 ==> runs(s).last().1.len() > 0, forall|i: int| 0 <= i < runs(s).len() ==> 0 < (#[trigger] runs(s)[i]).1.len() <= s.len(),
    decreases s.len()
{ assert(s.push(x).drop_last() =~= s); if s.len() > 0 { lemma_runs(s.drop_last(), s.last()); assert(s.drop_last().push(s.last()) =~= s); } }
pub open spec fn listing<T>(r: Seq<ArrayRef>, keys: Option<Seq<OwnedRow>>, vs: Seq<Option<T>>) -> bool { exists|a: Arr<T>| a@ =~= vs && #[trigger] erase(a) == r.last() && r =~= (match keys { Some(ks) => key_columns(ks), None => Seq::empty() }).push(erase(a)) }
pub open spec fn answers<V, T>(h: Seq<Seen<V>>, ks: Seq<OwnedRow>, value: spec_fn(Seq<(i64, V)>) -> T) -> Seq<Option<T>> { Seq::new(ks.len(), |i: int| Some(value(share(h, Some(ks[i]))))) }
/// the answer: one line per group that has a row which counts, each once, with the group's own value; one line in all without grouping
pub open spec fn tells<V, T>(grouped: bool, h: Seq<Seen<V>>, value: spec_fn(Seq<(i64, V)>) -> T, r: Seq<ArrayRef>) -> bool {
    if grouped { exists|ks: Seq<OwnedRow>| #![trigger key_columns(ks)] ks.no_duplicates() && (forall|k: OwnedRow| #[trigger] ks.contains(k) <==> share(h, Some(k)).len() > 0) && listing(r, Some(ks), answers(h, ks, value)) }
    else { listing(r, None, seq![Some(value(share(h, None)))]) } }
