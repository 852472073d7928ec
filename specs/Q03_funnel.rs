//@include base.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@rule HashMap < i64 , BucketResult , RandomState > =>> Buckets
//@rule ( 0 .. steps_len ) . map ( | _ | $$x ) . collect :: < Vec < _ > > ( ) =>> filled(steps_len, $$x)
//@rule ts . iter ( ) . map ( | ts | { $$x } ) . collect :: < HashMap < _ , _ , RandomState > > ( ) =>> { let ghost src = ts@; let mut all = Buckets::none(); for ts in iter: ts.iter() invariant iter.index@ <= src.len(), iter.seq().len() == src.len(), forall|i: int| 0 <= i < src.len() ==> *(#[trigger] iter.seq()[i]) == src[i], forall|k: i64| #[trigger] all@.dom().contains(k) <==> src.take(iter.index@ as int).contains(k), forall|k: i64| #[trigger] all@.dom().contains(k) ==> zero(all@[k], steps_len as int, k) { let one = { $$x }; let ghost prev = all@; all.put(one.0, one.1); proof { let i = iter.index@ as int; assert(*ts == src[i]); assert(src.take(i + 1) =~= src.take(i).push(src[i])); assert forall|k: i64| src.take(i + 1).contains(k) <==> #[trigger] src.take(i).contains(k) || k == src[i] by { if k == src[i] { assert(src.take(i + 1)[i] == k); } if src.take(i).contains(k) { let j = choose|j: int| 0 <= j < i && src.take(i)[j] == k; assert(src.take(i + 1)[j] == k); } } assert forall|k: i64| #[trigger] all@.dom().contains(k) <==> src.take(i + 1).contains(k) by { assert(prev.dom().contains(k) <==> src.take(i).contains(k)); } } } proof { assert(src.take(src.len() as int) =~= src); } all }
// chrono and arrow, uninterpreted
#[derive(Clone, Copy)] pub struct Instant { pub ms: i64 }
pub struct Duration { pub x: u8 }
pub uninterp spec fn ms_of(d: Duration) -> i64;
impl Duration { #[verifier::external_body] pub fn num_milliseconds(&self) -> (r: i64) ensures r == ms_of(*self) { unimplemented!() } }
pub struct TimeIntervalUnit { pub x: u8 }
/// the first instant of the unit that holds `ms`: what it is, is C03's
pub uninterp spec fn bucket_of(u: TimeIntervalUnit, ms: i64) -> i64;
#[verifier::external_body] pub fn instant(ms: i64) -> (r: Instant) ensures r.ms == ms { unimplemented!() }
#[verifier::external_body] pub fn truncated(u: &TimeIntervalUnit, t: Instant) -> (r: Instant) ensures r.ms == bucket_of(*u, t.ms) { unimplemented!() }
impl Instant { pub fn timestamp_millis(&self) -> (r: i64) ensures r == self.ms { self.ms } }
pub struct BooleanArray { pub x: u8 }
pub uninterp spec fn truth(a: BooleanArray, i: usize) -> bool;
impl BooleanArray { #[verifier::external_body] pub fn value(&self, i: usize) -> (r: bool) ensures r == truth(*self, i) { unimplemented!() } }
pub fn filled<T: Copy>(n: usize, x: T) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x
{ let mut v: Vec<T> = Vec::new(); let mut i = 0; while i < n invariant i <= n, v@.len() == i, forall|j: int| 0 <= j < i ==> v@[j] == x decreases n - i { v.push(x); i += 1; } v }
// the buckets by their first instant: std's HashMap, assumed
#[verifier::external_body] struct Buckets { x: u8 }
impl View for Buckets { type V = Map<i64, BucketResult>; uninterp spec fn view(&self) -> Map<i64, BucketResult>; }
impl Buckets {
    #[verifier::external_body] fn none() -> (r: Buckets) ensures r@ == Map::<i64, BucketResult>::empty() { unimplemented!() }
    #[verifier::external_body] fn put(&mut self, k: i64, v: BucketResult) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] fn take(&mut self, k: i64) -> (r: Option<BucketResult>) ensures match r { Some(v) => old(self)@.dom().contains(k) && v == old(self)@[k] && final(self)@ == old(self)@.remove(k), None => !old(self)@.dom().contains(k) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body] fn some_key(&self) -> (r: i64) requires exists|k: i64| self@.dom().contains(k) ensures self@.dom().contains(r) { unimplemented!() }
}
//@item src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs ExcludeSteps | vis=keep
//@item src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs Exclude
//@item src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs Filter | vis=keep
//@item src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs Step | derive="Clone, Copy"
//@item src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs Row
//@item src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs StepResult | derive="Clone, Copy"
//@item src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs BucketResult
//@item src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs Group
// ---- what an attempt adds
spec fn plus(a: StepResult, steps: Seq<Step>, done: int, i: int) -> (int, int, int) {
    if i >= done { (a.total as int, a.total_time_to_convert as int, a.total_time_to_convert_from_start as int) }
    else if i == 0 { (a.total + 1, a.total_time_to_convert as int, a.total_time_to_convert_from_start as int) }
    else { (a.total + 1, a.total_time_to_convert + (steps[i].ts - steps[i - 1].ts), a.total_time_to_convert_from_start + (steps[i].ts - steps[0].ts)) }
}
spec fn figures(a: StepResult) -> (int, int, int) { (a.total as int, a.total_time_to_convert as int, a.total_time_to_convert_from_start as int) }
/// one attempt that took its first `done` steps is added to a bucket
spec fn counted(b: BucketResult, c: BucketResult, steps: Seq<Step>, done: int) -> bool {
    &&& c.ts == b.ts && c.steps@.len() == b.steps@.len()
    &&& forall|i: int| 0 <= i < b.steps@.len() ==> figures(#[trigger] c.steps@[i]) == plus(b.steps@[i], steps, done, i)
    &&& drops(c)
    &&& b.steps@.len() > 0 ==> c.steps@[0].dropped_off == b.steps@[0].dropped_off
}
spec fn drops(c: BucketResult) -> bool { forall|i: int| 0 < i < c.steps@.len() ==> (#[trigger] c.steps@[i]).dropped_off == c.steps@[i - 1].total - c.steps@[i].total }
/// totals never grow along the funnel
spec fn falling(b: BucketResult) -> bool { forall|i: int| 0 < i < b.steps@.len() ==> (#[trigger] b.steps@[i]).total <= b.steps@[i - 1].total }
proof fn lemma_falling(b: BucketResult, c: BucketResult, steps: Seq<Step>, done: int) requires falling(b), counted(b, c, steps, done) ensures falling(c), drops(c), forall|i: int| 0 < i < c.steps@.len() ==> (#[trigger] c.steps@[i]).dropped_off >= 0
{ assert forall|i: int| 0 < i < c.steps@.len() implies (#[trigger] c.steps@[i]).total <= c.steps@[i - 1].total by { assert(figures(c.steps@[i]) == plus(b.steps@[i], steps, done, i)); assert(figures(c.steps@[i - 1]) == plus(b.steps@[i - 1], steps, done, i - 1)); assert(b.steps@[i].total <= b.steps@[i - 1].total); } }
// room for one more attempt: nothing overflows
spec fn room(b: BucketResult) -> bool { forall|i: int| 0 <= i < b.steps@.len() ==> 0 <= (#[trigger] b.steps@[i]).total < 0x2000_0000_0000_0000 && -0x2000_0000_0000_0000 < b.steps@[i].total_time_to_convert < 0x2000_0000_0000_0000 && -0x2000_0000_0000_0000 < b.steps@[i].total_time_to_convert_from_start < 0x2000_0000_0000_0000 }
spec fn times(s: Seq<Step>) -> bool { forall|i: int| 0 <= i < s.len() ==> -0x1000_0000_0000_0000 < (#[trigger] s[i]).ts < 0x1000_0000_0000_0000 }
spec fn zero(b: BucketResult, n: int, ts: i64) -> bool { b.ts == ts && b.steps@.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] b.steps@[i]) == (StepResult { total: 0, dropped_off: 0, total_time_to_convert: 0, total_time_to_convert_from_start: 0 }) }
spec fn applies(e: Exclude, step: usize, row: usize) -> bool { truth(e.exists, row) && match e.steps { Some(s) => s.from <= step <= s.to, None => true } }
spec fn converted(g: Group, f: Option<Filter>) -> bool {
    match f {
        None => g.steps_completed == g.steps@.len(),
        Some(Filter::DropOffOnAnyStep) => g.steps_completed != g.steps@.len(),
        Some(Filter::DropOffOnStep(k)) => g.steps_completed - 1 == k,
        Some(Filter::TimeToConvert(a, b)) => g.steps_completed == g.steps@.len() && ms_of(a) <= g.steps@[g.cur_step as int].ts - g.steps@[0].ts <= ms_of(b),
    }
}
spec fn sound(g: Group) -> bool { g.steps@.len() > 0 && g.cur_step < g.steps@.len() && g.steps_completed <= g.steps@.len() && times(g.steps@) && (forall|k: i64| #[trigger] g.buckets@.dom().contains(k) ==> g.buckets@[k].steps@.len() == g.steps@.len() && room(g.buckets@[k])) && exists|k: i64| g.buckets@.dom().contains(k) }
spec fn one_bucket(m: Map<i64, BucketResult>, n: Map<i64, BucketResult>, k: i64, steps: Seq<Step>, done: int) -> bool {
    n.dom() == m.dom() && (forall|j: i64| #[trigger] n.dom().contains(j) && j != k ==> n[j] == m[j]) && (m.dom().contains(k) ==> counted(m[k], n[k], steps, done))
}
impl Group {
//@fn src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs Group::new | ret=r block
//@contract
    ensures r.steps@.len() == steps_len, r.cur_step == 0, r.steps_completed == 0, forall|k: i64| #[trigger] r.buckets@.dom().contains(k) <==> ts@.contains(k), forall|k: i64| #[trigger] r.buckets@.dom().contains(k) ==> zero(r.buckets@[k], steps_len as int, k),
//@end
//@fn src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs Group::check_exclude | ret=r block
//@contract
    ensures r <==> !exists|i: int| 0 <= i < exclude@.len() && #[trigger] applies(exclude@[i], self.cur_step, cur_row_id),
//@loop 0 iter=it
    invariant it.seq().len() == exclude@.len(), it.index@ <= exclude@.len(), forall|i: int| 0 <= i < exclude@.len() ==> *(#[trigger] it.seq()[i]) == exclude@[i], forall|i: int| 0 <= i < it.index@ ==> !#[trigger] applies(exclude@[i], self.cur_step, cur_row_id),
//@loopstart 0
    proof { assert(*excl == exclude@[it.index@ as int]); }
//@before return false
    proof { assert(applies(exclude@[it.index@ as int], self.cur_step, cur_row_id)); }
//@end
//@fn src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs Group::push_result | ret=r block
//@rule chrono :: DateTime :: from_timestamp_millis ( $$a ) . unwrap ( ) =>> instant($$a)
//@rule date_trunc ( time_unit , dt ) . unwrap ( ) =>> truncated(time_unit, dt)
//@rule * self . buckets . iter ( ) . next ( ) . unwrap ( ) . 0 =>> self.buckets.some_key()
//@rule self . buckets . entry ( k ) . and_modify ( | b | { $$x } ) ; =>> if let Some(mut b) = self.buckets.take(k) { $$x self.buckets.put(k, b); }
//@contract
    requires sound(*old(self)),
    ensures final(self).steps == old(self).steps, final(self).cur_step == old(self).cur_step, final(self).steps_completed == old(self).steps_completed,
        old(self).steps_completed == 0 ==> !r && final(self).buckets@ == old(self).buckets@,
        old(self).steps_completed > 0 ==> r == converted(*old(self), *filter),
        old(self).steps_completed > 0 && time_unit is Some ==> one_bucket(old(self).buckets@, final(self).buckets@, bucket_of(time_unit->0, old(self).steps@[0].ts), old(self).steps@, old(self).steps_completed as int),
        old(self).steps_completed > 0 && time_unit is None ==> exists|k: i64| old(self).buckets@.dom().contains(k) && #[trigger] one_bucket(old(self).buckets@, final(self).buckets@, k, old(self).steps@, old(self).steps_completed as int),
//@loop 0 iter=it0
    invariant self.steps == old(self).steps, self.steps_completed == old(self).steps_completed, self.cur_step == old(self).cur_step, self.steps_completed <= self.steps@.len(), times(self.steps@), room(old(self).buckets@[k]), old(self).buckets@[k].steps@.len() == self.steps@.len(), b.steps@.len() == old(self).buckets@[k].steps@.len(), b.ts == old(self).buckets@[k].ts,
        forall|i: int| 0 <= i < b.steps@.len() ==> figures(#[trigger] b.steps@[i]) == plus(old(self).buckets@[k].steps@[i], self.steps@, if i < idx { self.steps_completed as int } else { 0 }, i), b.steps@[0].dropped_off == old(self).buckets@[k].steps@[0].dropped_off,
//@loop 1 iter=it1
    invariant self.steps == old(self).steps, self.steps_completed == old(self).steps_completed, self.cur_step == old(self).cur_step, self.steps_completed <= self.steps@.len(), times(self.steps@), room(old(self).buckets@[k]), old(self).buckets@[k].steps@.len() == self.steps@.len(), b.steps@.len() == old(self).buckets@[k].steps@.len(), b.ts == old(self).buckets@[k].ts, idx >= 1,
        forall|i: int| 0 <= i < b.steps@.len() ==> figures(#[trigger] b.steps@[i]) == plus(old(self).buckets@[k].steps@[i], self.steps@, self.steps_completed as int, i), b.steps@[0].dropped_off == old(self).buckets@[k].steps@[0].dropped_off, forall|i: int| 0 < i < idx ==> (#[trigger] b.steps@[i]).dropped_off == b.steps@[i - 1].total - b.steps@[i].total,
//@before_last is_completed
    proof { assert(one_bucket(old(self).buckets@, self.buckets@, k, old(self).steps@, old(self).steps_completed as int)); }
//@end
}
}
//@helpers
fn main() {}
