// Q01: a segment condition marks exactly the users whose own rows meet it
//@rule $~c . evaluate ( batch ) ? . into_array ( batch . num_rows ( ) ) ? . as_any ( ) . downcast_ref :: < $t > ( ) . unwrap ( ) . clone ( ) =>> { let read_: $t = column(&$c, batch)?; read_ }
//@rule $~p . into_iter ( ) . enumerate ( ) =>> numbered(&$p)
//@rule Mutex :: new ( inner ) =>> inner
//@rule Mutex < Inner < OT > > =>> Inner<OT>
//@rule Mutex < Inner > =>> Inner
//@rule self . inner . lock ( ) . unwrap ( ) =>> &mut self.inner
//@rule Arc < Mutex < AndInner > > =>> AndInner
//@rule Arc < dyn SegmentExpr > =>> Cond
//@rule Arc :: new ( Mutex :: new ( $$a ) ) =>> $$a
//@rule if let Some ( l ) = l && r . is_some ( ) $then else $other =>> if l.is_some() && r.is_some() { let l = l.unwrap(); $then } else $other
//@rule l . or ( r ) =>> or_else_of(l, r)
//@rule Default :: default ( ) =>> PhantomData
//@include base.rs
use vstd::prelude::*;
use std::marker::PhantomData;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include arrow.rs
//@include segspec.rs
//@include aggfn.rs
//@fn src/query/src/physical_plan/expressions/mod.rs check_filter | ret=r block
//@contract
    requires idx < filter@.len(),
    ensures r == (filter@[idx as int] == Some(true)),
//@end
pub mod seg { use super::*; broadcast use {crate::axiom_arr_len};
//@item src/query/src/physical_plan/expressions/segmentation/time_range.rs TimeRange | vis=keep
pub open spec fn within(t: TimeRange, ts: int) -> bool { match t { TimeRange::Between(a, b) => a <= ts <= b, TimeRange::From(a) => a <= ts, TimeRange::Last(since, start) => start - since <= ts, TimeRange::None => true } }
pub open spec fn sane(t: TimeRange) -> bool { t is Last ==> i64::MIN <= t->Last_1 - t->Last_0 <= i64::MAX }
impl TimeRange {
//@fn src/query/src/physical_plan/expressions/segmentation/time_range.rs TimeRange::check_bounds | ret=r block vis=keep
//@contract
    requires sane(*self),
    ensures r == within(*self, ts as int),
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/time_range.rs TimeRange::new_between_milli | ret=r block vis=keep
//@contract
    ensures r == TimeRange::Between(from, to),
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/time_range.rs TimeRange::new_from_milli | ret=r block vis=keep
//@contract
    ensures r == TimeRange::From(from),
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/time_range.rs TimeRange::new_last_milli | ret=r block vis=keep
//@contract
    ensures r == TimeRange::Last(since, ts),
//@end
}
//@item src/query/src/physical_plan/expressions/segmentation/boolean_op.rs Operator | vis=keep
pub open spec fn meets(k: Operator, l: int, r: int) -> bool { match k { Operator::Eq => l == r, Operator::NotEq => l != r, Operator::Lt => l < r, Operator::LtEq => l <= r, Operator::Gt => l > r, Operator::GtEq => l >= r } }
pub trait ComparisonOp<T>: Sized {
    spec fn kind() -> Operator;
    spec fn fit() -> bool;
    spec fn holds(left: T, right: T) -> bool;
//@fn src/query/src/physical_plan/expressions/segmentation/boolean_op.rs ComparisonOp::perform | ret=r block
//@contract
    requires Self::fit(),
    ensures r == Self::holds(left, right),
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/boolean_op.rs ComparisonOp::op | ret=r block
//@contract
    ensures r == Self::kind(),
//@end
}
//@item src/query/src/physical_plan/expressions/segmentation/boolean_op.rs self::Eq | vis=keep
impl<T> ComparisonOp<T> for Eq where T: PartialEq {
    open spec fn kind() -> Operator { Operator::Eq }
    open spec fn fit() -> bool { T::obeys_eq_spec() }
    open spec fn holds(left: T, right: T) -> bool { T::eq_spec(&left, &right) }
//@fn src/query/src/physical_plan/expressions/segmentation/boolean_op.rs [ComparisonOp<T> for Eq]::perform | ret=r
//@fn src/query/src/physical_plan/expressions/segmentation/boolean_op.rs [ComparisonOp<T> for Eq]::op | ret=r
}
/// what the operator decides on integers is what it says
pub proof fn lemma_eq_i64(l: i64, r: i64) ensures Eq::holds(l, r) == meets(Operator::Eq, l as int, r as int), <Eq as ComparisonOp<i64>>::fit() { }
pub proof fn lemma_eq_i128(l: i128, r: i128) ensures Eq::holds(l, r) == meets(Operator::Eq, l as int, r as int), <Eq as ComparisonOp<i128>>::fit() { }
//@item src/query/src/physical_plan/expressions/segmentation/boolean_op.rs self::NotEq | vis=keep
impl<T> ComparisonOp<T> for NotEq where T: PartialEq {
    open spec fn kind() -> Operator { Operator::NotEq }
    open spec fn fit() -> bool { T::obeys_eq_spec() }
    open spec fn holds(left: T, right: T) -> bool { !T::eq_spec(&left, &right) }
//@fn src/query/src/physical_plan/expressions/segmentation/boolean_op.rs [ComparisonOp<T> for NotEq]::perform | ret=r
//@fn src/query/src/physical_plan/expressions/segmentation/boolean_op.rs [ComparisonOp<T> for NotEq]::op | ret=r
}
/// what the operator decides on integers is what it says
pub proof fn lemma_noteq_i64(l: i64, r: i64) ensures NotEq::holds(l, r) == meets(Operator::NotEq, l as int, r as int), <NotEq as ComparisonOp<i64>>::fit() { }
pub proof fn lemma_noteq_i128(l: i128, r: i128) ensures NotEq::holds(l, r) == meets(Operator::NotEq, l as int, r as int), <NotEq as ComparisonOp<i128>>::fit() { }
//@item src/query/src/physical_plan/expressions/segmentation/boolean_op.rs self::Gt | vis=keep
impl<T> ComparisonOp<T> for Gt where T: Ord {
    open spec fn kind() -> Operator { Operator::Gt }
    open spec fn fit() -> bool { T::obeys_partial_cmp_spec() }
    open spec fn holds(left: T, right: T) -> bool { T::partial_cmp_spec(&left, &right) == Some(core::cmp::Ordering::Greater) }
//@fn src/query/src/physical_plan/expressions/segmentation/boolean_op.rs [ComparisonOp<T> for Gt]::perform | ret=r
//@fn src/query/src/physical_plan/expressions/segmentation/boolean_op.rs [ComparisonOp<T> for Gt]::op | ret=r
}
/// what the operator decides on integers is what it says
pub proof fn lemma_gt_i64(l: i64, r: i64) ensures Gt::holds(l, r) == meets(Operator::Gt, l as int, r as int), <Gt as ComparisonOp<i64>>::fit() { }
pub proof fn lemma_gt_i128(l: i128, r: i128) ensures Gt::holds(l, r) == meets(Operator::Gt, l as int, r as int), <Gt as ComparisonOp<i128>>::fit() { }
//@item src/query/src/physical_plan/expressions/segmentation/boolean_op.rs self::Lt | vis=keep
impl<T> ComparisonOp<T> for Lt where T: Ord {
    open spec fn kind() -> Operator { Operator::Lt }
    open spec fn fit() -> bool { T::obeys_partial_cmp_spec() }
    open spec fn holds(left: T, right: T) -> bool { T::partial_cmp_spec(&left, &right) == Some(core::cmp::Ordering::Less) }
//@fn src/query/src/physical_plan/expressions/segmentation/boolean_op.rs [ComparisonOp<T> for Lt]::perform | ret=r
//@fn src/query/src/physical_plan/expressions/segmentation/boolean_op.rs [ComparisonOp<T> for Lt]::op | ret=r
}
/// what the operator decides on integers is what it says
pub proof fn lemma_lt_i64(l: i64, r: i64) ensures Lt::holds(l, r) == meets(Operator::Lt, l as int, r as int), <Lt as ComparisonOp<i64>>::fit() { }
pub proof fn lemma_lt_i128(l: i128, r: i128) ensures Lt::holds(l, r) == meets(Operator::Lt, l as int, r as int), <Lt as ComparisonOp<i128>>::fit() { }
//@item src/query/src/physical_plan/expressions/segmentation/boolean_op.rs self::GtEq | vis=keep
impl<T> ComparisonOp<T> for GtEq where T: Ord {
    open spec fn kind() -> Operator { Operator::GtEq }
    open spec fn fit() -> bool { T::obeys_partial_cmp_spec() }
    open spec fn holds(left: T, right: T) -> bool { T::partial_cmp_spec(&left, &right) == Some(core::cmp::Ordering::Greater) || T::partial_cmp_spec(&left, &right) == Some(core::cmp::Ordering::Equal) }
//@fn src/query/src/physical_plan/expressions/segmentation/boolean_op.rs [ComparisonOp<T> for GtEq]::perform | ret=r
//@fn src/query/src/physical_plan/expressions/segmentation/boolean_op.rs [ComparisonOp<T> for GtEq]::op | ret=r
}
/// what the operator decides on integers is what it says
pub proof fn lemma_gteq_i64(l: i64, r: i64) ensures GtEq::holds(l, r) == meets(Operator::GtEq, l as int, r as int), <GtEq as ComparisonOp<i64>>::fit() { }
pub proof fn lemma_gteq_i128(l: i128, r: i128) ensures GtEq::holds(l, r) == meets(Operator::GtEq, l as int, r as int), <GtEq as ComparisonOp<i128>>::fit() { }
//@item src/query/src/physical_plan/expressions/segmentation/boolean_op.rs self::LtEq | vis=keep
impl<T> ComparisonOp<T> for LtEq where T: Ord {
    open spec fn kind() -> Operator { Operator::LtEq }
    open spec fn fit() -> bool { T::obeys_partial_cmp_spec() }
    open spec fn holds(left: T, right: T) -> bool { T::partial_cmp_spec(&left, &right) == Some(core::cmp::Ordering::Less) || T::partial_cmp_spec(&left, &right) == Some(core::cmp::Ordering::Equal) }
//@fn src/query/src/physical_plan/expressions/segmentation/boolean_op.rs [ComparisonOp<T> for LtEq]::perform | ret=r
//@fn src/query/src/physical_plan/expressions/segmentation/boolean_op.rs [ComparisonOp<T> for LtEq]::op | ret=r
}
/// what the operator decides on integers is what it says
pub proof fn lemma_lteq_i64(l: i64, r: i64) ensures LtEq::holds(l, r) == meets(Operator::LtEq, l as int, r as int), <LtEq as ComparisonOp<i64>>::fit() { }
pub proof fn lemma_lteq_i128(l: i128, r: i128) ensures LtEq::holds(l, r) == meets(Operator::LtEq, l as int, r as int), <LtEq as ComparisonOp<i128>>::fit() { }

//@item src/query/src/physical_plan/expressions/segmentation/count.rs self::Inner | vis=keep
//@item src/query/src/physical_plan/expressions/segmentation/count.rs self::Count | vis=keep
pub closed spec fn rep(n: Inner, s: St<()>) -> bool { n.first == s.first && n.last_partition == s.last && n.count == s.vals.len() && n.res@ == s.res }
pub closed spec fn counted(n: Inner) -> int { n.count as int }
impl<Op> Count<Op> {
    pub closed spec fn st(&self) -> Inner { self.inner }
    /// row i: its user, and whether the condition's filter and time range take it
    pub closed spec fn row(&self, b: RecordBatch, i: int) -> (i64, Option<()>) { (on::<i64>(self.partition_col.id(), b)[i]->0, if within(self.time_range, on::<i64>(self.ts_col.id(), b)[i]->0 as int) && on::<bool>(self.filter.id(), b)[i] == Some(true) { Some(()) } else { None }) }
    pub open spec fn rows(&self, b: RecordBatch) -> Seq<(i64, Option<()>)> { Seq::new(rows_of(b), |i: int| self.row(b, i)) }
    pub closed spec fn whole(&self, b: RecordBatch) -> bool { (forall|i: int| 0 <= i < rows_of(b) ==> (#[trigger] on::<i64>(self.partition_col.id(), b)[i]) is Some) && (forall|i: int| 0 <= i < rows_of(b) ==> (#[trigger] on::<i64>(self.ts_col.id(), b)[i]) is Some) && sane(self.time_range) }
    pub closed spec fn same(&self, o: &Self) -> bool { self.filter == o.filter && self.ts_col == o.ts_col && self.partition_col == o.partition_col && self.time_range == o.time_range && self.right == o.right }
    pub closed spec fn set(&self, filter: PhysicalExprRef, ts_col: Column, partition_col: Column, time_range: TimeRange, right: i64) -> bool { self.filter == filter && self.ts_col == ts_col && self.partition_col == partition_col && self.time_range == time_range && self.right == right }
    pub closed spec fn bound(&self) -> i64 { self.right }
}
pub open spec fn asked<Op: ComparisonOp<i64>>(right: i64) -> spec_fn(Seq<()>) -> bool { |v: Seq<()>| meets(Op::kind(), v.len() as int, right as int) }
impl<Op> Count<Op> {
//@fn src/query/src/physical_plan/expressions/segmentation/count.rs Count::new | ret=r block vis=keep
//@contract
    ensures rep(r.st(), start()), r.set(filter, ts_col, partition_col, time_range, right),
//@end
}
impl<Op: ComparisonOp<i64>> Count<Op> {
//@fn src/query/src/physical_plan/expressions/segmentation/count.rs [SegmentExpr for Count<Op>]::evaluate | ret=r mut_self block vis=keep
//@contract
    requires old(self).whole(*batch), 0 <= counted(old(self).st()), counted(old(self).st()) + rows_of(*batch) <= i64::MAX,
    ensures final(self).same(old(self)), r is Ok ==> forall|s: St<()>| #[trigger] rep(old(self).st(), s) ==> rep(final(self).st(), steps(s, old(self).rows(*batch), asked::<Op>(old(self).bound()))),
//@loop 0 iter=it
    invariant
        ts@ == on::<i64>(old(self).ts_col.id(), *batch), filter@ == on::<bool>(old(self).filter.id(), *batch), ts@.len() == filter@.len() == rows_of(*batch), it.seq().len() == rows_of(*batch),
        forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i64>(old(self).partition_col.id(), *batch)[i]),
        old(self).whole(*batch), 0 <= inner.count <= counted(old(self).st()) + it.index@, counted(old(self).st()) + rows_of(*batch) <= i64::MAX,
        forall|s: St<()>| #[trigger] rep(old(self).st(), s) ==> rep(*inner, steps(s, old(self).rows(*batch).take(it.index@), asked::<Op>(old(self).bound()))),
//@loopstart 0
    proof { let rs = old(self).rows(*batch); let k = it.index@; assert(it.seq()[k] == (k as usize, on::<i64>(old(self).partition_col.id(), *batch)[k])); assert(rs.take(k + 1).drop_last() =~= rs.take(k)); assert(rs.take(k + 1).last() == rs[k]); assert(on::<i64>(old(self).partition_col.id(), *batch)[k] is Some); assert(on::<i64>(old(self).ts_col.id(), *batch)[k] is Some); }
//@start
    proof { let rs = old(self).rows(*batch); assert(rs.take(rs.len() as int) =~= rs); }
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/count.rs [SegmentExpr for Count<Op>]::finalize | ret=r mut_self block vis=keep
//@contract
    ensures r is Ok, forall|s: St<()>| #[trigger] rep(old(self).st(), s) ==> r->Ok_0@ == close(s, asked::<Op>(old(self).bound())),
//@end
}
}

pub mod aggregate { use super::*; use crate::seg::*; broadcast use {crate::axiom_arr_len};
//@item src/query/src/physical_plan/expressions/segmentation/aggregate.rs self::Inner | vis=keep
//@item src/query/src/physical_plan/expressions/segmentation/aggregate.rs self::Aggregate | vis=keep
pub closed spec fn rep<OT: Copy>(n: Inner<OT>, s: St<OT>) -> bool { n.first == s.first && n.last_partition == s.last && n.agg == folded(n.agg, s.vals) && n.empty == (s.vals.len() == 0) && n.res@ == s.res }
pub closed spec fn kind_of<OT: Copy>(n: Inner<OT>) -> AggregateFunction<OT> { fresh(n.agg) }
impl<T, OT: Copy, Op> Aggregate<T, OT, Op> {
    pub closed spec fn st(&self) -> Inner<OT> { self.inner }
    /// row i: its user, and the property's value if the condition's filter and time range take the row and it has one
    pub closed spec fn row<P>(&self, b: RecordBatch, conv: spec_fn(P) -> OT, i: int) -> (i64, Option<OT>) { (on::<i64>(self.partition_col.id(), b)[i]->0, if within(self.time_range, on::<i64>(self.ts_col.id(), b)[i]->0 as int) && on::<bool>(self.filter.id(), b)[i] == Some(true) && on::<P>(self.predicate.id(), b)[i] is Some { Some(conv(on::<P>(self.predicate.id(), b)[i]->0)) } else { None }) }
    pub open spec fn rows<P>(&self, b: RecordBatch, conv: spec_fn(P) -> OT) -> Seq<(i64, Option<OT>)> { Seq::new(rows_of(b), |i: int| self.row(b, conv, i)) }
    pub closed spec fn whole(&self, b: RecordBatch) -> bool { (forall|i: int| 0 <= i < rows_of(b) ==> (#[trigger] on::<i64>(self.partition_col.id(), b)[i]) is Some) && (forall|i: int| 0 <= i < rows_of(b) ==> (#[trigger] on::<i64>(self.ts_col.id(), b)[i]) is Some) && sane(self.time_range) }
    pub closed spec fn same(&self, o: &Self) -> bool { self.filter == o.filter && self.predicate == o.predicate && self.ts_col == o.ts_col && self.partition_col == o.partition_col && self.time_range == o.time_range && self.right == o.right }
    pub closed spec fn set(&self, filter: PhysicalExprRef, ts_col: Column, partition_col: Column, predicate: Column, time_range: TimeRange, right: OT) -> bool { self.filter == filter && self.ts_col == ts_col && self.partition_col == partition_col && self.predicate == predicate && self.time_range == time_range && self.right == right }
    pub closed spec fn bound(&self) -> OT { self.right }
}
/// the condition holds of a user that has values and whose aggregate compares as asked
pub open spec fn asked<OT: Copy, Op: ComparisonOp<OT>>(a: AggregateFunction<OT>, right: OT) -> spec_fn(Seq<OT>) -> bool { |v: Seq<OT>| v.len() > 0 && Op::holds(value_of(folded(a, v)), right) }
proof fn lemma_rep<OT: Copy, Op: ComparisonOp<OT>>(n: Inner<OT>, s: St<OT>, a: AggregateFunction<OT>, right: OT) requires rep(n, s), kind_of(n) == fresh(a) ensures asked::<OT, Op>(a, right)(s.vals) == (!n.empty && Op::holds(value_of(n.agg), right)) { lemma_folded_kind(n.agg, a, s.vals); }
pub proof fn lemma_folded_kind<OT: Copy>(a: AggregateFunction<OT>, b: AggregateFunction<OT>, vs: Seq<OT>) requires fresh(a) == fresh(b) ensures folded(a, vs) == folded(b, vs) decreases vs.len() { if vs.len() > 0 { lemma_folded_kind(a, b, vs.drop_last()); } }
/// one row, from the state it finds to the state it leaves
proof fn lemma_row<OT: Copy, Op: ComparisonOp<OT>>(n: Inner<OT>, m: Inner<OT>, s: St<OT>, row: (i64, Option<OT>), a: AggregateFunction<OT>, right: OT)
    requires rep(n, s), kind_of(n) == fresh(a), !m.first, m.last_partition == row.0,
        ({ let moved = !n.first && n.last_partition != row.0; let base = if moved { fresh(n.agg) } else { n.agg };
           &&& m.res@ == if moved { n.res@.push(if !n.empty && Op::holds(value_of(n.agg), right) { Some(n.last_partition) } else { None }) } else { n.res@ }
           &&& m.agg == match row.1 { Some(v) => took(base, v), None => base }
           &&& m.empty == (row.1 is None && (moved || n.empty)) }),
    ensures rep(m, step(s, row, asked::<OT, Op>(a, right))), kind_of(m) == fresh(a)
{
    lemma_rep::<OT, Op>(n, s, a, right); lemma_kind(n.agg, s.vals); let t = step(s, row, asked::<OT, Op>(a, right));
    let moved = !n.first && n.last_partition != row.0; let base = if moved { fresh(n.agg) } else { n.agg }; let vs = if moved { Seq::empty() } else { s.vals };
    assert(folded(a, Seq::<OT>::empty()) == fresh(a)); lemma_folded_kind(n.agg, a, s.vals); lemma_kind(a, vs); assert(base == folded(a, vs));
    match row.1 { Some(v) => { lemma_took(a, vs, v); lemma_kind(a, vs.push(v)); lemma_folded_kind(m.agg, a, t.vals); } None => { lemma_folded_kind(m.agg, a, t.vals); } }
}
impl<T, OT: Copy, Op> Aggregate<T, OT, Op> {
//@fn src/query/src/physical_plan/expressions/segmentation/aggregate.rs Aggregate::new | ret=r block vis=keep
//@contract
    requires agg == fresh(agg),
    ensures rep(r.st(), start()), kind_of(r.st()) == agg, r.set(filter, ts_col, partition_col, predicate, time_range, right),
//@start
    proof { lemma_kind(agg, Seq::<OT>::empty()); assert(folded(agg, Seq::<OT>::empty()) == fresh(agg)); }
//@end
}

impl<Op: ComparisonOp<i128>> Aggregate<i64, i128, Op> {
//@fn exp:agg(i64,Int64Array,i128)@src/query/src/physical_plan/expressions/segmentation/aggregate.rs [SegmentExpr for Aggregate<i64,i128,Op>]::evaluate | ret=r mut_self block vis=keep
//@contract
    requires old(self).whole(*batch), Op::fit(),
    ensures final(self).same(old(self)), kind_of(final(self).st()) == kind_of(old(self).st()), r is Ok ==> forall|s: St<i128>| #[trigger] rep(old(self).st(), s) ==> rep(final(self).st(), steps(s, old(self).rows(*batch, |v: i64| v as i128), asked::<i128, Op>(kind_of(old(self).st()), old(self).bound()))),
//@start
    proof { let rs = old(self).rows(*batch, |v: i64| v as i128); assert(rs.take(rs.len() as int) =~= rs); lemma_kind(old(self).st().agg, Seq::<i128>::empty()); }
//@loop 0 iter=it
    invariant
        ts@ == on::<i64>(old(self).ts_col.id(), *batch), filter@ == on::<bool>(old(self).filter.id(), *batch), predicate@ == on::<i64>(old(self).predicate.id(), *batch), ts@.len() == filter@.len() == predicate@.len() == rows_of(*batch), it.seq().len() == rows_of(*batch),
        forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i64>(old(self).partition_col.id(), *batch)[i]),
        old(self).whole(*batch), kind_of(*inner) == kind_of(old(self).st()),
        forall|s: St<i128>| #[trigger] rep(old(self).st(), s) ==> rep(*inner, steps(s, old(self).rows(*batch, |v: i64| v as i128).take(it.index@), asked::<i128, Op>(kind_of(old(self).st()), old(self).bound()))),
//@loopstart 0
    let ghost before = *inner; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, |v: i64| v as i128);
    proof { assert(it.seq()[k] == (k as usize, on::<i64>(old(self).partition_col.id(), *batch)[k])); assert(rs.take(k + 1).drop_last() =~= rs.take(k)); assert(rs.take(k + 1).last() == rs[k]); assert(on::<i64>(old(self).partition_col.id(), *batch)[k] is Some); assert(on::<i64>(old(self).ts_col.id(), *batch)[k] is Some); }
//@loopend 0
    proof { assert forall|s: St<i128>| #[trigger] rep(old(self).st(), s) implies rep(*inner, steps(s, rs.take(k + 1), asked::<i128, Op>(kind_of(old(self).st()), old(self).bound()))) by { lemma_kind(old(self).st().agg, Seq::<i128>::empty()); lemma_row::<i128, Op>(before, *inner, steps(s, rs.take(k), asked::<i128, Op>(kind_of(old(self).st()), old(self).bound())), rs[k], kind_of(old(self).st()), old(self).bound()); } }
//@end
//@fn exp:agg(i64,Int64Array,i128)@src/query/src/physical_plan/expressions/segmentation/aggregate.rs [SegmentExpr for Aggregate<i64,i128,Op>]::finalize | ret=r mut_self block vis=keep
//@contract
    requires Op::fit(),
    ensures r is Ok, forall|s: St<i128>| #[trigger] rep(old(self).st(), s) ==> r->Ok_0@ == close(s, asked::<i128, Op>(kind_of(old(self).st()), old(self).bound())),
//@start
    proof { let n = old(self).st(); lemma_kind(n.agg, Seq::<i128>::empty()); assert forall|s: St<i128>| #[trigger] rep(n, s) implies asked::<i128, Op>(kind_of(n), old(self).bound())(s.vals) == (!n.empty && Op::holds(value_of(n.agg), old(self).bound())) by { lemma_rep::<i128, Op>(n, s, kind_of(n), old(self).bound()); } }
//@end
}
impl<Op: ComparisonOp<i128>> Aggregate<Decimal128Array, i128, Op> {
//@fn exp:agg(Decimal128Array,Decimal128Array,i128)@src/query/src/physical_plan/expressions/segmentation/aggregate.rs [SegmentExpr for Aggregate<Decimal128Array,i128,Op>]::evaluate | ret=r mut_self block vis=keep
//@contract
    requires old(self).whole(*batch), Op::fit(),
    ensures final(self).same(old(self)), kind_of(final(self).st()) == kind_of(old(self).st()), r is Ok ==> forall|s: St<i128>| #[trigger] rep(old(self).st(), s) ==> rep(final(self).st(), steps(s, old(self).rows(*batch, |v: i128| v as i128), asked::<i128, Op>(kind_of(old(self).st()), old(self).bound()))),
//@start
    proof { let rs = old(self).rows(*batch, |v: i128| v as i128); assert(rs.take(rs.len() as int) =~= rs); lemma_kind(old(self).st().agg, Seq::<i128>::empty()); }
//@loop 0 iter=it
    invariant
        ts@ == on::<i64>(old(self).ts_col.id(), *batch), filter@ == on::<bool>(old(self).filter.id(), *batch), predicate@ == on::<i128>(old(self).predicate.id(), *batch), ts@.len() == filter@.len() == predicate@.len() == rows_of(*batch), it.seq().len() == rows_of(*batch),
        forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i64>(old(self).partition_col.id(), *batch)[i]),
        old(self).whole(*batch), kind_of(*inner) == kind_of(old(self).st()),
        forall|s: St<i128>| #[trigger] rep(old(self).st(), s) ==> rep(*inner, steps(s, old(self).rows(*batch, |v: i128| v as i128).take(it.index@), asked::<i128, Op>(kind_of(old(self).st()), old(self).bound()))),
//@loopstart 0
    let ghost before = *inner; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, |v: i128| v as i128);
    proof { assert(it.seq()[k] == (k as usize, on::<i64>(old(self).partition_col.id(), *batch)[k])); assert(rs.take(k + 1).drop_last() =~= rs.take(k)); assert(rs.take(k + 1).last() == rs[k]); assert(on::<i64>(old(self).partition_col.id(), *batch)[k] is Some); assert(on::<i64>(old(self).ts_col.id(), *batch)[k] is Some); }
//@loopend 0
    proof { assert forall|s: St<i128>| #[trigger] rep(old(self).st(), s) implies rep(*inner, steps(s, rs.take(k + 1), asked::<i128, Op>(kind_of(old(self).st()), old(self).bound()))) by { lemma_kind(old(self).st().agg, Seq::<i128>::empty()); lemma_row::<i128, Op>(before, *inner, steps(s, rs.take(k), asked::<i128, Op>(kind_of(old(self).st()), old(self).bound())), rs[k], kind_of(old(self).st()), old(self).bound()); } }
//@end
//@fn exp:agg(Decimal128Array,Decimal128Array,i128)@src/query/src/physical_plan/expressions/segmentation/aggregate.rs [SegmentExpr for Aggregate<Decimal128Array,i128,Op>]::finalize | ret=r mut_self block vis=keep
//@contract
    requires Op::fit(),
    ensures r is Ok, forall|s: St<i128>| #[trigger] rep(old(self).st(), s) ==> r->Ok_0@ == close(s, asked::<i128, Op>(kind_of(old(self).st()), old(self).bound())),
//@start
    proof { let n = old(self).st(); lemma_kind(n.agg, Seq::<i128>::empty()); assert forall|s: St<i128>| #[trigger] rep(n, s) implies asked::<i128, Op>(kind_of(n), old(self).bound())(s.vals) == (!n.empty && Op::holds(value_of(n.agg), old(self).bound())) by { lemma_rep::<i128, Op>(n, s, kind_of(n), old(self).bound()); } }
//@end
}
impl<Op: ComparisonOp<i64>> Aggregate<i32, i64, Op> {
//@fn exp:agg(i32,Int32Array,i64)@src/query/src/physical_plan/expressions/segmentation/aggregate.rs [SegmentExpr for Aggregate<i32,i64,Op>]::evaluate | ret=r mut_self block vis=keep
//@contract
    requires old(self).whole(*batch), Op::fit(),
    ensures final(self).same(old(self)), kind_of(final(self).st()) == kind_of(old(self).st()), r is Ok ==> forall|s: St<i64>| #[trigger] rep(old(self).st(), s) ==> rep(final(self).st(), steps(s, old(self).rows(*batch, |v: i32| v as i64), asked::<i64, Op>(kind_of(old(self).st()), old(self).bound()))),
//@start
    proof { let rs = old(self).rows(*batch, |v: i32| v as i64); assert(rs.take(rs.len() as int) =~= rs); lemma_kind(old(self).st().agg, Seq::<i64>::empty()); }
//@loop 0 iter=it
    invariant
        ts@ == on::<i64>(old(self).ts_col.id(), *batch), filter@ == on::<bool>(old(self).filter.id(), *batch), predicate@ == on::<i32>(old(self).predicate.id(), *batch), ts@.len() == filter@.len() == predicate@.len() == rows_of(*batch), it.seq().len() == rows_of(*batch),
        forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i64>(old(self).partition_col.id(), *batch)[i]),
        old(self).whole(*batch), kind_of(*inner) == kind_of(old(self).st()),
        forall|s: St<i64>| #[trigger] rep(old(self).st(), s) ==> rep(*inner, steps(s, old(self).rows(*batch, |v: i32| v as i64).take(it.index@), asked::<i64, Op>(kind_of(old(self).st()), old(self).bound()))),
//@loopstart 0
    let ghost before = *inner; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, |v: i32| v as i64);
    proof { assert(it.seq()[k] == (k as usize, on::<i64>(old(self).partition_col.id(), *batch)[k])); assert(rs.take(k + 1).drop_last() =~= rs.take(k)); assert(rs.take(k + 1).last() == rs[k]); assert(on::<i64>(old(self).partition_col.id(), *batch)[k] is Some); assert(on::<i64>(old(self).ts_col.id(), *batch)[k] is Some); }
//@loopend 0
    proof { assert forall|s: St<i64>| #[trigger] rep(old(self).st(), s) implies rep(*inner, steps(s, rs.take(k + 1), asked::<i64, Op>(kind_of(old(self).st()), old(self).bound()))) by { lemma_kind(old(self).st().agg, Seq::<i64>::empty()); lemma_row::<i64, Op>(before, *inner, steps(s, rs.take(k), asked::<i64, Op>(kind_of(old(self).st()), old(self).bound())), rs[k], kind_of(old(self).st()), old(self).bound()); } }
//@end
//@fn exp:agg(i32,Int32Array,i64)@src/query/src/physical_plan/expressions/segmentation/aggregate.rs [SegmentExpr for Aggregate<i32,i64,Op>]::finalize | ret=r mut_self block vis=keep
//@contract
    requires Op::fit(),
    ensures r is Ok, forall|s: St<i64>| #[trigger] rep(old(self).st(), s) ==> r->Ok_0@ == close(s, asked::<i64, Op>(kind_of(old(self).st()), old(self).bound())),
//@start
    proof { let n = old(self).st(); lemma_kind(n.agg, Seq::<i64>::empty()); assert forall|s: St<i64>| #[trigger] rep(n, s) implies asked::<i64, Op>(kind_of(n), old(self).bound())(s.vals) == (!n.empty && Op::holds(value_of(n.agg), old(self).bound())) by { lemma_rep::<i64, Op>(n, s, kind_of(n), old(self).bound()); } }
//@end
}
impl<Op: ComparisonOp<i128>> Aggregate<u64, i128, Op> {
//@fn exp:agg(u64,UInt64Array,i128)@src/query/src/physical_plan/expressions/segmentation/aggregate.rs [SegmentExpr for Aggregate<u64,i128,Op>]::evaluate | ret=r mut_self block vis=keep
//@contract
    requires old(self).whole(*batch), Op::fit(),
    ensures final(self).same(old(self)), kind_of(final(self).st()) == kind_of(old(self).st()), r is Ok ==> forall|s: St<i128>| #[trigger] rep(old(self).st(), s) ==> rep(final(self).st(), steps(s, old(self).rows(*batch, |v: u64| v as i128), asked::<i128, Op>(kind_of(old(self).st()), old(self).bound()))),
//@start
    proof { let rs = old(self).rows(*batch, |v: u64| v as i128); assert(rs.take(rs.len() as int) =~= rs); lemma_kind(old(self).st().agg, Seq::<i128>::empty()); }
//@loop 0 iter=it
    invariant
        ts@ == on::<i64>(old(self).ts_col.id(), *batch), filter@ == on::<bool>(old(self).filter.id(), *batch), predicate@ == on::<u64>(old(self).predicate.id(), *batch), ts@.len() == filter@.len() == predicate@.len() == rows_of(*batch), it.seq().len() == rows_of(*batch),
        forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i64>(old(self).partition_col.id(), *batch)[i]),
        old(self).whole(*batch), kind_of(*inner) == kind_of(old(self).st()),
        forall|s: St<i128>| #[trigger] rep(old(self).st(), s) ==> rep(*inner, steps(s, old(self).rows(*batch, |v: u64| v as i128).take(it.index@), asked::<i128, Op>(kind_of(old(self).st()), old(self).bound()))),
//@loopstart 0
    let ghost before = *inner; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, |v: u64| v as i128);
    proof { assert(it.seq()[k] == (k as usize, on::<i64>(old(self).partition_col.id(), *batch)[k])); assert(rs.take(k + 1).drop_last() =~= rs.take(k)); assert(rs.take(k + 1).last() == rs[k]); assert(on::<i64>(old(self).partition_col.id(), *batch)[k] is Some); assert(on::<i64>(old(self).ts_col.id(), *batch)[k] is Some); }
//@loopend 0
    proof { assert forall|s: St<i128>| #[trigger] rep(old(self).st(), s) implies rep(*inner, steps(s, rs.take(k + 1), asked::<i128, Op>(kind_of(old(self).st()), old(self).bound()))) by { lemma_kind(old(self).st().agg, Seq::<i128>::empty()); lemma_row::<i128, Op>(before, *inner, steps(s, rs.take(k), asked::<i128, Op>(kind_of(old(self).st()), old(self).bound())), rs[k], kind_of(old(self).st()), old(self).bound()); } }
//@end
//@fn exp:agg(u64,UInt64Array,i128)@src/query/src/physical_plan/expressions/segmentation/aggregate.rs [SegmentExpr for Aggregate<u64,i128,Op>]::finalize | ret=r mut_self block vis=keep
//@contract
    requires Op::fit(),
    ensures r is Ok, forall|s: St<i128>| #[trigger] rep(old(self).st(), s) ==> r->Ok_0@ == close(s, asked::<i128, Op>(kind_of(old(self).st()), old(self).bound())),
//@start
    proof { let n = old(self).st(); lemma_kind(n.agg, Seq::<i128>::empty()); assert forall|s: St<i128>| #[trigger] rep(n, s) implies asked::<i128, Op>(kind_of(n), old(self).bound())(s.vals) == (!n.empty && Op::holds(value_of(n.agg), old(self).bound())) by { lemma_rep::<i128, Op>(n, s, kind_of(n), old(self).bound()); } }
//@end
}
}

#[verifier::external_body]
pub fn or_else_of(l: Option<i64>, r: Option<i64>) -> (o: Option<i64>) ensures o == if l is Some { l } else { r } { l.or(r) }
pub mod comparison { use super::*; use crate::seg::*; broadcast use {crate::axiom_arr_len};
#[verifier::external_body] pub struct Cond { x: u8 }
/// the batches a condition has been given
pub uninterp spec fn fed(c: Cond) -> Seq<RecordBatch>;
pub uninterp spec fn entries(c: Cond) -> Seq<Option<i64>>;
impl Cond {
    #[verifier::external_body] pub fn evaluate(&mut self, b: &RecordBatch) -> (r: Result<()>) ensures r is Ok ==> fed(*final(self)) == fed(*old(self)).push(*b) { unimplemented!() }
    #[verifier::external_body] pub fn finalize(&mut self) -> (r: Result<Int64Array>) ensures r is Ok ==> r->Ok_0@ == entries(*old(self)) { unimplemented!() }
}
pub open spec fn both(l: Option<i64>, r: Option<i64>) -> Option<i64> { if l is Some && r is Some { l } else { None } }
pub open spec fn either(l: Option<i64>, r: Option<i64>) -> Option<i64> { if l is Some { l } else { r } }
pub open spec fn common(l: Seq<Option<i64>>, r: Seq<Option<i64>>) -> nat { if l.len() <= r.len() { l.len() } else { r.len() } }
#[verifier::external_body] pub fn zipped(l: &Int64Array, r: &Int64Array) -> (v: Vec<(Option<i64>, Option<i64>)>) ensures v@.len() == common(l@, r@), forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == (l@[i], r@[i]) { unimplemented!() }
//@item src/query/src/physical_plan/expressions/segmentation/comparison.rs AndInner | vis=keep
//@item src/query/src/physical_plan/expressions/segmentation/comparison.rs self::And | vis=keep
//@item src/query/src/physical_plan/expressions/segmentation/comparison.rs self::Or | vis=keep
impl And {
    pub closed spec fn l(&self) -> Cond { self.inner.left }
    pub closed spec fn r(&self) -> Cond { self.inner.right }
//@fn src/query/src/physical_plan/expressions/segmentation/comparison.rs And::new | ret=r block vis=keep
//@contract
    ensures r.l() == left, r.r() == right,
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/comparison.rs And::and | ret=r block vis=keep loops=0
//@rule left . iter ( ) . zip ( right . iter ( ) ) . for_each ( | ( l , r ) | $body ) ; =>> for (l, r) in it_: zipped(&left, &right) invariant it_.seq().len() == common(left@, right@), forall|i: int| 0 <= i < it_.seq().len() ==> #[trigger] it_.seq()[i] == (left@[i], right@[i]), out@.len() == it_.index@, forall|i: int| 0 <= i < it_.index@ ==> #[trigger] out@[i] == both(left@[i], right@[i]), $body
//@contract
    ensures r@.len() == common(left@, right@), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == both(left@[i], right@[i]),
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/comparison.rs [SegmentExpr for And]::evaluate | ret=r mut_self block vis=keep
//@contract
    ensures r is Ok ==> fed(final(self).l()) == fed(old(self).l()).push(*batch) && fed(final(self).r()) == fed(old(self).r()).push(*batch),
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/comparison.rs [SegmentExpr for And]::finalize | ret=r mut_self block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0@.len() == common(entries(old(self).l()), entries(old(self).r())) && forall|i: int| 0 <= i < r->Ok_0@.len() ==> #[trigger] r->Ok_0@[i] == both(entries(old(self).l())[i], entries(old(self).r())[i]),
//@end
}
impl Or {
    pub closed spec fn l(&self) -> Cond { self.inner.left }
    pub closed spec fn r(&self) -> Cond { self.inner.right }
//@fn src/query/src/physical_plan/expressions/segmentation/comparison.rs Or::new | ret=r block vis=keep
//@contract
    ensures r.l() == left, r.r() == right,
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/comparison.rs Or::or | ret=r block vis=keep loops=0
//@rule left . iter ( ) . zip ( right . iter ( ) ) . for_each ( | ( l , r ) | $body ) ; =>> for (l, r) in it_: zipped(&left, &right) invariant it_.seq().len() == common(left@, right@), forall|i: int| 0 <= i < it_.seq().len() ==> #[trigger] it_.seq()[i] == (left@[i], right@[i]), out@.len() == it_.index@, forall|i: int| 0 <= i < it_.index@ ==> #[trigger] out@[i] == either(left@[i], right@[i]), $body
//@contract
    ensures r@.len() == common(left@, right@), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == either(left@[i], right@[i]),
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/comparison.rs [SegmentExpr for Or]::evaluate | ret=r mut_self block vis=keep
//@contract
    ensures r is Ok ==> fed(final(self).l()) == fed(old(self).l()).push(*batch) && fed(final(self).r()) == fed(old(self).r()).push(*batch),
//@end
//@fn src/query/src/physical_plan/expressions/segmentation/comparison.rs [SegmentExpr for Or]::finalize | ret=r mut_self block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0@.len() == common(entries(old(self).l()), entries(old(self).r())) && forall|i: int| 0 <= i < r->Ok_0@.len() ==> #[trigger] r->Ok_0@[i] == either(entries(old(self).l())[i], entries(old(self).r())[i]),
//@end
}
/// conditions over the same rows have one entry per user in the same order, so the user an entry stands for is marked
/// by `and` when both mark it and by `or` when either does
pub proof fn lemma_users(us: Seq<i64>, l: Seq<Option<i64>>, r: Seq<Option<i64>>, i: int)
    requires l.len() == us.len() == r.len(), 0 <= i < us.len(), forall|i: int| 0 <= i < us.len() ==> ((#[trigger] l[i]) is Some ==> l[i] == Some(us[i])), forall|i: int| 0 <= i < us.len() ==> ((#[trigger] r[i]) is Some ==> r[i] == Some(us[i])),
    ensures both(l[i], r[i]) == if l[i] is Some && r[i] is Some { Some(us[i]) } else { None }, either(l[i], r[i]) == if l[i] is Some || r[i] is Some { Some(us[i]) } else { None },
{ }
}
}
fn main() {}
