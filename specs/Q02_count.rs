// Q02: a metric counts exactly the rows it is asked to, in the group each belongs to
//@rule $~c . evaluate ( batch ) ? . into_array ( batch . num_rows ( ) ) ? . as_any ( ) . downcast_ref :: < $t > ( ) . unwrap ( ) . clone ( ) =>> { let read_: $t = column(&$c, batch)?; read_ }
//@rule $~p . into_iter ( ) . enumerate ( ) =>> numbered(&$p)
//@rule t : Default :: default ( ) =>> t: PhantomData
//@rule Result < Box < dyn PartitionedAggregateExpr > > =>> Result<Box<Self>>
//@include base.rs
use vstd::prelude::*;
use std::marker::PhantomData;
verus! {
global size_of usize == 8;
//@include arrow.rs
//@include groups.rs
//@fn src/query/src/physical_plan/expressions/mod.rs check_filter | ret=r block
//@contract
    requires idx < filter@.len(),
    ensures r == (filter@[idx as int] == Some(true)),
//@end
/// may this user's rows count
pub open spec fn let_in(ex: Option<Set<i64>>, u: i64) -> bool { ex is None || ex->0.contains(u) }
pub open spec fn asked(ex: Option<&Users>) -> Option<Set<i64>> { match ex { Some(u) => Some(users_of(*u)), None => None } }
pub mod count { use super::*; broadcast use {crate::axiom_arr_len};
//@item src/query/src/physical_plan/expressions/aggregate/count.rs Group | vis=keep
impl Group {
    pub closed spec fn n(&self) -> int { self.count as int }
//@fn src/query/src/physical_plan/expressions/aggregate/count.rs Group::new | ret=r block vis=keep
//@contract
    ensures r.n() == 0,
//@end
}
//@item src/query/src/physical_plan/expressions/aggregate/count.rs self::Count | vis=keep
impl<T> Count<T> {
    pub closed spec fn exprs(&self) -> Seq<PhysicalExprRef> { self.groups->0.exprs@ }
    pub closed spec fn seen<P>(&self, b: RecordBatch, ex: Option<Set<i64>>, i: int) -> Seen<()> {
        let u = on::<i64>(self.partition_col.id(), b)[i]->0;
        (key_at(self.exprs(), b, i), u, if let_in(ex, u) && (self.filter is Some ==> on::<bool>(self.filter->0.id(), b)[i] == Some(true)) && on::<P>(self.predicate.id(), b)[i] is Some { Some(()) } else { None }) }
    pub open spec fn rows<P>(&self, b: RecordBatch, ex: Option<Set<i64>>) -> Seq<Seen<()>> { Seq::new(rows_of(b), |i: int| self.seen::<P>(b, ex, i)) }
    pub closed spec fn is_grouped(&self) -> bool { self.groups is Some }
    /// what stands in the buckets is what the rows so far contribute
    pub closed spec fn rep(&self, h: Seq<Seen<()>>) -> bool {
        if self.groups is Some { forall|k: OwnedRow| (#[trigger] self.groups->0.groups@.contains_key(k) <==> share(h, Some(k)).len() > 0) && (self.groups->0.groups@.contains_key(k) ==> self.groups->0.groups@[k].count == share(h, Some(k)).len()) }
        else { self.single_group.count == share(h, None).len() } }
    pub closed spec fn same(&self, o: &Self) -> bool { self.filter == o.filter && self.predicate == o.predicate && self.partition_col == o.partition_col && (self.groups is Some <==> o.groups is Some) && (self.groups is Some ==> self.groups->0.exprs@ == o.groups->0.exprs@) }
    pub closed spec fn whole(&self, b: RecordBatch) -> bool { forall|i: int| 0 <= i < rows_of(b) ==> (#[trigger] on::<i64>(self.partition_col.id(), b)[i]) is Some }
    /// the counters stay in range
    pub closed spec fn room(&self, n: int) -> bool { self.single_group.count + n <= i64::MAX && n <= i64::MAX && (self.groups is Some ==> forall|k: OwnedRow| #[trigger] self.groups->0.groups@.contains_key(k) ==> self.groups->0.groups@[k].count + n <= i64::MAX) }
//@fn src/query/src/physical_plan/expressions/aggregate/count.rs Count::try_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.rep(Seq::empty()),
//@end
}
impl Count<i64> {
//@fn exp:count(i64,Int64Array)@src/query/src/physical_plan/expressions/aggregate/count.rs [PartitionedAggregateExpr for Count<i64>]::evaluate | ret=r block vis=keep
//@contract
    requires old(self).whole(*batch), old(self).room(rows_of(*batch) as int),
    ensures final(self).same(old(self)), r is Ok ==> forall|h: Seq<Seen<()>>| #[trigger] old(self).rep(h) ==> final(self).rep(h + old(self).rows::<i64>(*batch, asked(partition_exist))),
//@loop 0 iter=it
    invariant
        self.same(old(self)), old(self).whole(*batch), self.room(rows_of(*batch) - it.index@),
        partitions@ == on::<i64>(old(self).partition_col.id(), *batch), partitions@.len() == rows_of(*batch),
        filter is Some <==> old(self).filter is Some, filter is Some ==> filter->0@ == on::<bool>(old(self).filter->0.id(), *batch) && filter->0@.len() == rows_of(*batch),
        rows is Some <==> old(self).groups is Some, rows is Some ==> encoded_of(rows->0) == (old(self).groups->0.exprs@, *batch),
        it.seq().len() == rows_of(*batch), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i64>(old(self).predicate.id(), *batch)[i]),
        skip ==> !let_in(asked(partition_exist), skip_partition),
        forall|h: Seq<Seen<()>>| #[trigger] old(self).rep(h) ==> self.rep(h + old(self).rows::<i64>(*batch, asked(partition_exist)).take(it.index@)),
//@loopstart 0
    let ghost before = *self; let ghost k = it.index@; let ghost rs = old(self).rows::<i64>(*batch, asked(partition_exist));
    proof { assert(it.seq()[k] == (k as usize, on::<i64>(old(self).predicate.id(), *batch)[k])); assert(rs[k] == old(self).seen::<i64>(*batch, asked(partition_exist), k)); }
//@loopend 0
    proof { lemma_row(before, *self, rs[k]); assert forall|h: Seq<Seen<()>>| #[trigger] old(self).rep(h) implies self.rep(h + rs.take(k + 1)) by { assert(h + rs.take(k + 1) =~= (h + rs.take(k)).push(rs[k])); assert(before.rep(h + rs.take(k))); } }
//@start
    proof { let rs = old(self).rows::<i64>(*batch, asked(partition_exist)); assert(rs.take(rs.len() as int) =~= rs); assert forall|h: Seq<Seen<()>>| #[trigger] old(self).rep(h) implies old(self).rep(h + rs.take(0)) by { assert(h + rs.take(0) =~= h); } }
//@end
//@fn exp:count(i64,Int64Array)@src/query/src/physical_plan/expressions/aggregate/count.rs [PartitionedAggregateExpr for Count<i64>]::finalize | ret=r block vis=keep anyloops
//@rule for ( row , group ) in groups . groups . iter_mut ( ) { $$b } =>> let ghost order_ = groups.groups@; let keys_ = keys_of(&groups.groups); let ghost all_ = keys_@; for row in it: keys_     invariant it.seq() == all_, groups.groups@ == order_, it.seq().no_duplicates(), forall|k: OwnedRow| #[trigger] it.seq().contains(k) <==> order_.contains_key(k),         rows@.map_values(|a: Row| row_of(a)) =~= it.seq().take(it.index@), res_col_b@ =~= it.seq().take(it.index@).map_values(|k: OwnedRow| Some(order_[k].count)), { proof { assert(it.seq().contains(it.seq()[it.index@])); } let group = slot_mut(&mut groups.groups, &row); $$b proof { assert(groups.groups@ =~= order_); assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(row)); } } proof { assert(all_.take(all_.len() as int) =~= all_); lemma_told(*old(self), all_, res_col_b@); } 
//@contract
    ensures r is Ok ==> forall|h: Seq<Seen<()>>| #[trigger] old(self).rep(h) ==> tells(old(self).is_grouped(), h, how_many(), r->Ok_0@),
//@end
//@fn exp:count(i64,Int64Array)@src/query/src/physical_plan/expressions/aggregate/count.rs [PartitionedAggregateExpr for Count<i64>]::make_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.same(self) && r->Ok_0.rep(Seq::empty()),
//@end
}
pub open spec fn how_many() -> spec_fn(Seq<(i64, ())>) -> i64 { |s: Seq<(i64, ())>| s.len() as i64 }
proof fn lemma_told<T>(a: Count<T>, ks: Seq<OwnedRow>, vs: Seq<Option<i64>>)
    requires a.groups is Some, ks.no_duplicates(), forall|k: OwnedRow| #[trigger] ks.contains(k) <==> a.groups->0.groups@.contains_key(k), vs.len() == ks.len(), forall|i: int| 0 <= i < ks.len() ==> #[trigger] vs[i] == Some(a.groups->0.groups@[ks[i]].count),
    ensures forall|h: Seq<Seen<()>>| #[trigger] a.rep(h) ==> (forall|k: OwnedRow| #[trigger] ks.contains(k) <==> share(h, Some(k)).len() > 0) && vs == answers(h, ks, how_many()),
{
    assert forall|h: Seq<Seen<()>>| #[trigger] a.rep(h) implies vs == answers(h, ks, how_many()) by {
        assert forall|i: int| 0 <= i < ks.len() implies vs[i] == #[trigger] answers(h, ks, how_many())[i] by { assert(ks.contains(ks[i])); }
        assert(vs =~= answers(h, ks, how_many()));
    }
}
proof fn lemma_row<T>(a: Count<T>, b: Count<T>, r: Seen<()>)
    requires a.same(&b),
        r.2 is None ==> a.groups == b.groups && a.single_group == b.single_group,
        r.2 is Some && a.groups is None ==> b.single_group.count == a.single_group.count + 1,
        r.2 is Some && a.groups is Some ==> b.groups->0.groups@ =~= a.groups->0.groups@.insert(r.0, b.groups->0.groups@[r.0]) && b.groups->0.groups@[r.0].count == (if a.groups->0.groups@.contains_key(r.0) { a.groups->0.groups@[r.0].count as int } else { 0 }) + 1,
    ensures forall|h: Seq<Seen<()>>| #[trigger] a.rep(h) ==> b.rep(h.push(r)),
{
    assert forall|h: Seq<Seen<()>>| #[trigger] a.rep(h) implies b.rep(h.push(r)) by {
        lemma_share(h, r, None); assert forall|k: OwnedRow| #[trigger] share(h.push(r), Some(k)) == (if ours(r, Some(k)) { share(h, Some(k)).push((r.1, r.2->0)) } else { share(h, Some(k)) }) by { lemma_share(h, r, Some(k)); }
    }
}
}
}
fn main() {}
