// Q02: an aggregate metric folds exactly the values of the rows it is asked about, in the group each belongs to
//@rule $~c . evaluate ( batch ) ? . into_array ( batch . num_rows ( ) ) ? . as_any ( ) . downcast_ref :: < $t > ( ) . unwrap ( ) . clone ( ) =>> { let read_: $t = column(&$c, batch)?; read_ }
//@rule $~p . into_iter ( ) . enumerate ( ) =>> numbered(&$p)
//@rule t : Default :: default ( ) =>> t: PhantomData
//@rule typ : Default :: default ( ) =>> typ: PhantomData
//@rule Result < Box < dyn PartitionedAggregateExpr > > =>> Result<Box<Self>>
//@include base.rs
use vstd::prelude::*;
use std::marker::PhantomData;
verus! {
global size_of usize == 8;
//@include arrow.rs
//@include aggfn.rs
//@include groups.rs
pub uninterp spec fn decimal_one() -> i128;
#[verifier::external_body] pub fn decimal_multiplier() -> (r: i128) ensures r == decimal_one() { unimplemented!() }
//@rule DECIMAL_MULTIPLIER =>> decimal_multiplier()
pub uninterp spec fn times_of<T>(a: T, b: T) -> T;
pub uninterp spec fn over_of<T>(a: T, b: T) -> T;
#[verifier::external_body] pub fn times_v<T>(a: T, b: T) -> (r: T) ensures r == times_of(a, b) { unimplemented!() }
#[verifier::external_body] pub fn over_v<T>(a: T, b: T) -> (r: T) ensures r == over_of(a, b) { unimplemented!() }
//@rule accumulate ( $$v as $t * $m as $t / $d as $t ) =>> accumulate(over_v(times_v($$v as $t, $m as $t), $d as $t))
//@rule accumulate ( $$v as $t * 10_i128 . pow ( DECIMAL_SCALE as u32 ) ) =>> accumulate(times_v($$v as $t, decimal_multiplier()))
//@rule accumulate ( $$v as $t * $m as $t ) =>> accumulate(times_v($$v as $t, $m as $t))
//@rule accumulate ( $$v as $t * $m ) =>> accumulate(times_v($$v as $t, $m))
//@fn src/query/src/physical_plan/expressions/mod.rs check_filter | ret=r block
//@contract
    requires idx < filter@.len(),
    ensures r == (filter@[idx as int] == Some(true)),
//@end
/// may this user's rows count
pub open spec fn let_in(ex: Option<Set<i64>>, u: i64) -> bool { ex is None || ex->0.contains(u) }
pub open spec fn asked(ex: Option<&Users>) -> Option<Set<i64>> { match ex { Some(u) => Some(users_of(*u)), None => None } }
pub mod agg { use super::*; broadcast use {crate::axiom_arr_len};
//@item src/query/src/physical_plan/expressions/aggregate/mod.rs Group | vis=keep
impl<T> Group<T> where T: Copy {
//@fn src/query/src/physical_plan/expressions/aggregate/mod.rs Group::new | ret=r block vis=keep
//@contract
    ensures r.is(agg),
//@end
    pub closed spec fn is(&self, a: AggregateFunction<T>) -> bool { self.agg == a }
}
#[verifier::reject_recursive_types(OT)]
//@item src/query/src/physical_plan/expressions/aggregate/mod.rs self::Aggregate | vis=keep
/// a bucket that holds the fold of these values
pub closed spec fn held<OT: Copy>(a: AggregateFunction<OT>) -> spec_fn(Group<OT>, Seq<(i64, OT)>) -> bool { |b: Group<OT>, s: Seq<(i64, OT)>| b.agg == folded(a, s.map_values(|x: (i64, OT)| x.1)) }
pub open spec fn folding<OT: Copy>(a: AggregateFunction<OT>) -> spec_fn(Seq<(i64, OT)>) -> OT { |s: Seq<(i64, OT)>| value_of(folded(a, s.map_values(|x: (i64, OT)| x.1))) }
impl<T, OT> Aggregate<T, OT> where T: Copy, OT: Copy {
    pub closed spec fn is_grouped(&self) -> bool { self.groups is Some }
    pub closed spec fn map(&self) -> Option<Map<OwnedRow, Group<OT>>> { match self.groups { Some(g) => Some(g.groups@), None => None } }
    pub closed spec fn rep(&self, h: Seq<Seen<OT>>, ex: ()) -> bool { stands(self.map(), self.single_group, h, held(self.agg)) }
    pub closed spec fn answer(&self) -> spec_fn(Seq<(i64, OT)>) -> OT { folding(self.agg) }
    pub closed spec fn same(&self, o: &Self) -> bool { self.filter == o.filter && self.predicate == o.predicate && self.partition_col == o.partition_col && fresh(self.agg) == fresh(o.agg) && (self.groups is Some <==> o.groups is Some) && (self.groups is Some ==> self.groups->0.exprs@ == o.groups->0.exprs@) }
    pub closed spec fn whole(&self, b: RecordBatch) -> bool { forall|i: int| 0 <= i < rows_of(b) ==> (#[trigger] on::<i64>(self.partition_col.id(), b)[i]) is Some }
//@fn src/query/src/physical_plan/expressions/aggregate/mod.rs Aggregate::try_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.rep(Seq::empty(), ()),
//@start
    proof { reveal(stands); }
//@end
}
proof fn lemma_row<T: Copy, OT: Copy>(a: Aggregate<T, OT>, b: Aggregate<T, OT>, r: Seen<OT>)
    requires a.same(&b), a.agg == b.agg, r.2 is None ==> a.groups == b.groups && a.single_group == b.single_group,
        r.2 is Some && a.groups is None ==> b.single_group.agg == took(a.single_group.agg, r.2->0),
        r.2 is Some && a.groups is Some ==> b.groups->0.groups@ =~= a.groups->0.groups@.insert(r.0, b.groups->0.groups@[r.0]) && b.groups->0.groups@[r.0].agg == took(if a.groups->0.groups@.contains_key(r.0) { a.groups->0.groups@[r.0].agg } else { fresh(a.agg) }, r.2->0),
    ensures forall|h: Seq<Seen<OT>>| #[trigger] a.rep(h, ()) ==> b.rep(h.push(r), ()),
{
    let f = Group::<OT> { agg: fresh(a.agg) }; let ok = held(a.agg);
    assert forall|g: Group<OT>, g2: Group<OT>, x: (i64, OT)| g2.agg == took(g.agg, x.1) implies #[trigger] fed(g, g2, x, ok) by {
        assert forall|s: Seq<(i64, OT)>| #[trigger] ok(g, s) implies ok(g2, s.push(x)) by { assert(s.push(x).map_values(|x: (i64, OT)| x.1) =~= s.map_values(|x: (i64, OT)| x.1).push(x.1)); lemma_took(a.agg, s.map_values(|x: (i64, OT)| x.1), x.1); }
    }
    assert(Seq::<(i64, OT)>::empty().map_values(|x: (i64, OT)| x.1) =~= Seq::empty());
    lemma_stands(a.map(), a.single_group, b.map(), b.single_group, r, f, ok);
}
impl Aggregate<i64, i64> {
    pub closed spec fn seen(&self, b: RecordBatch, ex: Option<Set<i64>>, i: int) -> Seen<i64> {
        let u = on::<i64>(self.partition_col.id(), b)[i]->0;
        (key_at(self.groups->0.exprs@, b, i), u, if let_in(ex, u) && (self.filter is Some ==> on::<bool>(self.filter->0.id(), b)[i] == Some(true)) && on::<i64>(self.predicate.id(), b)[i] is Some { Some(over_of(times_of(on::<i64>(self.predicate.id(), b)[i]->0 as i64, 1 as i64), 1 as i64)) } else { None }) }
    pub open spec fn rows(&self, b: RecordBatch, ex: Option<Set<i64>>) -> Seq<Seen<i64>> { Seq::new(rows_of(b), |i: int| self.seen(b, ex, i)) }
//@fn exp:agg(i64,Int64Array,i64)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<i64, i64>]::evaluate | ret=r block vis=keep
//@contract
    requires old(self).whole(*batch),
    ensures final(self).same(old(self)), r is Ok ==> forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, ()) ==> final(self).rep(h + old(self).rows(*batch, asked(partition_exist)), ()),
//@loop 0 iter=it
    invariant
        self.same(old(self)), old(self).whole(*batch),
        partitions@ == on::<i64>(old(self).partition_col.id(), *batch), partitions@.len() == rows_of(*batch),
        filter is Some <==> old(self).filter is Some, filter is Some ==> filter->0@ == on::<bool>(old(self).filter->0.id(), *batch) && filter->0@.len() == rows_of(*batch),
        rows is Some <==> old(self).groups is Some, rows is Some ==> encoded_of(rows->0) == (old(self).groups->0.exprs@, *batch),
        it.seq().len() == rows_of(*batch), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i64>(old(self).predicate.id(), *batch)[i]),
        skip ==> !let_in(asked(partition_exist), skip_partition),
        forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, ()) ==> self.rep(h + old(self).rows(*batch, asked(partition_exist)).take(it.index@), ()),
//@loopstart 0
    let ghost before = *self; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, asked(partition_exist));
    proof { assert(it.seq()[k] == (k as usize, on::<i64>(old(self).predicate.id(), *batch)[k])); assert(rs[k] == old(self).seen(*batch, asked(partition_exist), k)); }
//@loopend 0
    proof { assert(self.same(old(self))); lemma_row(before, *self, rs[k]); assert forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, ()) implies self.rep(h + rs.take(k + 1), ()) by { assert(h + rs.take(k + 1) =~= (h + rs.take(k)).push(rs[k])); assert(before.rep(h + rs.take(k), ())); assert(self.rep((h + rs.take(k)).push(rs[k]), ())); } }
//@start
    proof { let rs = old(self).rows(*batch, asked(partition_exist)); assert(rs.take(rs.len() as int) =~= rs); assert forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, ()) implies old(self).rep(h + rs.take(0), ()) by { assert(h + rs.take(0) =~= h); } }
//@end
//@fn exp:agg(i64,Int64Array,i64)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<i64, i64>]::finalize | ret=r block vis=keep anyloops
//@rule for ( row , group ) in groups . groups . iter_mut ( ) { $$b } =>> let ghost order_ = groups.groups@; let keys_ = keys_of(&groups.groups); let ghost all_ = keys_@; for row in it: keys_     invariant it.seq() == all_, groups.groups@.dom() =~= order_.dom(), it.seq().no_duplicates(), forall|k: OwnedRow| #[trigger] it.seq().contains(k) <==> order_.contains_key(k),         rows@.map_values(|a: Row| row_of(a)) =~= it.seq().take(it.index@), res_col_b@.len() == it.index@, forall|j: int| it.index@ <= j < it.seq().len() ==> groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]],         forall|j: int| 0 <= j < it.index@ ==> #[trigger] res_col_b@[j] == Some(value_of(order_[all_[j]].agg)), { proof { assert(it.seq().contains(it.seq()[it.index@])); } let ghost now_ = groups.groups@; let group = slot_mut(&mut groups.groups, &row); $$b proof { assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(row)); assert forall|j: int| it.index@ + 1 <= j < it.seq().len() implies groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]] by { assert(it.seq()[j] != row); assert(now_[it.seq()[j]] == order_[it.seq()[j]]); } } } proof { assert(all_.take(all_.len() as int) =~= all_); assert(order_ == old(self).groups->0.groups@); lemma_listed(order_, old(self).single_group, all_, res_col_b@, held(old(self).agg), folding(old(self).agg)); } 
//@contract
    ensures r is Ok ==> forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, ()) ==> tells(old(self).is_grouped(), h, old(self).answer(), r->Ok_0@),
//@start
    reveal(stands);
//@end
//@fn exp:agg(i64,Int64Array,i64)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<i64, i64>]::make_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.same(self) && r->Ok_0.rep(Seq::empty(), ()),
//@start
    proof { reveal(stands); }
//@end
}
impl Aggregate<i64, i128> {
    pub closed spec fn seen(&self, b: RecordBatch, ex: Option<Set<i64>>, i: int) -> Seen<i128> {
        let u = on::<i64>(self.partition_col.id(), b)[i]->0;
        (key_at(self.groups->0.exprs@, b, i), u, if let_in(ex, u) && (self.filter is Some ==> on::<bool>(self.filter->0.id(), b)[i] == Some(true)) && on::<i64>(self.predicate.id(), b)[i] is Some { Some(over_of(times_of(on::<i64>(self.predicate.id(), b)[i]->0 as i128, decimal_one() as i128), 1 as i128)) } else { None }) }
    pub open spec fn rows(&self, b: RecordBatch, ex: Option<Set<i64>>) -> Seq<Seen<i128>> { Seq::new(rows_of(b), |i: int| self.seen(b, ex, i)) }
//@fn exp:agg(i64,Int64Array,i128)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<i64, i128>]::evaluate | ret=r block vis=keep
//@contract
    requires old(self).whole(*batch),
    ensures final(self).same(old(self)), r is Ok ==> forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, ()) ==> final(self).rep(h + old(self).rows(*batch, asked(partition_exist)), ()),
//@loop 0 iter=it
    invariant
        self.same(old(self)), old(self).whole(*batch),
        partitions@ == on::<i64>(old(self).partition_col.id(), *batch), partitions@.len() == rows_of(*batch),
        filter is Some <==> old(self).filter is Some, filter is Some ==> filter->0@ == on::<bool>(old(self).filter->0.id(), *batch) && filter->0@.len() == rows_of(*batch),
        rows is Some <==> old(self).groups is Some, rows is Some ==> encoded_of(rows->0) == (old(self).groups->0.exprs@, *batch),
        it.seq().len() == rows_of(*batch), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i64>(old(self).predicate.id(), *batch)[i]),
        skip ==> !let_in(asked(partition_exist), skip_partition),
        forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, ()) ==> self.rep(h + old(self).rows(*batch, asked(partition_exist)).take(it.index@), ()),
//@loopstart 0
    let ghost before = *self; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, asked(partition_exist));
    proof { assert(it.seq()[k] == (k as usize, on::<i64>(old(self).predicate.id(), *batch)[k])); assert(rs[k] == old(self).seen(*batch, asked(partition_exist), k)); }
//@loopend 0
    proof { assert(self.same(old(self))); lemma_row(before, *self, rs[k]); assert forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, ()) implies self.rep(h + rs.take(k + 1), ()) by { assert(h + rs.take(k + 1) =~= (h + rs.take(k)).push(rs[k])); assert(before.rep(h + rs.take(k), ())); assert(self.rep((h + rs.take(k)).push(rs[k]), ())); } }
//@start
    proof { let rs = old(self).rows(*batch, asked(partition_exist)); assert(rs.take(rs.len() as int) =~= rs); assert forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, ()) implies old(self).rep(h + rs.take(0), ()) by { assert(h + rs.take(0) =~= h); } }
//@end
//@fn exp:agg(i64,Int64Array,i128)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<i64, i128>]::finalize | ret=r block vis=keep anyloops
//@rule for ( row , group ) in groups . groups . iter_mut ( ) { $$b } =>> let ghost order_ = groups.groups@; let keys_ = keys_of(&groups.groups); let ghost all_ = keys_@; for row in it: keys_     invariant it.seq() == all_, groups.groups@.dom() =~= order_.dom(), it.seq().no_duplicates(), forall|k: OwnedRow| #[trigger] it.seq().contains(k) <==> order_.contains_key(k),         rows@.map_values(|a: Row| row_of(a)) =~= it.seq().take(it.index@), res_col_b@.len() == it.index@, forall|j: int| it.index@ <= j < it.seq().len() ==> groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]],         forall|j: int| 0 <= j < it.index@ ==> #[trigger] res_col_b@[j] == Some(value_of(order_[all_[j]].agg)), { proof { assert(it.seq().contains(it.seq()[it.index@])); } let ghost now_ = groups.groups@; let group = slot_mut(&mut groups.groups, &row); $$b proof { assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(row)); assert forall|j: int| it.index@ + 1 <= j < it.seq().len() implies groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]] by { assert(it.seq()[j] != row); assert(now_[it.seq()[j]] == order_[it.seq()[j]]); } } } proof { assert(all_.take(all_.len() as int) =~= all_); assert(order_ == old(self).groups->0.groups@); lemma_listed(order_, old(self).single_group, all_, res_col_b@, held(old(self).agg), folding(old(self).agg)); } 
//@contract
    ensures r is Ok ==> forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, ()) ==> tells(old(self).is_grouped(), h, old(self).answer(), r->Ok_0@),
//@start
    reveal(stands);
//@end
//@fn exp:agg(i64,Int64Array,i128)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<i64, i128>]::make_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.same(self) && r->Ok_0.rep(Seq::empty(), ()),
//@start
    proof { reveal(stands); }
//@end
}
impl Aggregate<i128, i128> {
    pub closed spec fn seen(&self, b: RecordBatch, ex: Option<Set<i64>>, i: int) -> Seen<i128> {
        let u = on::<i64>(self.partition_col.id(), b)[i]->0;
        (key_at(self.groups->0.exprs@, b, i), u, if let_in(ex, u) && (self.filter is Some ==> on::<bool>(self.filter->0.id(), b)[i] == Some(true)) && on::<i128>(self.predicate.id(), b)[i] is Some { Some(over_of(times_of(on::<i128>(self.predicate.id(), b)[i]->0 as i128, 1 as i128), 1 as i128)) } else { None }) }
    pub open spec fn rows(&self, b: RecordBatch, ex: Option<Set<i64>>) -> Seq<Seen<i128>> { Seq::new(rows_of(b), |i: int| self.seen(b, ex, i)) }
//@fn exp:agg(i128,Decimal128Array,i128)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<i128, i128>]::evaluate | ret=r block vis=keep
//@contract
    requires old(self).whole(*batch),
    ensures final(self).same(old(self)), r is Ok ==> forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, ()) ==> final(self).rep(h + old(self).rows(*batch, asked(partition_exist)), ()),
//@loop 0 iter=it
    invariant
        self.same(old(self)), old(self).whole(*batch),
        partitions@ == on::<i64>(old(self).partition_col.id(), *batch), partitions@.len() == rows_of(*batch),
        filter is Some <==> old(self).filter is Some, filter is Some ==> filter->0@ == on::<bool>(old(self).filter->0.id(), *batch) && filter->0@.len() == rows_of(*batch),
        rows is Some <==> old(self).groups is Some, rows is Some ==> encoded_of(rows->0) == (old(self).groups->0.exprs@, *batch),
        it.seq().len() == rows_of(*batch), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i128>(old(self).predicate.id(), *batch)[i]),
        skip ==> !let_in(asked(partition_exist), skip_partition),
        forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, ()) ==> self.rep(h + old(self).rows(*batch, asked(partition_exist)).take(it.index@), ()),
//@loopstart 0
    let ghost before = *self; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, asked(partition_exist));
    proof { assert(it.seq()[k] == (k as usize, on::<i128>(old(self).predicate.id(), *batch)[k])); assert(rs[k] == old(self).seen(*batch, asked(partition_exist), k)); }
//@loopend 0
    proof { assert(self.same(old(self))); lemma_row(before, *self, rs[k]); assert forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, ()) implies self.rep(h + rs.take(k + 1), ()) by { assert(h + rs.take(k + 1) =~= (h + rs.take(k)).push(rs[k])); assert(before.rep(h + rs.take(k), ())); assert(self.rep((h + rs.take(k)).push(rs[k]), ())); } }
//@start
    proof { let rs = old(self).rows(*batch, asked(partition_exist)); assert(rs.take(rs.len() as int) =~= rs); assert forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, ()) implies old(self).rep(h + rs.take(0), ()) by { assert(h + rs.take(0) =~= h); } }
//@end
//@fn exp:agg(i128,Decimal128Array,i128)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<i128, i128>]::finalize | ret=r block vis=keep anyloops
//@rule for ( row , group ) in groups . groups . iter_mut ( ) { $$b } =>> let ghost order_ = groups.groups@; let keys_ = keys_of(&groups.groups); let ghost all_ = keys_@; for row in it: keys_     invariant it.seq() == all_, groups.groups@.dom() =~= order_.dom(), it.seq().no_duplicates(), forall|k: OwnedRow| #[trigger] it.seq().contains(k) <==> order_.contains_key(k),         rows@.map_values(|a: Row| row_of(a)) =~= it.seq().take(it.index@), res_col_b@.len() == it.index@, forall|j: int| it.index@ <= j < it.seq().len() ==> groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]],         forall|j: int| 0 <= j < it.index@ ==> #[trigger] res_col_b@[j] == Some(value_of(order_[all_[j]].agg)), { proof { assert(it.seq().contains(it.seq()[it.index@])); } let ghost now_ = groups.groups@; let group = slot_mut(&mut groups.groups, &row); $$b proof { assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(row)); assert forall|j: int| it.index@ + 1 <= j < it.seq().len() implies groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]] by { assert(it.seq()[j] != row); assert(now_[it.seq()[j]] == order_[it.seq()[j]]); } } } proof { assert(all_.take(all_.len() as int) =~= all_); assert(order_ == old(self).groups->0.groups@); lemma_listed(order_, old(self).single_group, all_, res_col_b@, held(old(self).agg), folding(old(self).agg)); } 
//@contract
    ensures r is Ok ==> forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, ()) ==> tells(old(self).is_grouped(), h, old(self).answer(), r->Ok_0@),
//@start
    reveal(stands);
//@end
//@fn exp:agg(i128,Decimal128Array,i128)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<i128, i128>]::make_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.same(self) && r->Ok_0.rep(Seq::empty(), ()),
//@start
    proof { reveal(stands); }
//@end
}
impl Aggregate<i32, i64> {
    pub closed spec fn seen(&self, b: RecordBatch, ex: Option<Set<i64>>, i: int) -> Seen<i64> {
        let u = on::<i64>(self.partition_col.id(), b)[i]->0;
        (key_at(self.groups->0.exprs@, b, i), u, if let_in(ex, u) && (self.filter is Some ==> on::<bool>(self.filter->0.id(), b)[i] == Some(true)) && on::<i32>(self.predicate.id(), b)[i] is Some { Some(over_of(times_of(on::<i32>(self.predicate.id(), b)[i]->0 as i64, 1 as i64), 1 as i64)) } else { None }) }
    pub open spec fn rows(&self, b: RecordBatch, ex: Option<Set<i64>>) -> Seq<Seen<i64>> { Seq::new(rows_of(b), |i: int| self.seen(b, ex, i)) }
//@fn exp:agg(i32,Int32Array,i64)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<i32, i64>]::evaluate | ret=r block vis=keep
//@contract
    requires old(self).whole(*batch),
    ensures final(self).same(old(self)), r is Ok ==> forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, ()) ==> final(self).rep(h + old(self).rows(*batch, asked(partition_exist)), ()),
//@loop 0 iter=it
    invariant
        self.same(old(self)), old(self).whole(*batch),
        partitions@ == on::<i64>(old(self).partition_col.id(), *batch), partitions@.len() == rows_of(*batch),
        filter is Some <==> old(self).filter is Some, filter is Some ==> filter->0@ == on::<bool>(old(self).filter->0.id(), *batch) && filter->0@.len() == rows_of(*batch),
        rows is Some <==> old(self).groups is Some, rows is Some ==> encoded_of(rows->0) == (old(self).groups->0.exprs@, *batch),
        it.seq().len() == rows_of(*batch), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i32>(old(self).predicate.id(), *batch)[i]),
        skip ==> !let_in(asked(partition_exist), skip_partition),
        forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, ()) ==> self.rep(h + old(self).rows(*batch, asked(partition_exist)).take(it.index@), ()),
//@loopstart 0
    let ghost before = *self; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, asked(partition_exist));
    proof { assert(it.seq()[k] == (k as usize, on::<i32>(old(self).predicate.id(), *batch)[k])); assert(rs[k] == old(self).seen(*batch, asked(partition_exist), k)); }
//@loopend 0
    proof { assert(self.same(old(self))); lemma_row(before, *self, rs[k]); assert forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, ()) implies self.rep(h + rs.take(k + 1), ()) by { assert(h + rs.take(k + 1) =~= (h + rs.take(k)).push(rs[k])); assert(before.rep(h + rs.take(k), ())); assert(self.rep((h + rs.take(k)).push(rs[k]), ())); } }
//@start
    proof { let rs = old(self).rows(*batch, asked(partition_exist)); assert(rs.take(rs.len() as int) =~= rs); assert forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, ()) implies old(self).rep(h + rs.take(0), ()) by { assert(h + rs.take(0) =~= h); } }
//@end
//@fn exp:agg(i32,Int32Array,i64)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<i32, i64>]::finalize | ret=r block vis=keep anyloops
//@rule for ( row , group ) in groups . groups . iter_mut ( ) { $$b } =>> let ghost order_ = groups.groups@; let keys_ = keys_of(&groups.groups); let ghost all_ = keys_@; for row in it: keys_     invariant it.seq() == all_, groups.groups@.dom() =~= order_.dom(), it.seq().no_duplicates(), forall|k: OwnedRow| #[trigger] it.seq().contains(k) <==> order_.contains_key(k),         rows@.map_values(|a: Row| row_of(a)) =~= it.seq().take(it.index@), res_col_b@.len() == it.index@, forall|j: int| it.index@ <= j < it.seq().len() ==> groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]],         forall|j: int| 0 <= j < it.index@ ==> #[trigger] res_col_b@[j] == Some(value_of(order_[all_[j]].agg)), { proof { assert(it.seq().contains(it.seq()[it.index@])); } let ghost now_ = groups.groups@; let group = slot_mut(&mut groups.groups, &row); $$b proof { assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(row)); assert forall|j: int| it.index@ + 1 <= j < it.seq().len() implies groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]] by { assert(it.seq()[j] != row); assert(now_[it.seq()[j]] == order_[it.seq()[j]]); } } } proof { assert(all_.take(all_.len() as int) =~= all_); assert(order_ == old(self).groups->0.groups@); lemma_listed(order_, old(self).single_group, all_, res_col_b@, held(old(self).agg), folding(old(self).agg)); } 
//@contract
    ensures r is Ok ==> forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, ()) ==> tells(old(self).is_grouped(), h, old(self).answer(), r->Ok_0@),
//@start
    reveal(stands);
//@end
//@fn exp:agg(i32,Int32Array,i64)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<i32, i64>]::make_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.same(self) && r->Ok_0.rep(Seq::empty(), ()),
//@start
    proof { reveal(stands); }
//@end
}
impl Aggregate<i16, i16> {
    pub closed spec fn seen(&self, b: RecordBatch, ex: Option<Set<i64>>, i: int) -> Seen<i16> {
        let u = on::<i64>(self.partition_col.id(), b)[i]->0;
        (key_at(self.groups->0.exprs@, b, i), u, if let_in(ex, u) && (self.filter is Some ==> on::<bool>(self.filter->0.id(), b)[i] == Some(true)) && on::<i16>(self.predicate.id(), b)[i] is Some { Some(over_of(times_of(on::<i16>(self.predicate.id(), b)[i]->0 as i16, 1 as i16), 1 as i16)) } else { None }) }
    pub open spec fn rows(&self, b: RecordBatch, ex: Option<Set<i64>>) -> Seq<Seen<i16>> { Seq::new(rows_of(b), |i: int| self.seen(b, ex, i)) }
//@fn exp:agg(i16,Int16Array,i16)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<i16, i16>]::evaluate | ret=r block vis=keep
//@contract
    requires old(self).whole(*batch),
    ensures final(self).same(old(self)), r is Ok ==> forall|h: Seq<Seen<i16>>| #[trigger] old(self).rep(h, ()) ==> final(self).rep(h + old(self).rows(*batch, asked(partition_exist)), ()),
//@loop 0 iter=it
    invariant
        self.same(old(self)), old(self).whole(*batch),
        partitions@ == on::<i64>(old(self).partition_col.id(), *batch), partitions@.len() == rows_of(*batch),
        filter is Some <==> old(self).filter is Some, filter is Some ==> filter->0@ == on::<bool>(old(self).filter->0.id(), *batch) && filter->0@.len() == rows_of(*batch),
        rows is Some <==> old(self).groups is Some, rows is Some ==> encoded_of(rows->0) == (old(self).groups->0.exprs@, *batch),
        it.seq().len() == rows_of(*batch), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i16>(old(self).predicate.id(), *batch)[i]),
        skip ==> !let_in(asked(partition_exist), skip_partition),
        forall|h: Seq<Seen<i16>>| #[trigger] old(self).rep(h, ()) ==> self.rep(h + old(self).rows(*batch, asked(partition_exist)).take(it.index@), ()),
//@loopstart 0
    let ghost before = *self; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, asked(partition_exist));
    proof { assert(it.seq()[k] == (k as usize, on::<i16>(old(self).predicate.id(), *batch)[k])); assert(rs[k] == old(self).seen(*batch, asked(partition_exist), k)); }
//@loopend 0
    proof { assert(self.same(old(self))); lemma_row(before, *self, rs[k]); assert forall|h: Seq<Seen<i16>>| #[trigger] old(self).rep(h, ()) implies self.rep(h + rs.take(k + 1), ()) by { assert(h + rs.take(k + 1) =~= (h + rs.take(k)).push(rs[k])); assert(before.rep(h + rs.take(k), ())); assert(self.rep((h + rs.take(k)).push(rs[k]), ())); } }
//@start
    proof { let rs = old(self).rows(*batch, asked(partition_exist)); assert(rs.take(rs.len() as int) =~= rs); assert forall|h: Seq<Seen<i16>>| #[trigger] old(self).rep(h, ()) implies old(self).rep(h + rs.take(0), ()) by { assert(h + rs.take(0) =~= h); } }
//@end
//@fn exp:agg(i16,Int16Array,i16)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<i16, i16>]::finalize | ret=r block vis=keep anyloops
//@rule for ( row , group ) in groups . groups . iter_mut ( ) { $$b } =>> let ghost order_ = groups.groups@; let keys_ = keys_of(&groups.groups); let ghost all_ = keys_@; for row in it: keys_     invariant it.seq() == all_, groups.groups@.dom() =~= order_.dom(), it.seq().no_duplicates(), forall|k: OwnedRow| #[trigger] it.seq().contains(k) <==> order_.contains_key(k),         rows@.map_values(|a: Row| row_of(a)) =~= it.seq().take(it.index@), res_col_b@.len() == it.index@, forall|j: int| it.index@ <= j < it.seq().len() ==> groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]],         forall|j: int| 0 <= j < it.index@ ==> #[trigger] res_col_b@[j] == Some(value_of(order_[all_[j]].agg)), { proof { assert(it.seq().contains(it.seq()[it.index@])); } let ghost now_ = groups.groups@; let group = slot_mut(&mut groups.groups, &row); $$b proof { assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(row)); assert forall|j: int| it.index@ + 1 <= j < it.seq().len() implies groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]] by { assert(it.seq()[j] != row); assert(now_[it.seq()[j]] == order_[it.seq()[j]]); } } } proof { assert(all_.take(all_.len() as int) =~= all_); assert(order_ == old(self).groups->0.groups@); lemma_listed(order_, old(self).single_group, all_, res_col_b@, held(old(self).agg), folding(old(self).agg)); } 
//@contract
    ensures r is Ok ==> forall|h: Seq<Seen<i16>>| #[trigger] old(self).rep(h, ()) ==> tells(old(self).is_grouped(), h, old(self).answer(), r->Ok_0@),
//@start
    reveal(stands);
//@end
//@fn exp:agg(i16,Int16Array,i16)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<i16, i16>]::make_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.same(self) && r->Ok_0.rep(Seq::empty(), ()),
//@start
    proof { reveal(stands); }
//@end
}
impl Aggregate<u8, u64> {
    pub closed spec fn seen(&self, b: RecordBatch, ex: Option<Set<i64>>, i: int) -> Seen<u64> {
        let u = on::<i64>(self.partition_col.id(), b)[i]->0;
        (key_at(self.groups->0.exprs@, b, i), u, if let_in(ex, u) && (self.filter is Some ==> on::<bool>(self.filter->0.id(), b)[i] == Some(true)) && on::<u8>(self.predicate.id(), b)[i] is Some { Some(over_of(times_of(on::<u8>(self.predicate.id(), b)[i]->0 as u64, 1 as u64), 1 as u64)) } else { None }) }
    pub open spec fn rows(&self, b: RecordBatch, ex: Option<Set<i64>>) -> Seq<Seen<u64>> { Seq::new(rows_of(b), |i: int| self.seen(b, ex, i)) }
//@fn exp:agg(u8,UInt8Array,u64)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<u8, u64>]::evaluate | ret=r block vis=keep
//@contract
    requires old(self).whole(*batch),
    ensures final(self).same(old(self)), r is Ok ==> forall|h: Seq<Seen<u64>>| #[trigger] old(self).rep(h, ()) ==> final(self).rep(h + old(self).rows(*batch, asked(partition_exist)), ()),
//@loop 0 iter=it
    invariant
        self.same(old(self)), old(self).whole(*batch),
        partitions@ == on::<i64>(old(self).partition_col.id(), *batch), partitions@.len() == rows_of(*batch),
        filter is Some <==> old(self).filter is Some, filter is Some ==> filter->0@ == on::<bool>(old(self).filter->0.id(), *batch) && filter->0@.len() == rows_of(*batch),
        rows is Some <==> old(self).groups is Some, rows is Some ==> encoded_of(rows->0) == (old(self).groups->0.exprs@, *batch),
        it.seq().len() == rows_of(*batch), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<u8>(old(self).predicate.id(), *batch)[i]),
        skip ==> !let_in(asked(partition_exist), skip_partition),
        forall|h: Seq<Seen<u64>>| #[trigger] old(self).rep(h, ()) ==> self.rep(h + old(self).rows(*batch, asked(partition_exist)).take(it.index@), ()),
//@loopstart 0
    let ghost before = *self; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, asked(partition_exist));
    proof { assert(it.seq()[k] == (k as usize, on::<u8>(old(self).predicate.id(), *batch)[k])); assert(rs[k] == old(self).seen(*batch, asked(partition_exist), k)); }
//@loopend 0
    proof { assert(self.same(old(self))); lemma_row(before, *self, rs[k]); assert forall|h: Seq<Seen<u64>>| #[trigger] old(self).rep(h, ()) implies self.rep(h + rs.take(k + 1), ()) by { assert(h + rs.take(k + 1) =~= (h + rs.take(k)).push(rs[k])); assert(before.rep(h + rs.take(k), ())); assert(self.rep((h + rs.take(k)).push(rs[k]), ())); } }
//@start
    proof { let rs = old(self).rows(*batch, asked(partition_exist)); assert(rs.take(rs.len() as int) =~= rs); assert forall|h: Seq<Seen<u64>>| #[trigger] old(self).rep(h, ()) implies old(self).rep(h + rs.take(0), ()) by { assert(h + rs.take(0) =~= h); } }
//@end
//@fn exp:agg(u8,UInt8Array,u64)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<u8, u64>]::finalize | ret=r block vis=keep anyloops
//@rule for ( row , group ) in groups . groups . iter_mut ( ) { $$b } =>> let ghost order_ = groups.groups@; let keys_ = keys_of(&groups.groups); let ghost all_ = keys_@; for row in it: keys_     invariant it.seq() == all_, groups.groups@.dom() =~= order_.dom(), it.seq().no_duplicates(), forall|k: OwnedRow| #[trigger] it.seq().contains(k) <==> order_.contains_key(k),         rows@.map_values(|a: Row| row_of(a)) =~= it.seq().take(it.index@), res_col_b@.len() == it.index@, forall|j: int| it.index@ <= j < it.seq().len() ==> groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]],         forall|j: int| 0 <= j < it.index@ ==> #[trigger] res_col_b@[j] == Some(value_of(order_[all_[j]].agg)), { proof { assert(it.seq().contains(it.seq()[it.index@])); } let ghost now_ = groups.groups@; let group = slot_mut(&mut groups.groups, &row); $$b proof { assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(row)); assert forall|j: int| it.index@ + 1 <= j < it.seq().len() implies groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]] by { assert(it.seq()[j] != row); assert(now_[it.seq()[j]] == order_[it.seq()[j]]); } } } proof { assert(all_.take(all_.len() as int) =~= all_); assert(order_ == old(self).groups->0.groups@); lemma_listed(order_, old(self).single_group, all_, res_col_b@, held(old(self).agg), folding(old(self).agg)); } 
//@contract
    ensures r is Ok ==> forall|h: Seq<Seen<u64>>| #[trigger] old(self).rep(h, ()) ==> tells(old(self).is_grouped(), h, old(self).answer(), r->Ok_0@),
//@start
    reveal(stands);
//@end
//@fn exp:agg(u8,UInt8Array,u64)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<u8, u64>]::make_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.same(self) && r->Ok_0.rep(Seq::empty(), ()),
//@start
    proof { reveal(stands); }
//@end
}
impl Aggregate<u64, i128> {
    pub closed spec fn seen(&self, b: RecordBatch, ex: Option<Set<i64>>, i: int) -> Seen<i128> {
        let u = on::<i64>(self.partition_col.id(), b)[i]->0;
        (key_at(self.groups->0.exprs@, b, i), u, if let_in(ex, u) && (self.filter is Some ==> on::<bool>(self.filter->0.id(), b)[i] == Some(true)) && on::<u64>(self.predicate.id(), b)[i] is Some { Some(over_of(times_of(on::<u64>(self.predicate.id(), b)[i]->0 as i128, decimal_one() as i128), 1 as i128)) } else { None }) }
    pub open spec fn rows(&self, b: RecordBatch, ex: Option<Set<i64>>) -> Seq<Seen<i128>> { Seq::new(rows_of(b), |i: int| self.seen(b, ex, i)) }
//@fn exp:agg(u64,UInt64Array,i128)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<u64, i128>]::evaluate | ret=r block vis=keep
//@contract
    requires old(self).whole(*batch),
    ensures final(self).same(old(self)), r is Ok ==> forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, ()) ==> final(self).rep(h + old(self).rows(*batch, asked(partition_exist)), ()),
//@loop 0 iter=it
    invariant
        self.same(old(self)), old(self).whole(*batch),
        partitions@ == on::<i64>(old(self).partition_col.id(), *batch), partitions@.len() == rows_of(*batch),
        filter is Some <==> old(self).filter is Some, filter is Some ==> filter->0@ == on::<bool>(old(self).filter->0.id(), *batch) && filter->0@.len() == rows_of(*batch),
        rows is Some <==> old(self).groups is Some, rows is Some ==> encoded_of(rows->0) == (old(self).groups->0.exprs@, *batch),
        it.seq().len() == rows_of(*batch), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<u64>(old(self).predicate.id(), *batch)[i]),
        skip ==> !let_in(asked(partition_exist), skip_partition),
        forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, ()) ==> self.rep(h + old(self).rows(*batch, asked(partition_exist)).take(it.index@), ()),
//@loopstart 0
    let ghost before = *self; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, asked(partition_exist));
    proof { assert(it.seq()[k] == (k as usize, on::<u64>(old(self).predicate.id(), *batch)[k])); assert(rs[k] == old(self).seen(*batch, asked(partition_exist), k)); }
//@loopend 0
    proof { assert(self.same(old(self))); lemma_row(before, *self, rs[k]); assert forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, ()) implies self.rep(h + rs.take(k + 1), ()) by { assert(h + rs.take(k + 1) =~= (h + rs.take(k)).push(rs[k])); assert(before.rep(h + rs.take(k), ())); assert(self.rep((h + rs.take(k)).push(rs[k]), ())); } }
//@start
    proof { let rs = old(self).rows(*batch, asked(partition_exist)); assert(rs.take(rs.len() as int) =~= rs); assert forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, ()) implies old(self).rep(h + rs.take(0), ()) by { assert(h + rs.take(0) =~= h); } }
//@end
//@fn exp:agg(u64,UInt64Array,i128)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<u64, i128>]::finalize | ret=r block vis=keep anyloops
//@rule for ( row , group ) in groups . groups . iter_mut ( ) { $$b } =>> let ghost order_ = groups.groups@; let keys_ = keys_of(&groups.groups); let ghost all_ = keys_@; for row in it: keys_     invariant it.seq() == all_, groups.groups@.dom() =~= order_.dom(), it.seq().no_duplicates(), forall|k: OwnedRow| #[trigger] it.seq().contains(k) <==> order_.contains_key(k),         rows@.map_values(|a: Row| row_of(a)) =~= it.seq().take(it.index@), res_col_b@.len() == it.index@, forall|j: int| it.index@ <= j < it.seq().len() ==> groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]],         forall|j: int| 0 <= j < it.index@ ==> #[trigger] res_col_b@[j] == Some(value_of(order_[all_[j]].agg)), { proof { assert(it.seq().contains(it.seq()[it.index@])); } let ghost now_ = groups.groups@; let group = slot_mut(&mut groups.groups, &row); $$b proof { assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(row)); assert forall|j: int| it.index@ + 1 <= j < it.seq().len() implies groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]] by { assert(it.seq()[j] != row); assert(now_[it.seq()[j]] == order_[it.seq()[j]]); } } } proof { assert(all_.take(all_.len() as int) =~= all_); assert(order_ == old(self).groups->0.groups@); lemma_listed(order_, old(self).single_group, all_, res_col_b@, held(old(self).agg), folding(old(self).agg)); } 
//@contract
    ensures r is Ok ==> forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, ()) ==> tells(old(self).is_grouped(), h, old(self).answer(), r->Ok_0@),
//@start
    reveal(stands);
//@end
//@fn exp:agg(u64,UInt64Array,i128)@src/query/src/physical_plan/expressions/aggregate/mod.rs [PartitionedAggregateExpr for Aggregate<u64, i128>]::make_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.same(self) && r->Ok_0.rep(Seq::empty(), ()),
//@start
    proof { reveal(stands); }
//@end
}
}
pub mod pagg { use super::*; broadcast use {crate::axiom_arr_len};
//@item src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs Group | vis=keep
impl<IT, OT> Group<IT, OT> where IT: Copy, OT: Copy {
//@fn src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs Group::new | ret=r block vis=keep
//@contract
    ensures r.is(inner_fn, outer_fn),
//@end
    pub closed spec fn is(&self, a: AggregateFunction<IT>, b: AggregateFunction<OT>) -> bool { self.inner_fn == a && self.outer_fn == b && self.first && self.last_partition == 0 }
}
/// the aggregate of each user's own values, in turn
pub open spec fn per_user<IT: Copy, OT>(inner: AggregateFunction<IT>, p: Seq<(i64, Seq<IT>)>, conv: spec_fn(IT) -> OT) -> Seq<OT> { p.map_values(|x: (i64, Seq<IT>)| conv(value_of(folded(inner, x.1)))) }
/// a bucket that holds these values: users who are done in the outer aggregate, the last user's in the inner one
pub closed spec fn held<IT: Copy, OT: Copy>(inner: AggregateFunction<IT>, outer: AggregateFunction<OT>, conv: spec_fn(IT) -> OT) -> spec_fn(Group<IT, OT>, Seq<(i64, IT)>) -> bool { |b: Group<IT, OT>, s: Seq<(i64, IT)>| { let p = runs(s);
    &&& b.first <==> s.len() == 0
    &&& s.len() == 0 ==> b.inner_fn == fresh(inner) && b.outer_fn == fresh(outer)
    &&& s.len() > 0 ==> b.last_partition == p.last().0 && b.inner_fn == folded(inner, p.last().1) && b.outer_fn == folded(outer, per_user(inner, p.drop_last(), conv)) } }
/// users one after another: each user's values aggregated, and those aggregates aggregated
pub open spec fn folding<IT: Copy, OT: Copy>(inner: AggregateFunction<IT>, outer: AggregateFunction<OT>, conv: spec_fn(IT) -> OT) -> spec_fn(Seq<(i64, IT)>) -> OT { |s: Seq<(i64, IT)>| value_of(folded(outer, per_user(inner, if s.len() == 0 { seq![(0i64, Seq::empty())] } else { runs(s) }, conv))) }
spec fn fresh_group<IT: Copy, OT: Copy>(a: AggregateFunction<IT>, b: AggregateFunction<OT>) -> Group<IT, OT> { Group { inner_fn: fresh(a), outer_fn: fresh(b), first: true, last_partition: 0 } }
spec fn step<IT: Copy, OT: Copy>(g: Group<IT, OT>, u: i64, v: IT, conv: spec_fn(IT) -> OT) -> Group<IT, OT> {
    if g.first || g.last_partition == u { Group { inner_fn: took(g.inner_fn, v), outer_fn: g.outer_fn, first: false, last_partition: u } } else { Group { inner_fn: took(fresh(g.inner_fn), v), outer_fn: took(g.outer_fn, conv(value_of(g.inner_fn))), first: false, last_partition: u } } }
proof fn lemma_closing<IT: Copy, OT: Copy>(inner: AggregateFunction<IT>, outer: AggregateFunction<OT>, conv: spec_fn(IT) -> OT)
    ensures forall|b: Group<IT, OT>, s: Seq<(i64, IT)>| #[trigger] held(inner, outer, conv)(b, s) ==> value_of(took(b.outer_fn, conv(value_of(b.inner_fn)))) == folding(inner, outer, conv)(s),
{
    assert forall|b: Group<IT, OT>, s: Seq<(i64, IT)>| #[trigger] held(inner, outer, conv)(b, s) implies value_of(took(b.outer_fn, conv(value_of(b.inner_fn)))) == folding(inner, outer, conv)(s) by {
        let p = if s.len() == 0 { seq![(0i64, Seq::<IT>::empty())] } else { runs(s) };
        if s.len() > 0 { lemma_runs(s.drop_last(), s.last()); assert(s.drop_last().push(s.last()) =~= s); lemma_runs(s, s.last()); }
        assert(p.drop_last().push(p.last()) =~= p);
        assert(per_user(inner, p, conv) =~= per_user(inner, p.drop_last(), conv).push(conv(value_of(folded(inner, p.last().1)))));
        lemma_took(outer, per_user(inner, p.drop_last(), conv), conv(value_of(folded(inner, p.last().1))));
        if s.len() == 0 { assert(per_user(inner, p.drop_last(), conv) =~= Seq::empty()); }
    }
}
#[verifier::reject_recursive_types(IT)]
#[verifier::reject_recursive_types(OT)]
//@item src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs self::Aggregate | vis=keep
impl<T, IT, OT> Aggregate<T, IT, OT> where T: Copy, IT: Copy, OT: Copy {
    pub closed spec fn is_grouped(&self) -> bool { self.groups is Some }
    pub closed spec fn map(&self) -> Option<Map<OwnedRow, Group<IT, OT>>> { match self.groups { Some(g) => Some(g.groups@), None => None } }
    pub closed spec fn rep_as(&self, h: Seq<Seen<IT>>, ex: Option<Set<i64>>, conv: spec_fn(IT) -> OT) -> bool { stands(self.map(), self.single_group, h, held(self.inner_fn, self.outer_fn, conv)) && self.okskip(ex) }
    pub closed spec fn okskip(&self, ex: Option<Set<i64>>) -> bool { self.skip ==> !let_in(ex, self.skip_partition) }
    pub closed spec fn same(&self, o: &Self) -> bool { self.filter == o.filter && self.predicate == o.predicate && self.partition_col == o.partition_col && fresh(self.inner_fn) == fresh(o.inner_fn) && fresh(self.outer_fn) == fresh(o.outer_fn) && (self.groups is Some <==> o.groups is Some) && (self.groups is Some ==> self.groups->0.exprs@ == o.groups->0.exprs@) }
    pub closed spec fn whole(&self, b: RecordBatch) -> bool { forall|i: int| 0 <= i < rows_of(b) ==> (#[trigger] on::<i64>(self.partition_col.id(), b)[i]) is Some }
    /// the aggregates given hold nothing yet
    pub open spec fn blank(a: AggregateFunction<IT>, b: AggregateFunction<OT>) -> bool { a == fresh(a) && b == fresh(b) }
//@fn src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs Aggregate::try_new | ret=r block vis=keep
//@contract
    requires Self::blank(inner_fn, outer_fn),
    ensures r is Ok ==> forall|ex: Option<Set<i64>>, conv: spec_fn(IT) -> OT| #[trigger] r->Ok_0.rep_as(Seq::empty(), ex, conv),
//@start
    proof { reveal(stands); }
//@end
}
proof fn lemma_row<T: Copy, IT: Copy, OT: Copy>(a: Aggregate<T, IT, OT>, b: Aggregate<T, IT, OT>, r: Seen<IT>, ex: Option<Set<i64>>, conv: spec_fn(IT) -> OT)
    requires a.same(&b), a.inner_fn == b.inner_fn, a.outer_fn == b.outer_fn, a.okskip(ex) && r.2 is None ==> a.groups == b.groups && a.single_group == b.single_group,
        a.okskip(ex) ==> b.okskip(ex),
        a.okskip(ex) && r.2 is Some && a.groups is None ==> b.single_group == step(a.single_group, r.1, r.2->0, conv),
        a.okskip(ex) && r.2 is Some && a.groups is Some ==> b.groups->0.groups@ =~= a.groups->0.groups@.insert(r.0, b.groups->0.groups@[r.0]) && b.groups->0.groups@[r.0] == step(if a.groups->0.groups@.contains_key(r.0) { a.groups->0.groups@[r.0] } else { fresh_group(a.inner_fn, a.outer_fn) }, r.1, r.2->0, conv),
    ensures forall|h: Seq<Seen<IT>>| #[trigger] a.rep_as(h, ex, conv) ==> b.rep_as(h.push(r), ex, conv),
{
    let f = fresh_group(a.inner_fn, a.outer_fn); let ok = held(a.inner_fn, a.outer_fn, conv);
    assert forall|g: Group<IT, OT>, g2: Group<IT, OT>, x: (i64, IT)| g2 == step(g, x.0, x.1, conv) implies #[trigger] fed(g, g2, x, ok) by {
        assert forall|s: Seq<(i64, IT)>| #[trigger] ok(g, s) implies ok(g2, s.push(x)) by {
            let p = runs(s); let q = runs(s.push(x)); lemma_runs(s, x); lemma_kind(a.inner_fn, Seq::empty()); lemma_kind(a.outer_fn, Seq::empty());
            if s.len() > 0 { lemma_kind(a.inner_fn, p.last().1); }
            if s.len() > 0 && p.last().0 == x.0 { lemma_took(a.inner_fn, p.last().1, x.1); assert(q.drop_last() =~= p.drop_last()); }
            else { lemma_took(a.inner_fn, Seq::empty(), x.1); assert(Seq::<IT>::empty().push(x.1) =~= seq![x.1]); assert(q.drop_last() =~= p);
                if s.len() > 0 { let e = conv(value_of(folded(a.inner_fn, p.last().1))); assert(p.drop_last().push(p.last()) =~= p); assert(per_user(a.inner_fn, p, conv) =~= per_user(a.inner_fn, p.drop_last(), conv).push(e)); lemma_took(a.outer_fn, per_user(a.inner_fn, p.drop_last(), conv), e); }
                else { assert(per_user(a.inner_fn, p, conv) =~= Seq::empty()); lemma_took(a.outer_fn, Seq::empty(), arbitrary()); } }
        }
    }
    assert(ok(f, Seq::empty()));
    if a.okskip(ex) { lemma_stands(a.map(), a.single_group, b.map(), b.single_group, r, f, ok); }
}
impl Aggregate<i64, i64, i64> {
    pub open spec fn conv() -> spec_fn(i64) -> i64 { |v: i64| times_of(v as i64, 1 as i64) }
    pub closed spec fn rep(&self, h: Seq<Seen<i64>>, ex: Option<Set<i64>>) -> bool { self.rep_as(h, ex, Self::conv()) }
    pub closed spec fn answer(&self) -> spec_fn(Seq<(i64, i64)>) -> i64 { folding(self.inner_fn, self.outer_fn, Self::conv()) }
    pub closed spec fn seen(&self, b: RecordBatch, ex: Option<Set<i64>>, i: int) -> Seen<i64> {
        let u = on::<i64>(self.partition_col.id(), b)[i]->0;
        (key_at(self.groups->0.exprs@, b, i), u, if let_in(ex, u) && (self.filter is Some ==> on::<bool>(self.filter->0.id(), b)[i] == Some(true)) && on::<i64>(self.predicate.id(), b)[i] is Some { Some(on::<i64>(self.predicate.id(), b)[i]->0 as i64) } else { None }) }
    pub open spec fn rows(&self, b: RecordBatch, ex: Option<Set<i64>>) -> Seq<Seen<i64>> { Seq::new(rows_of(b), |i: int| self.seen(b, ex, i)) }
//@fn exp:agg(i64,Int64Array,i64,i64)@src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs [PartitionedAggregateExpr for Aggregate<i64, i64, i64>]::evaluate | ret=r block vis=keep
//@contract
    requires old(self).whole(*batch),
    ensures final(self).same(old(self)), r is Ok ==> forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, asked(partition_exist)) ==> final(self).rep(h + old(self).rows(*batch, asked(partition_exist)), asked(partition_exist)),
//@loop 0 iter=it
    invariant
        self.same(old(self)), old(self).whole(*batch),
        partitions@ == on::<i64>(old(self).partition_col.id(), *batch), partitions@.len() == rows_of(*batch), predicate@ == on::<i64>(old(self).predicate.id(), *batch), predicate@.len() == rows_of(*batch),
        filter is Some <==> old(self).filter is Some, filter is Some ==> filter->0@ == on::<bool>(old(self).filter->0.id(), *batch) && filter->0@.len() == rows_of(*batch),
        rows is Some <==> old(self).groups is Some, rows is Some ==> encoded_of(rows->0) == (old(self).groups->0.exprs@, *batch),
        it.seq().len() == rows_of(*batch), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i64>(old(self).partition_col.id(), *batch)[i]),
        
        forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, asked(partition_exist)) ==> self.rep(h + old(self).rows(*batch, asked(partition_exist)).take(it.index@), asked(partition_exist)),
//@loopstart 0
    let ghost before = *self; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, asked(partition_exist));
    proof { assert(it.seq()[k] == (k as usize, on::<i64>(old(self).partition_col.id(), *batch)[k])); assert(rs[k] == old(self).seen(*batch, asked(partition_exist), k)); }
//@loopend 0
    proof { assert(self.same(old(self))); lemma_row(before, *self, rs[k], asked(partition_exist), Self::conv()); assert forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, asked(partition_exist)) implies self.rep(h + rs.take(k + 1), asked(partition_exist)) by { assert(h + rs.take(k + 1) =~= (h + rs.take(k)).push(rs[k])); assert(before.rep(h + rs.take(k), asked(partition_exist))); assert(self.rep((h + rs.take(k)).push(rs[k]), asked(partition_exist))); } }
//@start
    proof { let rs = old(self).rows(*batch, asked(partition_exist)); assert(rs.take(rs.len() as int) =~= rs); assert forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, asked(partition_exist)) implies old(self).rep(h + rs.take(0), asked(partition_exist)) by { assert(h + rs.take(0) =~= h); } }
//@end
//@fn exp:agg(i64,Int64Array,i64,i64)@src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs [PartitionedAggregateExpr for Aggregate<i64, i64, i64>]::finalize | ret=r block vis=keep anyloops
//@rule for ( row , group ) in groups . groups . iter_mut ( ) { $$b } =>> let ghost order_ = groups.groups@; let keys_ = keys_of(&groups.groups); let ghost all_ = keys_@; for row in it: keys_     invariant it.seq() == all_, groups.groups@.dom() =~= order_.dom(), it.seq().no_duplicates(), forall|k: OwnedRow| #[trigger] it.seq().contains(k) <==> order_.contains_key(k),         rows@.map_values(|a: Row| row_of(a)) =~= it.seq().take(it.index@), res_col_b@.len() == it.index@, forall|j: int| it.index@ <= j < it.seq().len() ==> groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]],         forall|j: int| 0 <= j < it.index@ ==> #[trigger] res_col_b@[j] == Some(value_of(took(order_[all_[j]].outer_fn, times_of(value_of(order_[all_[j]].inner_fn) as i64, 1 as i64)))), { proof { assert(it.seq().contains(it.seq()[it.index@])); } let ghost now_ = groups.groups@; let group = slot_mut(&mut groups.groups, &row); $$b proof { assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(row)); assert forall|j: int| it.index@ + 1 <= j < it.seq().len() implies groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]] by { assert(it.seq()[j] != row); assert(now_[it.seq()[j]] == order_[it.seq()[j]]); } } } proof { assert(all_.take(all_.len() as int) =~= all_); assert(order_ == old(self).groups->0.groups@); lemma_closing(old(self).inner_fn, old(self).outer_fn, Self::conv()); lemma_listed(order_, old(self).single_group, all_, res_col_b@, held(old(self).inner_fn, old(self).outer_fn, Self::conv()), folding(old(self).inner_fn, old(self).outer_fn, Self::conv())); } 
//@contract
    ensures r is Ok ==> forall|h: Seq<Seen<i64>>, ex: Option<Set<i64>>| #[trigger] old(self).rep(h, ex) ==> tells(old(self).is_grouped(), h, old(self).answer(), r->Ok_0@),
//@start
    proof { reveal(stands); lemma_closing(old(self).inner_fn, old(self).outer_fn, Self::conv()); }
//@end
//@fn exp:agg(i64,Int64Array,i64,i64)@src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs [PartitionedAggregateExpr for Aggregate<i64, i64, i64>]::make_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.same(self) && forall|ex: Option<Set<i64>>| #[trigger] r->Ok_0.rep(Seq::empty(), ex),
//@start
    proof { reveal(stands); }
//@end
}
impl Aggregate<i64, i64, i128> {
    pub open spec fn conv() -> spec_fn(i64) -> i128 { |v: i64| times_of(v as i128, decimal_one() as i128) }
    pub closed spec fn rep(&self, h: Seq<Seen<i64>>, ex: Option<Set<i64>>) -> bool { self.rep_as(h, ex, Self::conv()) }
    pub closed spec fn answer(&self) -> spec_fn(Seq<(i64, i64)>) -> i128 { folding(self.inner_fn, self.outer_fn, Self::conv()) }
    pub closed spec fn seen(&self, b: RecordBatch, ex: Option<Set<i64>>, i: int) -> Seen<i64> {
        let u = on::<i64>(self.partition_col.id(), b)[i]->0;
        (key_at(self.groups->0.exprs@, b, i), u, if let_in(ex, u) && (self.filter is Some ==> on::<bool>(self.filter->0.id(), b)[i] == Some(true)) && on::<i64>(self.predicate.id(), b)[i] is Some { Some(on::<i64>(self.predicate.id(), b)[i]->0 as i64) } else { None }) }
    pub open spec fn rows(&self, b: RecordBatch, ex: Option<Set<i64>>) -> Seq<Seen<i64>> { Seq::new(rows_of(b), |i: int| self.seen(b, ex, i)) }
//@fn exp:agg(i64,Int64Array,i64,i128)@src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs [PartitionedAggregateExpr for Aggregate<i64, i64, i128>]::evaluate | ret=r block vis=keep
//@contract
    requires old(self).whole(*batch),
    ensures final(self).same(old(self)), r is Ok ==> forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, asked(partition_exist)) ==> final(self).rep(h + old(self).rows(*batch, asked(partition_exist)), asked(partition_exist)),
//@loop 0 iter=it
    invariant
        self.same(old(self)), old(self).whole(*batch),
        partitions@ == on::<i64>(old(self).partition_col.id(), *batch), partitions@.len() == rows_of(*batch), predicate@ == on::<i64>(old(self).predicate.id(), *batch), predicate@.len() == rows_of(*batch),
        filter is Some <==> old(self).filter is Some, filter is Some ==> filter->0@ == on::<bool>(old(self).filter->0.id(), *batch) && filter->0@.len() == rows_of(*batch),
        rows is Some <==> old(self).groups is Some, rows is Some ==> encoded_of(rows->0) == (old(self).groups->0.exprs@, *batch),
        it.seq().len() == rows_of(*batch), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i64>(old(self).partition_col.id(), *batch)[i]),
        
        forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, asked(partition_exist)) ==> self.rep(h + old(self).rows(*batch, asked(partition_exist)).take(it.index@), asked(partition_exist)),
//@loopstart 0
    let ghost before = *self; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, asked(partition_exist));
    proof { assert(it.seq()[k] == (k as usize, on::<i64>(old(self).partition_col.id(), *batch)[k])); assert(rs[k] == old(self).seen(*batch, asked(partition_exist), k)); }
//@loopend 0
    proof { assert(self.same(old(self))); lemma_row(before, *self, rs[k], asked(partition_exist), Self::conv()); assert forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, asked(partition_exist)) implies self.rep(h + rs.take(k + 1), asked(partition_exist)) by { assert(h + rs.take(k + 1) =~= (h + rs.take(k)).push(rs[k])); assert(before.rep(h + rs.take(k), asked(partition_exist))); assert(self.rep((h + rs.take(k)).push(rs[k]), asked(partition_exist))); } }
//@start
    proof { let rs = old(self).rows(*batch, asked(partition_exist)); assert(rs.take(rs.len() as int) =~= rs); assert forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, asked(partition_exist)) implies old(self).rep(h + rs.take(0), asked(partition_exist)) by { assert(h + rs.take(0) =~= h); } }
//@end
//@fn exp:agg(i64,Int64Array,i64,i128)@src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs [PartitionedAggregateExpr for Aggregate<i64, i64, i128>]::finalize | ret=r block vis=keep anyloops
//@rule for ( row , group ) in groups . groups . iter_mut ( ) { $$b } =>> let ghost order_ = groups.groups@; let keys_ = keys_of(&groups.groups); let ghost all_ = keys_@; for row in it: keys_     invariant it.seq() == all_, groups.groups@.dom() =~= order_.dom(), it.seq().no_duplicates(), forall|k: OwnedRow| #[trigger] it.seq().contains(k) <==> order_.contains_key(k),         rows@.map_values(|a: Row| row_of(a)) =~= it.seq().take(it.index@), res_col_b@.len() == it.index@, forall|j: int| it.index@ <= j < it.seq().len() ==> groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]],         forall|j: int| 0 <= j < it.index@ ==> #[trigger] res_col_b@[j] == Some(value_of(took(order_[all_[j]].outer_fn, times_of(value_of(order_[all_[j]].inner_fn) as i128, decimal_one() as i128)))), { proof { assert(it.seq().contains(it.seq()[it.index@])); } let ghost now_ = groups.groups@; let group = slot_mut(&mut groups.groups, &row); $$b proof { assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(row)); assert forall|j: int| it.index@ + 1 <= j < it.seq().len() implies groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]] by { assert(it.seq()[j] != row); assert(now_[it.seq()[j]] == order_[it.seq()[j]]); } } } proof { assert(all_.take(all_.len() as int) =~= all_); assert(order_ == old(self).groups->0.groups@); lemma_closing(old(self).inner_fn, old(self).outer_fn, Self::conv()); lemma_listed(order_, old(self).single_group, all_, res_col_b@, held(old(self).inner_fn, old(self).outer_fn, Self::conv()), folding(old(self).inner_fn, old(self).outer_fn, Self::conv())); } 
//@contract
    ensures r is Ok ==> forall|h: Seq<Seen<i64>>, ex: Option<Set<i64>>| #[trigger] old(self).rep(h, ex) ==> tells(old(self).is_grouped(), h, old(self).answer(), r->Ok_0@),
//@start
    proof { reveal(stands); lemma_closing(old(self).inner_fn, old(self).outer_fn, Self::conv()); }
//@end
//@fn exp:agg(i64,Int64Array,i64,i128)@src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs [PartitionedAggregateExpr for Aggregate<i64, i64, i128>]::make_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.same(self) && forall|ex: Option<Set<i64>>| #[trigger] r->Ok_0.rep(Seq::empty(), ex),
//@start
    proof { reveal(stands); }
//@end
}
impl Aggregate<i64, i128, i128> {
    pub open spec fn conv() -> spec_fn(i128) -> i128 { |v: i128| times_of(v as i128, decimal_one() as i128) }
    pub closed spec fn rep(&self, h: Seq<Seen<i128>>, ex: Option<Set<i64>>) -> bool { self.rep_as(h, ex, Self::conv()) }
    pub closed spec fn answer(&self) -> spec_fn(Seq<(i64, i128)>) -> i128 { folding(self.inner_fn, self.outer_fn, Self::conv()) }
    pub closed spec fn seen(&self, b: RecordBatch, ex: Option<Set<i64>>, i: int) -> Seen<i128> {
        let u = on::<i64>(self.partition_col.id(), b)[i]->0;
        (key_at(self.groups->0.exprs@, b, i), u, if let_in(ex, u) && (self.filter is Some ==> on::<bool>(self.filter->0.id(), b)[i] == Some(true)) && on::<i64>(self.predicate.id(), b)[i] is Some { Some(on::<i64>(self.predicate.id(), b)[i]->0 as i128) } else { None }) }
    pub open spec fn rows(&self, b: RecordBatch, ex: Option<Set<i64>>) -> Seq<Seen<i128>> { Seq::new(rows_of(b), |i: int| self.seen(b, ex, i)) }
//@fn exp:agg(i64,Int64Array,i128,i128)@src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs [PartitionedAggregateExpr for Aggregate<i64, i128, i128>]::evaluate | ret=r block vis=keep
//@contract
    requires old(self).whole(*batch),
    ensures final(self).same(old(self)), r is Ok ==> forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, asked(partition_exist)) ==> final(self).rep(h + old(self).rows(*batch, asked(partition_exist)), asked(partition_exist)),
//@loop 0 iter=it
    invariant
        self.same(old(self)), old(self).whole(*batch),
        partitions@ == on::<i64>(old(self).partition_col.id(), *batch), partitions@.len() == rows_of(*batch), predicate@ == on::<i64>(old(self).predicate.id(), *batch), predicate@.len() == rows_of(*batch),
        filter is Some <==> old(self).filter is Some, filter is Some ==> filter->0@ == on::<bool>(old(self).filter->0.id(), *batch) && filter->0@.len() == rows_of(*batch),
        rows is Some <==> old(self).groups is Some, rows is Some ==> encoded_of(rows->0) == (old(self).groups->0.exprs@, *batch),
        it.seq().len() == rows_of(*batch), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i64>(old(self).partition_col.id(), *batch)[i]),
        
        forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, asked(partition_exist)) ==> self.rep(h + old(self).rows(*batch, asked(partition_exist)).take(it.index@), asked(partition_exist)),
//@loopstart 0
    let ghost before = *self; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, asked(partition_exist));
    proof { assert(it.seq()[k] == (k as usize, on::<i64>(old(self).partition_col.id(), *batch)[k])); assert(rs[k] == old(self).seen(*batch, asked(partition_exist), k)); }
//@loopend 0
    proof { assert(self.same(old(self))); lemma_row(before, *self, rs[k], asked(partition_exist), Self::conv()); assert forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, asked(partition_exist)) implies self.rep(h + rs.take(k + 1), asked(partition_exist)) by { assert(h + rs.take(k + 1) =~= (h + rs.take(k)).push(rs[k])); assert(before.rep(h + rs.take(k), asked(partition_exist))); assert(self.rep((h + rs.take(k)).push(rs[k]), asked(partition_exist))); } }
//@start
    proof { let rs = old(self).rows(*batch, asked(partition_exist)); assert(rs.take(rs.len() as int) =~= rs); assert forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, asked(partition_exist)) implies old(self).rep(h + rs.take(0), asked(partition_exist)) by { assert(h + rs.take(0) =~= h); } }
//@end
//@fn exp:agg(i64,Int64Array,i128,i128)@src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs [PartitionedAggregateExpr for Aggregate<i64, i128, i128>]::finalize | ret=r block vis=keep anyloops
//@rule for ( row , group ) in groups . groups . iter_mut ( ) { $$b } =>> let ghost order_ = groups.groups@; let keys_ = keys_of(&groups.groups); let ghost all_ = keys_@; for row in it: keys_     invariant it.seq() == all_, groups.groups@.dom() =~= order_.dom(), it.seq().no_duplicates(), forall|k: OwnedRow| #[trigger] it.seq().contains(k) <==> order_.contains_key(k),         rows@.map_values(|a: Row| row_of(a)) =~= it.seq().take(it.index@), res_col_b@.len() == it.index@, forall|j: int| it.index@ <= j < it.seq().len() ==> groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]],         forall|j: int| 0 <= j < it.index@ ==> #[trigger] res_col_b@[j] == Some(value_of(took(order_[all_[j]].outer_fn, times_of(value_of(order_[all_[j]].inner_fn) as i128, decimal_one() as i128)))), { proof { assert(it.seq().contains(it.seq()[it.index@])); } let ghost now_ = groups.groups@; let group = slot_mut(&mut groups.groups, &row); $$b proof { assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(row)); assert forall|j: int| it.index@ + 1 <= j < it.seq().len() implies groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]] by { assert(it.seq()[j] != row); assert(now_[it.seq()[j]] == order_[it.seq()[j]]); } } } proof { assert(all_.take(all_.len() as int) =~= all_); assert(order_ == old(self).groups->0.groups@); lemma_closing(old(self).inner_fn, old(self).outer_fn, Self::conv()); lemma_listed(order_, old(self).single_group, all_, res_col_b@, held(old(self).inner_fn, old(self).outer_fn, Self::conv()), folding(old(self).inner_fn, old(self).outer_fn, Self::conv())); } 
//@contract
    ensures r is Ok ==> forall|h: Seq<Seen<i128>>, ex: Option<Set<i64>>| #[trigger] old(self).rep(h, ex) ==> tells(old(self).is_grouped(), h, old(self).answer(), r->Ok_0@),
//@start
    proof { reveal(stands); lemma_closing(old(self).inner_fn, old(self).outer_fn, Self::conv()); }
//@end
//@fn exp:agg(i64,Int64Array,i128,i128)@src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs [PartitionedAggregateExpr for Aggregate<i64, i128, i128>]::make_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.same(self) && forall|ex: Option<Set<i64>>| #[trigger] r->Ok_0.rep(Seq::empty(), ex),
//@start
    proof { reveal(stands); }
//@end
}
impl Aggregate<i128, i128, i128> {
    pub open spec fn conv() -> spec_fn(i128) -> i128 { |v: i128| times_of(v as i128, 1 as i128) }
    pub closed spec fn rep(&self, h: Seq<Seen<i128>>, ex: Option<Set<i64>>) -> bool { self.rep_as(h, ex, Self::conv()) }
    pub closed spec fn answer(&self) -> spec_fn(Seq<(i64, i128)>) -> i128 { folding(self.inner_fn, self.outer_fn, Self::conv()) }
    pub closed spec fn seen(&self, b: RecordBatch, ex: Option<Set<i64>>, i: int) -> Seen<i128> {
        let u = on::<i64>(self.partition_col.id(), b)[i]->0;
        (key_at(self.groups->0.exprs@, b, i), u, if let_in(ex, u) && (self.filter is Some ==> on::<bool>(self.filter->0.id(), b)[i] == Some(true)) && on::<i128>(self.predicate.id(), b)[i] is Some { Some(on::<i128>(self.predicate.id(), b)[i]->0 as i128) } else { None }) }
    pub open spec fn rows(&self, b: RecordBatch, ex: Option<Set<i64>>) -> Seq<Seen<i128>> { Seq::new(rows_of(b), |i: int| self.seen(b, ex, i)) }
//@fn exp:agg(i128,Decimal128Array,i128,i128)@src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs [PartitionedAggregateExpr for Aggregate<i128, i128, i128>]::evaluate | ret=r block vis=keep
//@contract
    requires old(self).whole(*batch),
    ensures final(self).same(old(self)), r is Ok ==> forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, asked(partition_exist)) ==> final(self).rep(h + old(self).rows(*batch, asked(partition_exist)), asked(partition_exist)),
//@loop 0 iter=it
    invariant
        self.same(old(self)), old(self).whole(*batch),
        partitions@ == on::<i64>(old(self).partition_col.id(), *batch), partitions@.len() == rows_of(*batch), predicate@ == on::<i128>(old(self).predicate.id(), *batch), predicate@.len() == rows_of(*batch),
        filter is Some <==> old(self).filter is Some, filter is Some ==> filter->0@ == on::<bool>(old(self).filter->0.id(), *batch) && filter->0@.len() == rows_of(*batch),
        rows is Some <==> old(self).groups is Some, rows is Some ==> encoded_of(rows->0) == (old(self).groups->0.exprs@, *batch),
        it.seq().len() == rows_of(*batch), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i64>(old(self).partition_col.id(), *batch)[i]),
        
        forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, asked(partition_exist)) ==> self.rep(h + old(self).rows(*batch, asked(partition_exist)).take(it.index@), asked(partition_exist)),
//@loopstart 0
    let ghost before = *self; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, asked(partition_exist));
    proof { assert(it.seq()[k] == (k as usize, on::<i64>(old(self).partition_col.id(), *batch)[k])); assert(rs[k] == old(self).seen(*batch, asked(partition_exist), k)); }
//@loopend 0
    proof { assert(self.same(old(self))); lemma_row(before, *self, rs[k], asked(partition_exist), Self::conv()); assert forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, asked(partition_exist)) implies self.rep(h + rs.take(k + 1), asked(partition_exist)) by { assert(h + rs.take(k + 1) =~= (h + rs.take(k)).push(rs[k])); assert(before.rep(h + rs.take(k), asked(partition_exist))); assert(self.rep((h + rs.take(k)).push(rs[k]), asked(partition_exist))); } }
//@start
    proof { let rs = old(self).rows(*batch, asked(partition_exist)); assert(rs.take(rs.len() as int) =~= rs); assert forall|h: Seq<Seen<i128>>| #[trigger] old(self).rep(h, asked(partition_exist)) implies old(self).rep(h + rs.take(0), asked(partition_exist)) by { assert(h + rs.take(0) =~= h); } }
//@end
//@fn exp:agg(i128,Decimal128Array,i128,i128)@src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs [PartitionedAggregateExpr for Aggregate<i128, i128, i128>]::finalize | ret=r block vis=keep anyloops
//@rule for ( row , group ) in groups . groups . iter_mut ( ) { $$b } =>> let ghost order_ = groups.groups@; let keys_ = keys_of(&groups.groups); let ghost all_ = keys_@; for row in it: keys_     invariant it.seq() == all_, groups.groups@.dom() =~= order_.dom(), it.seq().no_duplicates(), forall|k: OwnedRow| #[trigger] it.seq().contains(k) <==> order_.contains_key(k),         rows@.map_values(|a: Row| row_of(a)) =~= it.seq().take(it.index@), res_col_b@.len() == it.index@, forall|j: int| it.index@ <= j < it.seq().len() ==> groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]],         forall|j: int| 0 <= j < it.index@ ==> #[trigger] res_col_b@[j] == Some(value_of(took(order_[all_[j]].outer_fn, times_of(value_of(order_[all_[j]].inner_fn) as i128, 1 as i128)))), { proof { assert(it.seq().contains(it.seq()[it.index@])); } let ghost now_ = groups.groups@; let group = slot_mut(&mut groups.groups, &row); $$b proof { assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(row)); assert forall|j: int| it.index@ + 1 <= j < it.seq().len() implies groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]] by { assert(it.seq()[j] != row); assert(now_[it.seq()[j]] == order_[it.seq()[j]]); } } } proof { assert(all_.take(all_.len() as int) =~= all_); assert(order_ == old(self).groups->0.groups@); lemma_closing(old(self).inner_fn, old(self).outer_fn, Self::conv()); lemma_listed(order_, old(self).single_group, all_, res_col_b@, held(old(self).inner_fn, old(self).outer_fn, Self::conv()), folding(old(self).inner_fn, old(self).outer_fn, Self::conv())); } 
//@contract
    ensures r is Ok ==> forall|h: Seq<Seen<i128>>, ex: Option<Set<i64>>| #[trigger] old(self).rep(h, ex) ==> tells(old(self).is_grouped(), h, old(self).answer(), r->Ok_0@),
//@start
    proof { reveal(stands); lemma_closing(old(self).inner_fn, old(self).outer_fn, Self::conv()); }
//@end
//@fn exp:agg(i128,Decimal128Array,i128,i128)@src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs [PartitionedAggregateExpr for Aggregate<i128, i128, i128>]::make_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.same(self) && forall|ex: Option<Set<i64>>| #[trigger] r->Ok_0.rep(Seq::empty(), ex),
//@start
    proof { reveal(stands); }
//@end
}
impl Aggregate<i32, i64, i64> {
    pub open spec fn conv() -> spec_fn(i64) -> i64 { |v: i64| times_of(v as i64, 1 as i64) }
    pub closed spec fn rep(&self, h: Seq<Seen<i64>>, ex: Option<Set<i64>>) -> bool { self.rep_as(h, ex, Self::conv()) }
    pub closed spec fn answer(&self) -> spec_fn(Seq<(i64, i64)>) -> i64 { folding(self.inner_fn, self.outer_fn, Self::conv()) }
    pub closed spec fn seen(&self, b: RecordBatch, ex: Option<Set<i64>>, i: int) -> Seen<i64> {
        let u = on::<i64>(self.partition_col.id(), b)[i]->0;
        (key_at(self.groups->0.exprs@, b, i), u, if let_in(ex, u) && (self.filter is Some ==> on::<bool>(self.filter->0.id(), b)[i] == Some(true)) && on::<i32>(self.predicate.id(), b)[i] is Some { Some(on::<i32>(self.predicate.id(), b)[i]->0 as i64) } else { None }) }
    pub open spec fn rows(&self, b: RecordBatch, ex: Option<Set<i64>>) -> Seq<Seen<i64>> { Seq::new(rows_of(b), |i: int| self.seen(b, ex, i)) }
//@fn exp:agg(i32,Int32Array,i64,i64)@src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs [PartitionedAggregateExpr for Aggregate<i32, i64, i64>]::evaluate | ret=r block vis=keep
//@contract
    requires old(self).whole(*batch),
    ensures final(self).same(old(self)), r is Ok ==> forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, asked(partition_exist)) ==> final(self).rep(h + old(self).rows(*batch, asked(partition_exist)), asked(partition_exist)),
//@loop 0 iter=it
    invariant
        self.same(old(self)), old(self).whole(*batch),
        partitions@ == on::<i64>(old(self).partition_col.id(), *batch), partitions@.len() == rows_of(*batch), predicate@ == on::<i32>(old(self).predicate.id(), *batch), predicate@.len() == rows_of(*batch),
        filter is Some <==> old(self).filter is Some, filter is Some ==> filter->0@ == on::<bool>(old(self).filter->0.id(), *batch) && filter->0@.len() == rows_of(*batch),
        rows is Some <==> old(self).groups is Some, rows is Some ==> encoded_of(rows->0) == (old(self).groups->0.exprs@, *batch),
        it.seq().len() == rows_of(*batch), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i64>(old(self).partition_col.id(), *batch)[i]),
        
        forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, asked(partition_exist)) ==> self.rep(h + old(self).rows(*batch, asked(partition_exist)).take(it.index@), asked(partition_exist)),
//@loopstart 0
    let ghost before = *self; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, asked(partition_exist));
    proof { assert(it.seq()[k] == (k as usize, on::<i64>(old(self).partition_col.id(), *batch)[k])); assert(rs[k] == old(self).seen(*batch, asked(partition_exist), k)); }
//@loopend 0
    proof { assert(self.same(old(self))); lemma_row(before, *self, rs[k], asked(partition_exist), Self::conv()); assert forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, asked(partition_exist)) implies self.rep(h + rs.take(k + 1), asked(partition_exist)) by { assert(h + rs.take(k + 1) =~= (h + rs.take(k)).push(rs[k])); assert(before.rep(h + rs.take(k), asked(partition_exist))); assert(self.rep((h + rs.take(k)).push(rs[k]), asked(partition_exist))); } }
//@start
    proof { let rs = old(self).rows(*batch, asked(partition_exist)); assert(rs.take(rs.len() as int) =~= rs); assert forall|h: Seq<Seen<i64>>| #[trigger] old(self).rep(h, asked(partition_exist)) implies old(self).rep(h + rs.take(0), asked(partition_exist)) by { assert(h + rs.take(0) =~= h); } }
//@end
//@fn exp:agg(i32,Int32Array,i64,i64)@src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs [PartitionedAggregateExpr for Aggregate<i32, i64, i64>]::finalize | ret=r block vis=keep anyloops
//@rule for ( row , group ) in groups . groups . iter_mut ( ) { $$b } =>> let ghost order_ = groups.groups@; let keys_ = keys_of(&groups.groups); let ghost all_ = keys_@; for row in it: keys_     invariant it.seq() == all_, groups.groups@.dom() =~= order_.dom(), it.seq().no_duplicates(), forall|k: OwnedRow| #[trigger] it.seq().contains(k) <==> order_.contains_key(k),         rows@.map_values(|a: Row| row_of(a)) =~= it.seq().take(it.index@), res_col_b@.len() == it.index@, forall|j: int| it.index@ <= j < it.seq().len() ==> groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]],         forall|j: int| 0 <= j < it.index@ ==> #[trigger] res_col_b@[j] == Some(value_of(took(order_[all_[j]].outer_fn, times_of(value_of(order_[all_[j]].inner_fn) as i64, 1 as i64)))), { proof { assert(it.seq().contains(it.seq()[it.index@])); } let ghost now_ = groups.groups@; let group = slot_mut(&mut groups.groups, &row); $$b proof { assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(row)); assert forall|j: int| it.index@ + 1 <= j < it.seq().len() implies groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]] by { assert(it.seq()[j] != row); assert(now_[it.seq()[j]] == order_[it.seq()[j]]); } } } proof { assert(all_.take(all_.len() as int) =~= all_); assert(order_ == old(self).groups->0.groups@); lemma_closing(old(self).inner_fn, old(self).outer_fn, Self::conv()); lemma_listed(order_, old(self).single_group, all_, res_col_b@, held(old(self).inner_fn, old(self).outer_fn, Self::conv()), folding(old(self).inner_fn, old(self).outer_fn, Self::conv())); } 
//@contract
    ensures r is Ok ==> forall|h: Seq<Seen<i64>>, ex: Option<Set<i64>>| #[trigger] old(self).rep(h, ex) ==> tells(old(self).is_grouped(), h, old(self).answer(), r->Ok_0@),
//@start
    proof { reveal(stands); lemma_closing(old(self).inner_fn, old(self).outer_fn, Self::conv()); }
//@end
//@fn exp:agg(i32,Int32Array,i64,i64)@src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs [PartitionedAggregateExpr for Aggregate<i32, i64, i64>]::make_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.same(self) && forall|ex: Option<Set<i64>>| #[trigger] r->Ok_0.rep(Seq::empty(), ex),
//@start
    proof { reveal(stands); }
//@end
}
impl Aggregate<u64, u64, u64> {
    pub open spec fn conv() -> spec_fn(u64) -> u64 { |v: u64| times_of(v as u64, 1 as u64) }
    pub closed spec fn rep(&self, h: Seq<Seen<u64>>, ex: Option<Set<i64>>) -> bool { self.rep_as(h, ex, Self::conv()) }
    pub closed spec fn answer(&self) -> spec_fn(Seq<(i64, u64)>) -> u64 { folding(self.inner_fn, self.outer_fn, Self::conv()) }
    pub closed spec fn seen(&self, b: RecordBatch, ex: Option<Set<i64>>, i: int) -> Seen<u64> {
        let u = on::<i64>(self.partition_col.id(), b)[i]->0;
        (key_at(self.groups->0.exprs@, b, i), u, if let_in(ex, u) && (self.filter is Some ==> on::<bool>(self.filter->0.id(), b)[i] == Some(true)) && on::<u64>(self.predicate.id(), b)[i] is Some { Some(on::<u64>(self.predicate.id(), b)[i]->0 as u64) } else { None }) }
    pub open spec fn rows(&self, b: RecordBatch, ex: Option<Set<i64>>) -> Seq<Seen<u64>> { Seq::new(rows_of(b), |i: int| self.seen(b, ex, i)) }
//@fn exp:agg(u64,UInt64Array,u64,u64)@src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs [PartitionedAggregateExpr for Aggregate<u64, u64, u64>]::evaluate | ret=r block vis=keep
//@contract
    requires old(self).whole(*batch),
    ensures final(self).same(old(self)), r is Ok ==> forall|h: Seq<Seen<u64>>| #[trigger] old(self).rep(h, asked(partition_exist)) ==> final(self).rep(h + old(self).rows(*batch, asked(partition_exist)), asked(partition_exist)),
//@loop 0 iter=it
    invariant
        self.same(old(self)), old(self).whole(*batch),
        partitions@ == on::<i64>(old(self).partition_col.id(), *batch), partitions@.len() == rows_of(*batch), predicate@ == on::<u64>(old(self).predicate.id(), *batch), predicate@.len() == rows_of(*batch),
        filter is Some <==> old(self).filter is Some, filter is Some ==> filter->0@ == on::<bool>(old(self).filter->0.id(), *batch) && filter->0@.len() == rows_of(*batch),
        rows is Some <==> old(self).groups is Some, rows is Some ==> encoded_of(rows->0) == (old(self).groups->0.exprs@, *batch),
        it.seq().len() == rows_of(*batch), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i64>(old(self).partition_col.id(), *batch)[i]),
        
        forall|h: Seq<Seen<u64>>| #[trigger] old(self).rep(h, asked(partition_exist)) ==> self.rep(h + old(self).rows(*batch, asked(partition_exist)).take(it.index@), asked(partition_exist)),
//@loopstart 0
    let ghost before = *self; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, asked(partition_exist));
    proof { assert(it.seq()[k] == (k as usize, on::<i64>(old(self).partition_col.id(), *batch)[k])); assert(rs[k] == old(self).seen(*batch, asked(partition_exist), k)); }
//@loopend 0
    proof { assert(self.same(old(self))); lemma_row(before, *self, rs[k], asked(partition_exist), Self::conv()); assert forall|h: Seq<Seen<u64>>| #[trigger] old(self).rep(h, asked(partition_exist)) implies self.rep(h + rs.take(k + 1), asked(partition_exist)) by { assert(h + rs.take(k + 1) =~= (h + rs.take(k)).push(rs[k])); assert(before.rep(h + rs.take(k), asked(partition_exist))); assert(self.rep((h + rs.take(k)).push(rs[k]), asked(partition_exist))); } }
//@start
    proof { let rs = old(self).rows(*batch, asked(partition_exist)); assert(rs.take(rs.len() as int) =~= rs); assert forall|h: Seq<Seen<u64>>| #[trigger] old(self).rep(h, asked(partition_exist)) implies old(self).rep(h + rs.take(0), asked(partition_exist)) by { assert(h + rs.take(0) =~= h); } }
//@end
//@fn exp:agg(u64,UInt64Array,u64,u64)@src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs [PartitionedAggregateExpr for Aggregate<u64, u64, u64>]::finalize | ret=r block vis=keep anyloops
//@rule for ( row , group ) in groups . groups . iter_mut ( ) { $$b } =>> let ghost order_ = groups.groups@; let keys_ = keys_of(&groups.groups); let ghost all_ = keys_@; for row in it: keys_     invariant it.seq() == all_, groups.groups@.dom() =~= order_.dom(), it.seq().no_duplicates(), forall|k: OwnedRow| #[trigger] it.seq().contains(k) <==> order_.contains_key(k),         rows@.map_values(|a: Row| row_of(a)) =~= it.seq().take(it.index@), res_col_b@.len() == it.index@, forall|j: int| it.index@ <= j < it.seq().len() ==> groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]],         forall|j: int| 0 <= j < it.index@ ==> #[trigger] res_col_b@[j] == Some(value_of(took(order_[all_[j]].outer_fn, times_of(value_of(order_[all_[j]].inner_fn) as u64, 1 as u64)))), { proof { assert(it.seq().contains(it.seq()[it.index@])); } let ghost now_ = groups.groups@; let group = slot_mut(&mut groups.groups, &row); $$b proof { assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(row)); assert forall|j: int| it.index@ + 1 <= j < it.seq().len() implies groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]] by { assert(it.seq()[j] != row); assert(now_[it.seq()[j]] == order_[it.seq()[j]]); } } } proof { assert(all_.take(all_.len() as int) =~= all_); assert(order_ == old(self).groups->0.groups@); lemma_closing(old(self).inner_fn, old(self).outer_fn, Self::conv()); lemma_listed(order_, old(self).single_group, all_, res_col_b@, held(old(self).inner_fn, old(self).outer_fn, Self::conv()), folding(old(self).inner_fn, old(self).outer_fn, Self::conv())); } 
//@contract
    ensures r is Ok ==> forall|h: Seq<Seen<u64>>, ex: Option<Set<i64>>| #[trigger] old(self).rep(h, ex) ==> tells(old(self).is_grouped(), h, old(self).answer(), r->Ok_0@),
//@start
    proof { reveal(stands); lemma_closing(old(self).inner_fn, old(self).outer_fn, Self::conv()); }
//@end
//@fn exp:agg(u64,UInt64Array,u64,u64)@src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs [PartitionedAggregateExpr for Aggregate<u64, u64, u64>]::make_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.same(self) && forall|ex: Option<Set<i64>>| #[trigger] r->Ok_0.rep(Seq::empty(), ex),
//@start
    proof { reveal(stands); }
//@end
}
}
//@rule [ group_col , vec ! [ $b ] ] . concat ( ) =>> concat2(group_col, vec![$b])
//@rule Decimal128Builder :: with_capacity ( $$n ) . with_precision_and_scale ( $$m ) ? =>> Decimal128Builder::with_capacity($$n)
pub mod pcount { use super::*; broadcast use {crate::axiom_arr_len};
//@item src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs Group | vis=keep
impl<T> Group<T> where T: Copy {
//@fn src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs Group::new | ret=r block vis=keep
//@contract
    ensures r.is(outer_fn),
//@end
    pub closed spec fn is(&self, b: AggregateFunction<T>) -> bool { self.count == 0 && self.outer_fn == b && self.first && self.last_partition == 0 }
}
/// how many rows each user has, in turn; one each when only users are counted
pub open spec fn per_user<T>(distinct: bool, p: Seq<(i64, Seq<()>)>, conv: spec_fn(int) -> T) -> Seq<T> { p.map_values(|x: (i64, Seq<()>)| conv(tally(distinct, x.1))) }
pub open spec fn tally(distinct: bool, s: Seq<()>) -> int { if distinct && s.len() > 0 { 1 } else { s.len() as int } }
pub closed spec fn held<T: Copy>(outer: AggregateFunction<T>, distinct: bool, conv: spec_fn(int) -> T) -> spec_fn(Group<T>, Seq<(i64, ())>) -> bool { |b: Group<T>, s: Seq<(i64, ())>| { let p = runs(s);
    &&& b.first <==> s.len() == 0
    &&& s.len() == 0 ==> b.count == 0 && b.outer_fn == fresh(outer)
    &&& s.len() > 0 ==> b.last_partition == p.last().0 && b.count == tally(distinct, p.last().1) && b.outer_fn == folded(outer, per_user(distinct, p.drop_last(), conv)) } }
/// users one after another: each user's rows counted, and those counts aggregated
pub open spec fn folding<T: Copy>(outer: AggregateFunction<T>, distinct: bool, conv: spec_fn(int) -> T) -> spec_fn(Seq<(i64, ())>) -> T { |s: Seq<(i64, ())>| value_of(folded(outer, per_user(distinct, if s.len() == 0 { seq![(0i64, Seq::empty())] } else { runs(s) }, conv))) }
spec fn fresh_group<T: Copy>(b: AggregateFunction<T>) -> Group<T> { Group { count: 0, outer_fn: fresh(b), first: true, last_partition: 0 } }
spec fn step<T: Copy>(g: Group<T>, u: i64, distinct: bool, conv: spec_fn(int) -> T) -> Group<T> {
    if g.first || g.last_partition == u { Group { count: if distinct { 1 } else { (g.count + 1) as i64 }, outer_fn: g.outer_fn, first: false, last_partition: u } } else { Group { count: 1, outer_fn: took(g.outer_fn, conv(g.count as int)), first: false, last_partition: u } } }
proof fn lemma_closing<T: Copy>(outer: AggregateFunction<T>, distinct: bool, conv: spec_fn(int) -> T)
    ensures forall|b: Group<T>, s: Seq<(i64, ())>| #[trigger] held(outer, distinct, conv)(b, s) ==> value_of(took(b.outer_fn, conv(b.count as int))) == folding(outer, distinct, conv)(s),
{
    assert forall|b: Group<T>, s: Seq<(i64, ())>| #[trigger] held(outer, distinct, conv)(b, s) implies value_of(took(b.outer_fn, conv(b.count as int))) == folding(outer, distinct, conv)(s) by {
        let p = if s.len() == 0 { seq![(0i64, Seq::<()>::empty())] } else { runs(s) };
        if s.len() > 0 { lemma_runs(s.drop_last(), s.last()); assert(s.drop_last().push(s.last()) =~= s); lemma_runs(s, s.last()); }
        assert(p.drop_last().push(p.last()) =~= p);
        assert(per_user(distinct, p, conv) =~= per_user(distinct, p.drop_last(), conv).push(conv(tally(distinct, p.last().1))));
        lemma_took(outer, per_user(distinct, p.drop_last(), conv), conv(tally(distinct, p.last().1)));
        if s.len() == 0 { assert(per_user(distinct, p.drop_last(), conv) =~= Seq::empty()); }
    }
}
#[verifier::reject_recursive_types(T)]
//@item src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs PartitionedCount | vis=keep
impl<T> PartitionedCount<T> where T: Copy {
    pub closed spec fn is_grouped(&self) -> bool { self.groups is Some }
    pub closed spec fn map(&self) -> Option<Map<OwnedRow, Group<T>>> { match self.groups { Some(g) => Some(g.groups@), None => None } }
    pub closed spec fn rep_as(&self, h: Seq<Seen<()>>, ex: Option<Set<i64>>, conv: spec_fn(int) -> T) -> bool { stands(self.map(), self.single_group, h, held(self.outer_fn, self.distinct, conv)) && self.okskip(ex) }
    pub closed spec fn okskip(&self, ex: Option<Set<i64>>) -> bool { self.skip ==> !let_in(ex, self.skip_partition) }
    pub closed spec fn same(&self, o: &Self) -> bool { self.filter == o.filter && self.partition_col == o.partition_col && fresh(self.outer_fn) == fresh(o.outer_fn) && self.distinct == o.distinct && (self.groups is Some <==> o.groups is Some) && (self.groups is Some ==> self.groups->0.exprs@ == o.groups->0.exprs@) }
    pub closed spec fn whole(&self, b: RecordBatch) -> bool { forall|i: int| 0 <= i < rows_of(b) ==> (#[trigger] on::<i64>(self.partition_col.id(), b)[i]) is Some }
    /// the counters stay in range
    pub closed spec fn room(&self, n: int) -> bool { self.single_group.count + n <= i64::MAX && n < i64::MAX && (self.groups is Some ==> forall|k: OwnedRow| #[trigger] self.groups->0.groups@.contains_key(k) ==> self.groups->0.groups@[k].count + n <= i64::MAX) }
    pub closed spec fn seen(&self, b: RecordBatch, ex: Option<Set<i64>>, i: int) -> Seen<()> {
        let u = on::<i64>(self.partition_col.id(), b)[i]->0;
        (key_at(self.groups->0.exprs@, b, i), u, if let_in(ex, u) && (self.filter is Some ==> on::<bool>(self.filter->0.id(), b)[i] == Some(true)) { Some(()) } else { None }) }
    pub open spec fn rows(&self, b: RecordBatch, ex: Option<Set<i64>>) -> Seq<Seen<()>> { Seq::new(rows_of(b), |i: int| self.seen(b, ex, i)) }
//@fn src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs PartitionedCount::try_new | ret=r block vis=keep
//@contract
    requires outer_fn == fresh(outer_fn),
    ensures r is Ok ==> forall|ex: Option<Set<i64>>, conv: spec_fn(int) -> T| #[trigger] r->Ok_0.rep_as(Seq::empty(), ex, conv),
//@start
    proof { reveal(stands); }
//@end
}
proof fn lemma_row<T: Copy>(a: PartitionedCount<T>, b: PartitionedCount<T>, r: Seen<()>, ex: Option<Set<i64>>, conv: spec_fn(int) -> T)
    requires a.same(&b), a.outer_fn == b.outer_fn, a.okskip(ex) && r.2 is None ==> a.groups == b.groups && a.single_group == b.single_group,
        a.okskip(ex) ==> b.okskip(ex),
        a.okskip(ex) && r.2 is Some && a.groups is None ==> b.single_group == step(a.single_group, r.1, a.distinct, conv) && a.single_group.count < i64::MAX,
        a.okskip(ex) && r.2 is Some && a.groups is Some ==> b.groups->0.groups@ =~= a.groups->0.groups@.insert(r.0, b.groups->0.groups@[r.0]) && got(a.groups->0.groups@, r.0, fresh_group(a.outer_fn)).count < i64::MAX && b.groups->0.groups@[r.0] == step(got(a.groups->0.groups@, r.0, fresh_group(a.outer_fn)), r.1, a.distinct, conv),
    ensures forall|h: Seq<Seen<()>>| #[trigger] a.rep_as(h, ex, conv) ==> b.rep_as(h.push(r), ex, conv),
{
    let f = fresh_group(a.outer_fn); let d = a.distinct; let ok = held(a.outer_fn, d, conv);
    assert forall|g: Group<T>, g2: Group<T>, x: (i64, ())| g.count < i64::MAX && g2 == step(g, x.0, d, conv) implies #[trigger] fed(g, g2, x, ok) by {
        assert forall|s: Seq<(i64, ())>| #[trigger] ok(g, s) implies ok(g2, s.push(x)) by {
            let p = runs(s); let q = runs(s.push(x)); lemma_runs(s, x); lemma_kind(a.outer_fn, Seq::empty());
            if s.len() > 0 && p.last().0 == x.0 { assert(q.drop_last() =~= p.drop_last()); }
            else { assert(q.drop_last() =~= p);
                if s.len() > 0 { let e = conv(tally(d, p.last().1)); assert(p.drop_last().push(p.last()) =~= p); assert(per_user(d, p, conv) =~= per_user(d, p.drop_last(), conv).push(e)); lemma_took(a.outer_fn, per_user(d, p.drop_last(), conv), e); }
                else { assert(per_user(d, p, conv) =~= Seq::empty()); lemma_took(a.outer_fn, Seq::empty(), arbitrary()); } }
        }
    }
    assert(ok(f, Seq::empty()));
    if a.okskip(ex) { lemma_stands(a.map(), a.single_group, b.map(), b.single_group, r, f, ok); }
}
impl PartitionedCount<i64> {
    pub open spec fn conv() -> spec_fn(int) -> i64 { |n: int| n as i64 }
    pub closed spec fn rep(&self, h: Seq<Seen<()>>, ex: Option<Set<i64>>) -> bool { self.rep_as(h, ex, Self::conv()) }
    pub closed spec fn answer(&self) -> spec_fn(Seq<(i64, ())>) -> i64 { folding(self.outer_fn, self.distinct, Self::conv()) }
//@fn exp:count(i64,Int64Builder)@src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs [PartitionedAggregateExpr for PartitionedCount<i64>]::evaluate | ret=r block vis=keep
//@contract
    requires old(self).whole(*batch), old(self).room(rows_of(*batch) as int),
    ensures final(self).same(old(self)), r is Ok ==> forall|h: Seq<Seen<()>>| #[trigger] old(self).rep(h, asked(partition_exist)) ==> final(self).rep(h + old(self).rows(*batch, asked(partition_exist)), asked(partition_exist)),
//@loop 0 iter=it
    invariant
        self.same(old(self)), old(self).whole(*batch),
        partitions@ == on::<i64>(old(self).partition_col.id(), *batch), partitions@.len() == rows_of(*batch), self.room(rows_of(*batch) - it.index@),
        filter is Some <==> old(self).filter is Some, filter is Some ==> filter->0@ == on::<bool>(old(self).filter->0.id(), *batch) && filter->0@.len() == rows_of(*batch),
        rows is Some <==> old(self).groups is Some, rows is Some ==> encoded_of(rows->0) == (old(self).groups->0.exprs@, *batch),
        it.seq().len() == rows_of(*batch), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i64>(old(self).partition_col.id(), *batch)[i]),
        
        forall|h: Seq<Seen<()>>| #[trigger] old(self).rep(h, asked(partition_exist)) ==> self.rep(h + old(self).rows(*batch, asked(partition_exist)).take(it.index@), asked(partition_exist)),
//@loopstart 0
    let ghost before = *self; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, asked(partition_exist));
    proof { assert(it.seq()[k] == (k as usize, on::<i64>(old(self).partition_col.id(), *batch)[k])); assert(rs[k] == old(self).seen(*batch, asked(partition_exist), k)); }
//@loopend 0
    proof { assert(self.same(old(self))); lemma_row(before, *self, rs[k], asked(partition_exist), Self::conv()); assert forall|h: Seq<Seen<()>>| #[trigger] old(self).rep(h, asked(partition_exist)) implies self.rep(h + rs.take(k + 1), asked(partition_exist)) by { assert(h + rs.take(k + 1) =~= (h + rs.take(k)).push(rs[k])); assert(before.rep(h + rs.take(k), asked(partition_exist))); assert(self.rep((h + rs.take(k)).push(rs[k]), asked(partition_exist))); } }
//@start
    proof { let rs = old(self).rows(*batch, asked(partition_exist)); assert(rs.take(rs.len() as int) =~= rs); assert forall|h: Seq<Seen<()>>| #[trigger] old(self).rep(h, asked(partition_exist)) implies old(self).rep(h + rs.take(0), asked(partition_exist)) by { assert(h + rs.take(0) =~= h); } }
//@end
//@fn exp:count(i64,Int64Builder)@src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs [PartitionedAggregateExpr for PartitionedCount<i64>]::finalize | ret=r block vis=keep anyloops
//@rule for ( row , group ) in groups . groups . iter_mut ( ) { $$b } =>> let ghost order_ = groups.groups@; let keys_ = keys_of(&groups.groups); let ghost all_ = keys_@; for row in it: keys_     invariant it.seq() == all_, groups.groups@.dom() =~= order_.dom(), it.seq().no_duplicates(), forall|k: OwnedRow| #[trigger] it.seq().contains(k) <==> order_.contains_key(k),         rows@.map_values(|a: Row| row_of(a)) =~= it.seq().take(it.index@), res_col_b@.len() == it.index@, forall|j: int| it.index@ <= j < it.seq().len() ==> groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]],         forall|j: int| 0 <= j < it.index@ ==> #[trigger] res_col_b@[j] == Some(value_of(took(order_[all_[j]].outer_fn, order_[all_[j]].count as i64))), { proof { assert(it.seq().contains(it.seq()[it.index@])); } let ghost now_ = groups.groups@; let group = slot_mut(&mut groups.groups, &row); $$b proof { assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(row)); assert forall|j: int| it.index@ + 1 <= j < it.seq().len() implies groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]] by { assert(it.seq()[j] != row); assert(now_[it.seq()[j]] == order_[it.seq()[j]]); } } } proof { assert(all_.take(all_.len() as int) =~= all_); assert(order_ == old(self).groups->0.groups@); lemma_closing(old(self).outer_fn, old(self).distinct, Self::conv()); lemma_listed(order_, old(self).single_group, all_, res_col_b@, held(old(self).outer_fn, old(self).distinct, Self::conv()), folding(old(self).outer_fn, old(self).distinct, Self::conv())); } 
//@contract
    ensures r is Ok ==> forall|h: Seq<Seen<()>>, ex: Option<Set<i64>>| #[trigger] old(self).rep(h, ex) ==> tells(old(self).is_grouped(), h, old(self).answer(), r->Ok_0@),
//@start
    proof { reveal(stands); lemma_closing(old(self).outer_fn, old(self).distinct, Self::conv()); }
//@end
//@fn exp:count(i64,Int64Builder)@src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs [PartitionedAggregateExpr for PartitionedCount<i64>]::make_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.same(self) && forall|ex: Option<Set<i64>>| #[trigger] r->Ok_0.rep(Seq::empty(), ex),
//@start
    proof { reveal(stands); }
//@end
}
impl PartitionedCount<i128> {
    pub open spec fn conv() -> spec_fn(int) -> i128 { |n: int| times_of(n as i128, decimal_one()) }
    pub closed spec fn rep(&self, h: Seq<Seen<()>>, ex: Option<Set<i64>>) -> bool { self.rep_as(h, ex, Self::conv()) }
    pub closed spec fn answer(&self) -> spec_fn(Seq<(i64, ())>) -> i128 { folding(self.outer_fn, self.distinct, Self::conv()) }
//@fn src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs [PartitionedAggregateExpr for PartitionedCount<i128>]::evaluate | ret=r block vis=keep
//@contract
    requires old(self).whole(*batch), old(self).room(rows_of(*batch) as int),
    ensures final(self).same(old(self)), r is Ok ==> forall|h: Seq<Seen<()>>| #[trigger] old(self).rep(h, asked(partition_exist)) ==> final(self).rep(h + old(self).rows(*batch, asked(partition_exist)), asked(partition_exist)),
//@loop 0 iter=it
    invariant
        self.same(old(self)), old(self).whole(*batch),
        partitions@ == on::<i64>(old(self).partition_col.id(), *batch), partitions@.len() == rows_of(*batch), self.room(rows_of(*batch) - it.index@),
        filter is Some <==> old(self).filter is Some, filter is Some ==> filter->0@ == on::<bool>(old(self).filter->0.id(), *batch) && filter->0@.len() == rows_of(*batch),
        rows is Some <==> old(self).groups is Some, rows is Some ==> encoded_of(rows->0) == (old(self).groups->0.exprs@, *batch),
        it.seq().len() == rows_of(*batch), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, on::<i64>(old(self).partition_col.id(), *batch)[i]),
        
        forall|h: Seq<Seen<()>>| #[trigger] old(self).rep(h, asked(partition_exist)) ==> self.rep(h + old(self).rows(*batch, asked(partition_exist)).take(it.index@), asked(partition_exist)),
//@loopstart 0
    let ghost before = *self; let ghost k = it.index@; let ghost rs = old(self).rows(*batch, asked(partition_exist));
    proof { assert(it.seq()[k] == (k as usize, on::<i64>(old(self).partition_col.id(), *batch)[k])); assert(rs[k] == old(self).seen(*batch, asked(partition_exist), k)); }
//@loopend 0
    proof { assert(self.same(old(self))); lemma_row(before, *self, rs[k], asked(partition_exist), Self::conv()); assert forall|h: Seq<Seen<()>>| #[trigger] old(self).rep(h, asked(partition_exist)) implies self.rep(h + rs.take(k + 1), asked(partition_exist)) by { assert(h + rs.take(k + 1) =~= (h + rs.take(k)).push(rs[k])); assert(before.rep(h + rs.take(k), asked(partition_exist))); assert(self.rep((h + rs.take(k)).push(rs[k]), asked(partition_exist))); } }
//@start
    proof { let rs = old(self).rows(*batch, asked(partition_exist)); assert(rs.take(rs.len() as int) =~= rs); assert forall|h: Seq<Seen<()>>| #[trigger] old(self).rep(h, asked(partition_exist)) implies old(self).rep(h + rs.take(0), asked(partition_exist)) by { assert(h + rs.take(0) =~= h); } }
//@end
//@fn src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs [PartitionedAggregateExpr for PartitionedCount<i128>]::finalize | ret=r block vis=keep anyloops
//@rule for ( row , group ) in groups . groups . iter_mut ( ) { $$b } =>> let ghost order_ = groups.groups@; let keys_ = keys_of(&groups.groups); let ghost all_ = keys_@; for row in it: keys_     invariant it.seq() == all_, groups.groups@.dom() =~= order_.dom(), it.seq().no_duplicates(), forall|k: OwnedRow| #[trigger] it.seq().contains(k) <==> order_.contains_key(k),         rows@.map_values(|a: Row| row_of(a)) =~= it.seq().take(it.index@), res_col_b@.len() == it.index@, forall|j: int| it.index@ <= j < it.seq().len() ==> groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]],         forall|j: int| 0 <= j < it.index@ ==> #[trigger] res_col_b@[j] == Some(value_of(took(order_[all_[j]].outer_fn, times_of(order_[all_[j]].count as i128, decimal_one())))), { proof { assert(it.seq().contains(it.seq()[it.index@])); } let ghost now_ = groups.groups@; let group = slot_mut(&mut groups.groups, &row); $$b proof { assert(it.seq().take(it.index@ + 1) =~= it.seq().take(it.index@).push(row)); assert forall|j: int| it.index@ + 1 <= j < it.seq().len() implies groups.groups@[#[trigger] it.seq()[j]] == order_[it.seq()[j]] by { assert(it.seq()[j] != row); assert(now_[it.seq()[j]] == order_[it.seq()[j]]); } } } proof { assert(all_.take(all_.len() as int) =~= all_); assert(order_ == old(self).groups->0.groups@); lemma_closing(old(self).outer_fn, old(self).distinct, Self::conv()); lemma_listed(order_, old(self).single_group, all_, res_col_b@, held(old(self).outer_fn, old(self).distinct, Self::conv()), folding(old(self).outer_fn, old(self).distinct, Self::conv())); } 
//@contract
    ensures r is Ok ==> forall|h: Seq<Seen<()>>, ex: Option<Set<i64>>| #[trigger] old(self).rep(h, ex) ==> tells(old(self).is_grouped(), h, old(self).answer(), r->Ok_0@),
//@start
    proof { reveal(stands); lemma_closing(old(self).outer_fn, old(self).distinct, Self::conv()); }
//@end
//@fn src/query/src/physical_plan/expressions/aggregate/partitioned/count.rs [PartitionedAggregateExpr for PartitionedCount<i128>]::make_new | ret=r block vis=keep
//@contract
    ensures r is Ok ==> r->Ok_0.same(self) && forall|ex: Option<Set<i64>>| #[trigger] r->Ok_0.rep(Seq::empty(), ex),
//@start
    proof { reveal(stands); }
//@end
}
}
}
fn main() {}
