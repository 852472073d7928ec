// I03: the row a resolved profile leaves
//@include base.rs
//@include ingest.rs
//@rule [ $$p ] . concat ( ) =>> joined(vec![$$p])
//@include ingestrow.rs
/// the row of a profile: the leading two bindings are its key
pub open spec fn profile_row(p: u64, g: u64, req: Identify, version: int) -> Seq<Bind> { let v = req.resolved_group_values->0; seq![(GROUP_COLUMN_PROJECT_ID@, Value::Int64(Some(p as i64))), (GROUP_COLUMN_ID@, Value::Int64(Some(v.id as i64))), (GROUP_COLUMN_VERSION@, Value::Int64(Some(version as i64))), (GROUP_COLUMN_CREATED_AT@, Value::Timestamp(Some(millis(req.timestamp))))] + profile(p, g as nat, v.values@) }
pub mod identify { use super::*; broadcast use {crate::all};
//@item src/ingester/src/destinations/local/identify.rs Local | vis=keep
impl Local {
pub closed spec fn rows(self) -> Seq<(Seq<char>, Seq<Bind>)> { self.db.rows() }
pub closed spec fn last(self, p: u64, g: u64) -> int { self.md.groups.last(p, g) }
pub closed spec fn wf(self) -> bool { self.md.wf() }
//@fn src/ingester/src/destinations/local/identify.rs [Destination<Identify> for Local]::send | ret=r block mut_self loops=1
//@contract
    requires old(self).wf(), ctx.project_id is Some, req.resolved_group_values is Some, req.group_id < GROUPS_COUNT,
    ensures final(self).wf(),
        r is Ok ==> final(self).rows() == old(self).rows().push((gcol(req.group_id as nat), profile_row(ctx.project_id->0, req.group_id, req, old(self).last(ctx.project_id->0, req.group_id) + 1))),
        r is Err ==> final(self).rows() == old(self).rows(),
//@start
    let ghost p_ = ctx.project_id->0; let ghost vs_ = req.resolved_group_values->0.values@; let ghost g_ = req.group_id as nat; let ghost n_ = self.last(p_, req.group_id) + 1;
    let ghost head_ = seq![(GROUP_COLUMN_PROJECT_ID@, Value::Int64(Some(p_ as i64))), (GROUP_COLUMN_ID@, Value::Int64(Some(req.resolved_group_values->0.id as i64))), (GROUP_COLUMN_VERSION@, Value::Int64(Some(n_ as i64))), (GROUP_COLUMN_CREATED_AT@, Value::Timestamp(Some(millis(req.timestamp))))];
//@before for value in $$e { $$b }
    proof { assert(profile(p_, g_, vs_.take(0)) =~= seq![]); assert(binds(prop_values@) =~= head_ + profile(p_, g_, vs_.take(0))); }
//@loop 0 iter=it
    invariant it.seq().len() == vs_.len(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] *it.seq()[i] == vs_[i],
        binds(prop_values@) == head_ + profile(p_, g_, vs_.take(it.index@)),
//@loopstart 0
    let ghost va_ = it.index@; let ghost before_ = prop_values@; proof { assert(*it.seq()[va_] == vs_[va_]); }
//@loopend 0
    ; proof { let x_ = prop_values@.last(); assert(prop_values@ =~= before_.push(x_)); let y_ = vs_[va_]; assert(self.md.group_properties@[g_ as int].kind() == Some(g_)); assert(x_.n() == prop_at(Some(g_), p_, y_.property_id).column()); assert(x_.v() == plain(y_.value));
        assert(profile(p_, g_, vs_.take(va_ + 1)) =~= profile(p_, g_, vs_.take(va_)).push((x_.n(), x_.v()))); assert(binds(prop_values@) =~= binds(before_).push((x_.n(), x_.v()))); assert(head_ + profile(p_, g_, vs_.take(va_)).push((x_.n(), x_.v())) =~= (head_ + profile(p_, g_, vs_.take(va_))).push((x_.n(), x_.v()))); }
//@before self . db . insert ( $$e ) ? ;
    proof { assert(vs_.take(vs_.len() as int) =~= vs_); }
//@end
}
}
} fn main() {}
