// I02: whom and what an event is about
//@include base.rs
//@include ingest.rs
//@include ingestexec.rs
impl Executor<Track> {
//@fn src/ingester/src/executor.rs Executor<Track>::execute | ret=r block extra="log: &mut Log<Track>" attr="#[verifier::rlimit(200)]" loops=3
//@contract
    requires self.wf(), fresh(req),
    ensures
        // every destination is sent what the request says, in the project its token names
        r is Ok ==> final(log).sent().len() == old(log).sent().len() + self.sinks(),
        old(log).sent().len() <= final(log).sent().len() <= old(log).sent().len() + self.sinks(),
        forall|k: int| 0 <= k < old(log).sent().len() ==> #[trigger] final(log).sent()[k] == old(log).sent()[k],
        forall|k: int| old(log).sent().len() <= k < final(log).sent().len() ==> (#[trigger] final(log).sent()[k]).0.project_id == Some(by_token(ctx.token@)) && sendable(final(log).sent()[k].0, final(log).sent()[k].1) && about(by_token(ctx.token@), req, final(log).sent()[k].1),
        // an event of nobody is refused
        req.user_id is None && req.anonymous_id is None ==> r is Err && final(log).sent() == old(log).sent(),
//@start
    let ghost p_ = by_token(ctx.token@); let ghost req0_ = req; let ghost was_ = log.sent(); let ghost gu_: Option<GroupValues> = None; let ghost ps_: Seq<PropertyAndValue> = seq![];
//@before let ( user_id , user_group ) = $$e ;
    proof { ps_ = given(req.resolved_properties); }
//@before req . resolved_user_id = $$e ;
    proof { gu_ = user_group; assert(user_is(p_, req0_, user_id)); assert(user_group is Some <==> only_user(req0_)); }
//@before for ( $$a ) in groups { $$b }
    let ghost es_ = groups.entries(); let all_ = groups.list(); proof { assert(es_.take(0) =~= seq![]); }
//@loop 0
    invariant ctx.project_id == Some(p_), self.wf(), log.sent() == was_, it.seq() == all_@, all_@.len() == es_.len(), forall|i: int| 0 <= i < all_@.len() ==> *(#[trigger] all_@[i]).0 == es_[i].0 && *all_@[i].1 == es_[i].1,
        groups_are(p_, gu_, es_.take(it.index@), resolved_groups@), forall|i: int| 0 <= i < resolved_groups@.len() ==> (#[trigger] resolved_groups@[i]).0 < GROUPS_COUNT,
//@loopstart 0
    let group_name = pair_.0; let group_val = pair_.1; let ghost at_ = it.index@; let ghost b_ = resolved_groups@;
//@loopend 0
    ; proof { let x_ = resolved_groups@.last(); assert(resolved_groups@ =~= b_.push(x_)); assert(es_.take(at_ + 1) =~= es_.take(at_).push(es_[at_])); assert(group_is(p_, es_[at_], x_)); }
//@before req . resolved_group_values = $$e ;
    proof { assert(all_@.len() == es_.len()); assert(es_.take(es_.len() as int) =~= es_); assert(groups_are(p_, gu_, es_.take(es_.len() as int), resolved_groups@)); assert(groups_are(p_, gu_, es_, resolved_groups@)); assert(forall|i: int| 0 <= i < resolved_groups@.len() ==> (#[trigger] resolved_groups@[i]).0 < GROUPS_COUNT); }
//@before for transformer in $$e { $$b }
    let ghost base_ = req; proof { assert(all_typed(given(base_.resolved_properties))); }
//@loop 1 iter=it
    invariant self.wf(), ctx.project_id == Some(p_), log.sent() == was_, more(base_, req), all_typed(given(base_.resolved_properties)),
//@before for dest in $$e { $$b }
    proof {
        if req0_.properties is Some { assert(resolved(p_, None, (req0_.properties->0).entries(), ps_)); assert(starts(ps_, given(req.resolved_properties))); assert(attached(p_, (req.resolved_event->0).id, ids(ps_))); }
        assert((req.resolved_event->0).id == event_named(p_, req0_.event@));
        assert(req.resolved_user_id is Some);
        if req0_.group_values is Some { assert(gu_ is Some <==> only_user(req0_)); assert(gu_ is Some ==> member(p_, 0, (req0_.user_id->0)@, gu_->0)); assert(groups_are(p_, gu_, (req0_.group_values->0).entries(), given(req.resolved_group_values))); } else { assert(req.resolved_group_values is None); }
        assert(exists|n: u64| #[trigger] user_is(p_, req0_, n) && req.resolved_user_id->0 == n as i64);
        assert(req.timestamp == req0_.timestamp && req.context == req0_.context);
        assert(about(p_, req0_, req)); assert(sendable(ctx, req)); }
//@loop 2 iter=it
    invariant self.wf(), it.seq().len() == self.destinations@.len(), ctx.project_id == Some(p_), log.sent().len() == was_.len() + it.index@, forall|k: int| 0 <= k < was_.len() ==> #[trigger] log.sent()[k] == was_[k],
        forall|k: int| was_.len() <= k < log.sent().len() ==> #[trigger] log.sent()[k] == (ctx, req), 
//@end
}
}
} fn main() {}
