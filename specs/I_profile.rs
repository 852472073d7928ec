// I03: which profile a request is about, and with what values
//@include base.rs
//@include ingest.rs
//@include ingestexec.rs
impl Executor<Identify> {
//@fn src/ingester/src/executor.rs Executor<Identify>::execute | ret=r block extra="log: &mut Log<Identify>" attr="#[verifier::rlimit(200)]" loops=3 anyloops
//@contract
    requires self.wf(), req.resolved_properties is None,
    ensures
        // every destination is sent the profile the request names, with the values it gives
        r is Ok ==> final(log).sent().len() == old(log).sent().len() + self.sinks(),
        old(log).sent().len() <= final(log).sent().len() <= old(log).sent().len() + self.sinks(),
        forall|k: int| 0 <= k < old(log).sent().len() ==> #[trigger] final(log).sent()[k] == old(log).sent()[k],
        forall|k: int| old(log).sent().len() <= k < final(log).sent().len() ==> (#[trigger] final(log).sent()[k]).0.project_id == Some(by_token(ctx.token@)) && of_profile(by_token(ctx.token@), req, final(log).sent()[k].1),
//@start
    let ghost p_ = by_token(ctx.token@); let ghost req0_ = req; let ghost was_ = log.sent(); let ghost ps_: Seq<PropertyAndValue> = seq![];
//@before let vals = $$e ;
    let ghost g_ = group.id; proof { ps_ = given(req.resolved_properties); }
//@before for prop in props { $$b }
    proof { assert(cells(p_, g_ as nat, ps_.take(0), vals@)); }
//@loop 0 iter=it
    invariant ctx.project_id == Some(p_), self.wf(), log.sent() == was_, group.id == g_, all_typed(ps_), it.seq().len() == ps_.len(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] *it.seq()[i] == ps_[i],
        cells(p_, g_ as nat, ps_.take(it.index@), vals@),
//@loopstart 0
    let ghost at_ = it.index@; let ghost b_ = vals@; proof { assert(*it.seq()[at_] == ps_[at_]); reveal(s_value); }
//@loopend 0
    ; proof { let x_ = vals@.last(); assert(vals@ =~= b_.push(x_)); assert(ps_.take(at_ + 1) =~= ps_.take(at_).push(ps_[at_])); assert(s_value(p_, gcol(g_ as nat), ps_[at_]) == Some(plain(x_.value))); }
//@before let resolved_group_values = $$e ;
    let ghost vs_ = vals@; proof { assert(ps_.take(ps_.len() as int) =~= ps_); assert(cells(p_, g_ as nat, ps_, vs_)); }
//@before for transformer in $$e { $$b }
    let ghost base_ = req; proof { assert(written(p_, g_, req0_.id@, vs_, req.resolved_group_values->0)); if req0_.properties is Some { assert(resolved(p_, Some(g_ as nat), (req0_.properties->0).entries(), ps_)); } assert(writes(p_, g_, req0_, ps_, vs_)); assert(of_profile(p_, req0_, base_)); }
//@loop 1 iter=it
    invariant self.wf(), ctx.project_id == Some(p_), log.sent() == was_, req == base_,
//@loop 2 iter=it
    invariant self.wf(), it.seq().len() == self.destinations@.len(), ctx.project_id == Some(p_), of_profile(p_, req0_, req), log.sent().len() == was_.len() + it.index@, forall|k: int| 0 <= k < was_.len() ==> #[trigger] log.sent()[k] == was_[k],
        forall|k: int| was_.len() <= k < log.sent().len() ==> #[trigger] log.sent()[k] == (ctx, req),
//@end
}
}
} fn main() {}
