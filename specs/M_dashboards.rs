//@rule unreachable ! ( ) =>> corrupt(data)
//@rule panic ! ( $$x ) =>> corrupt(data)
//@include base.rs
use vstd::prelude::*;
use std::fmt::Debug;
verus! {
global size_of usize == 8;
//@include metaerr.rs
//@include store.rs
//@include keys.rs
//@include stdspec.rs
//@include index.rs
//@include keylemmas.rs
//@include provider.rs
//@include uniq.rs
//@rule where T : Debug =>>
pub open spec fn set<T>(o: OptionalProperty<T>, was: T, is: T) -> bool { match o { OptionalProperty::Some(v) => is == v, OptionalProperty::None => is == was } }
//@item src/common/src/types.rs OptionalProperty | vis=keep
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
pub mod dashboards { use super::*; broadcast use crate::all;
//@rule dashboard :: Dashboard :: decode =>> decode::<dashboard::Dashboard>
pub mod dashboard { use super::*;
//@item pb:dashboard.rs Dashboard | vis=keep
//@item pb:dashboard.rs Panel | vis=keep
}
//@item src/metadata/src/dashboards.rs Type | vis=keep
//@item src/metadata/src/dashboards.rs Panel | vis=keep
//@item src/metadata/src/dashboards.rs Dashboard | vis=keep std="clone"
//@item src/metadata/src/dashboards.rs CreateDashboardRequest | vis=keep
//@item src/metadata/src/dashboards.rs UpdateDashboardRequest | vis=keep
//@item src/metadata/src/dashboards.rs Dashboards | vis=keep
//@static src/metadata/src/dashboards.rs NAMESPACE | block
//@contract
    ensures r@ == NS(),
//@end
pub open spec fn NS() -> Seq<u8> { asc("dashboards"@) }
pub open spec fn base(p: u64) -> Seq<u8> { k_project(p, NS()) }
pub open spec fn el(p: Panel) -> dashboard::Panel { dashboard::Panel { r#type: 1i32, report_id: p.report_id, x: p.x as u32, y: p.y as u32, w: p.w as u32, h: p.h as u32 } }
pub open spec fn els(s: Seq<Panel>) -> Seq<dashboard::Panel> { Seq::new(s.len(), |i: int| el(s[i])) }
pub open spec fn le_(p: dashboard::Panel) -> Panel { Panel { typ: Type::Report, report_id: p.report_id, x: p.x as usize, y: p.y as usize, w: p.w as usize, h: p.h as usize } }
pub open spec fn les(s: Seq<dashboard::Panel>) -> Seq<Panel> { Seq::new(s.len(), |i: int| le_(s[i])) }
pub open spec fn to_pb(r: Dashboard) -> dashboard::Dashboard { dashboard::Dashboard { id: r.id, created_at: r.created_at.t, created_by: r.created_by, updated_at: s_secs(r.updated_at), updated_by: r.updated_by, project_id: r.project_id, tags: s_or_empty(r.tags), name: r.name, description: r.description, panels: vec_of(els(r.panels@)) } }
impl Ent for Dashboard {
    open spec fn enc(self) -> Seq<u8> { pb(to_pb(self)) }
    open spec fn eid(self) -> u64 { self.id }
    open spec fn ekeys(self, ns: Seq<u8>) -> Seq<Option<Seq<u8>>> { seq![] }
    open spec fn back(self) -> Dashboard { let r = self; Dashboard { created_at: Instant { t: r.created_at.t, n: 0 }, updated_at: s_at(s_secs(r.updated_at)), tags: if r.tags is Some && r.tags->0@.len() == 0 { None } else { r.tags }, panels: vec_of(les(els(r.panels@))), ..r } }
    proof fn back_ok(a: Dashboard) { assert(a.back().panels@ == les(els(a.panels@))); assert(els(les(els(a.panels@))) =~= els(a.panels@)); }
    proof fn enc_ok(a: Dashboard, b: Dashboard, ns: Seq<u8>) { assert(unpb::<dashboard::Dashboard>(a.enc()) == Some(to_pb(a))); assert(to_pb(a) == to_pb(b)); }
    proof fn keys_ok(a: Dashboard, ns: Seq<u8>) {  }
}
// reaching this panics: shown unreachable for every value the provider wrote
#[verifier::external_body] fn corrupt<T>(data: &[u8]) -> (r: T) requires forall|x: Dashboard| data@ != #[trigger] x.enc() ensures false { unimplemented!() }
//@fn src/metadata/src/dashboards.rs serialize | ret=r2 block
//@contract
    ensures r2 is Ok ==> r2->Ok_0@ == (*v).enc(), r2 is Err ==> r2->Err_0 is Bincode,
//@rule tags . to_vec ( ) =>> same_as(tags)
//@rule v . panels . iter ( ) . map ( | p | $$e ) . collect :: < Vec < _ > > ( ) =>> { let mut out_ = Vec::new(); let mut k_: usize = 0; while k_ < v.panels.len() invariant k_ <= v.panels@.len(), out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == el(v.panels@[i]) decreases v.panels@.len() - k_ { let p = &v.panels[k_]; let e_ = $e; out_.push(e_); k_ += 1; } proof { assert(out_@ =~= els(v.panels@)); } out_ }
//@before Ok ( d . encode_to_vec ( ) )
    proof { assert(d == to_pb(*v)); }
//@end
//@fn src/metadata/src/dashboards.rs deserialize | ret=r2 block
//@contract
    ensures r2 is Ok ==> unpb::<dashboard::Dashboard>(data@) is Some, r2 is Ok ==> is_read(data@, r2->Ok_0), (exists|x: Dashboard| data@ == #[trigger] x.enc()) ==> r2 is Err ==> r2->Err_0 is Bincode, r2 is Err ==> !(r2->Err_0 is NotFound),
//@rule from . panels . iter ( ) . map ( | p | $$e ) . collect :: < Vec < _ > > ( ) =>> { let mut out_ = Vec::new(); let mut k_: usize = 0; while k_ < from.panels.len() invariant k_ <= from.panels@.len(), out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == le_(from.panels@[i]) decreases from.panels@.len() - k_ { let p = &from.panels[k_]; let e_ = $e; out_.push(e_); k_ += 1; } proof { assert(out_@ =~= les(from.panels@)); } out_ }
//@end
pub open spec fn made(r: Dashboard, p: u64, q: CreateDashboardRequest) -> bool { r.project_id == p && r.updated_at is None && r.updated_by is None && r.created_by == q.created_by && r.tags == q.tags && r.name == q.name && r.description == q.description && r.panels == q.panels }
pub open spec fn changed(w: Dashboard, r: Dashboard, q: UpdateDashboardRequest) -> bool { r.updated_at is Some && r.updated_by == Some(q.updated_by) && r.id == w.id && r.created_at == w.created_at && r.created_by == w.created_by && r.project_id == w.project_id && set(q.name, w.name, r.name) && set(q.description, w.description, r.description) && set(q.tags, w.tags, r.tags) && set(q.panels, w.panels, r.panels) }
impl Dashboards {
//@fn src/metadata/src/dashboards.rs Dashboards::get_by_id_ | ret=r block
//@contract
    ensures final(tx)@ == old(tx)@, r is Ok ==> holds(old(tx)@, base(project_id), id, r->Ok_0), r is Err && r->Err_0 is NotFound ==> !old(tx)@.dom().contains(k_data(base(project_id), id)), inv::<Dashboard>(old(tx)@, base(project_id)) && r is Err && !(r->Err_0 is NotFound) ==> infra(r->Err_0),
//@end
//@fn src/metadata/src/dashboards.rs Dashboards::get_by_id | ret=r block
//@contract
    ensures r is Ok ==> holds(self.db@, base(project_id), id, r->Ok_0), r is Err && r->Err_0 is NotFound ==> !self.db@.dom().contains(k_data(base(project_id), id)), inv::<Dashboard>(self.db@, base(project_id)) && r is Err && !(r->Err_0 is NotFound) ==> infra(r->Err_0),
//@end
//@fn src/metadata/src/dashboards.rs Dashboards::create | ret=r mut_self block
//@contract
    requires inv::<Dashboard>(old(self).db@, base(project_id)), seq_ok(old(self).db@, k_seq(base(project_id))),
    ensures r is Ok ==> made(r->Ok_0, project_id, req) && r->Ok_0.id == counter(old(self).db@, k_seq(base(project_id)), 1) && step(old(self).db@, final(self).db@, base(project_id), r->Ok_0.id, None, Some(r->Ok_0)) && may(old(self).db@, base(project_id), r->Ok_0.id, None, Some(r->Ok_0)) && inv::<Dashboard>(final(self).db@, base(project_id)),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0),
//@before tx . commit
    proof { lemma_keyseq(dashboard, base(project_id), seq![]); lemma_created(old(self).db@, base(project_id), dashboard.id, dashboard); assert(tx@ == created(old(self).db@, base(project_id), dashboard.id, dashboard)); }
//@end
//@fn src/metadata/src/dashboards.rs Dashboards::update | ret=r mut_self block
//@contract
    requires inv::<Dashboard>(old(self).db@, base(project_id)), 
    ensures r is Ok ==> exists|w: Dashboard| #[trigger] rec(old(self).db@, base(project_id), dashboard_id, w) && changed(w.back(), r->Ok_0, req) && step(old(self).db@, final(self).db@, base(project_id), dashboard_id, Some(w), Some(r->Ok_0)) && may(old(self).db@, base(project_id), dashboard_id, Some(w), Some(r->Ok_0)), r is Ok ==> inv::<Dashboard>(final(self).db@, base(project_id)),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(project_id), dashboard_id)),
//@before tx . commit
    proof { let w = choose|w: Dashboard| #[trigger] rec(old(self).db@, base(project_id), dashboard_id, w); assert(rec(old(self).db@, base(project_id), dashboard_id, w));
        lemma_updated(old(self).db@, base(project_id), dashboard_id, w, dashboard, seq![], seq![]); assert(tx@ == updated(old(self).db@, base(project_id), dashboard_id, dashboard, seq![], seq![])); }
//@end
//@fn src/metadata/src/dashboards.rs Dashboards::delete | ret=r mut_self block
//@contract
    requires inv::<Dashboard>(old(self).db@, base(project_id)),
    ensures r is Ok ==> holds(old(self).db@, base(project_id), id, r->Ok_0), r is Ok ==> exists|w: Dashboard| #[trigger] rec(old(self).db@, base(project_id), id, w) && step(old(self).db@, final(self).db@, base(project_id), id, Some(w), None), r is Ok ==> inv::<Dashboard>(final(self).db@, base(project_id)),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(project_id), id)),
//@before tx . commit
    proof { let w = choose|w: Dashboard| #[trigger] rec(old(self).db@, base(project_id), id, w); assert(rec(old(self).db@, base(project_id), id, w)); lemma_deleted(old(self).db@, base(project_id), id, w);
        assert(dashboard == w.back()); assert(dashboard.ekeys(base(project_id)) =~= w.ekeys(base(project_id))); lemma_somes(w.ekeys(base(project_id))); assert(tx@ == deleted(old(self).db@, base(project_id), id, w)); }
//@end
//@fn src/metadata/src/dashboards.rs Dashboards::list | ret=r block
//@contract
    requires inv::<Dashboard>(self.db@, base(project_id)),
    ensures r is Ok ==> listed(self.db@, base(project_id), r->Ok_0.data@), r is Err ==> infra(r->Err_0),
//@loop 0 iter=it
    invariant scanned(it.seq(), tx@, k_all(base(project_id))), tx@ == self.db@, prefix@ == k_all(base(project_id)), it.index@ <= it.seq().len(),
        forall|i: int| 0 <= i < list@.len() ==> is_read(scan(tx@, prefix@)[i].1, #[trigger] list@[i]),
        !brk_0 ==> list@.len() == it.index@,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]) is Ok,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> starts(#[trigger] scan(tx@, prefix@)[i].0, prefix@),
        brk_0 ==> list@.len() == hits(tx@, prefix@),
//@loopstart 0
    proof { axiom_scan(tx@, prefix@); assert(kv == it.seq()[it.index@ as int]); }
//@before if ! from_utf8
    proof { let i = it.index@ as int; assert(it.seq()[i] is Ok); assert(it.seq()[i]->Ok_0 == (key, value)); assert(key@ == scan(tx@, prefix@)[i].0); assert(i > 0 ==> starts(scan(tx@, prefix@)[i - 1].0, prefix@));
        if starts(key@, prefix@) { assert(self.db@.dom().contains(key@)); let id = choose|id: u64| key@ == #[trigger] k_data(base(project_id), id); let e = choose|e: Dashboard| #[trigger] rec(self.db@, base(project_id), id, e); assert(rec(self.db@, base(project_id), id, e)); assert(value@ == e.enc()); } }
//@before ListResponse
    proof { axiom_scan(tx@, prefix@); let n = scan(tx@, prefix@).len() as int; assert(!brk_0 && n > 0 ==> starts(scan(tx@, prefix@)[n - 1].0, prefix@)); lemma_listed(self.db@, base(project_id), list@); }
//@end
}
}
}
//@helpers
fn main() {}
