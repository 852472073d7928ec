//@rule unreachable ! ( ) =>> corrupt(data)
//@rule panic ! ( $$x ) =>> corrupt(data)
//@include base.rs
use vstd::prelude::*;
use std::fmt::Debug;
verus! {
global size_of usize == 8;
//@include metaerr.rs
//@include store.rs
//@include keys.rs
//@include stdspec.rs
//@include index.rs
//@include keylemmas.rs
//@include provider.rs
//@include uniq.rs
//@rule where T : Debug =>>
pub open spec fn set<T>(o: OptionalProperty<T>, was: T, is: T) -> bool { match o { OptionalProperty::Some(v) => is == v, OptionalProperty::None => is == was } }
//@item src/common/src/types.rs OptionalProperty | vis=keep
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
pub mod reports { use super::*; broadcast use crate::all;
//@rule report :: Report :: decode =>> decode::<report::Report>
pub mod report { use super::*;
//@item pb:report.rs Report | vis=keep
//@item pb:report.rs Type | consts=Type
}
#[derive(Debug)] pub struct Query { pub x: u8 }
//@item src/metadata/src/reports.rs Type | vis=keep
//@item src/metadata/src/reports.rs Report | vis=keep std="clone"
//@item src/metadata/src/reports.rs CreateReportRequest | vis=keep
//@item src/metadata/src/reports.rs UpdateReportRequest | vis=keep
//@item src/metadata/src/reports.rs Reports | vis=keep
//@static src/metadata/src/reports.rs NAMESPACE | block
//@contract
    ensures r@ == NS(),
//@end
pub open spec fn NS() -> Seq<u8> { asc("reports"@) }
pub open spec fn base(p: u64) -> Seq<u8> { k_project(p, NS()) }
pub open spec fn to_pb(r: Report) -> report::Report { report::Report { id: r.id, created_at: r.created_at.t, created_by: r.created_by, updated_at: s_secs(r.updated_at), updated_by: r.updated_by, project_id: r.project_id, tags: s_or_empty(r.tags), name: r.name, description: r.description, r#type: match r.typ { Type::EventSegmentation => 1i32, Type::Funnel => 2i32 }, query: s_bin(r.query) } }
impl Ent for Report {
    open spec fn enc(self) -> Seq<u8> { pb(to_pb(self)) }
    open spec fn eid(self) -> u64 { self.id }
    open spec fn ekeys(self, ns: Seq<u8>) -> Seq<Option<Seq<u8>>> { seq![] }
    open spec fn back(self) -> Report { let r = self; Report { created_at: Instant { t: r.created_at.t, n: 0 }, updated_at: s_at(s_secs(r.updated_at)), tags: if r.tags is Some && r.tags->0@.len() == 0 { None } else { r.tags }, ..r } }
    proof fn back_ok(a: Report) {  }
    proof fn enc_ok(a: Report, b: Report, ns: Seq<u8>) { assert(unpb::<report::Report>(a.enc()) == Some(to_pb(a))); assert(to_pb(a) == to_pb(b)); }
    proof fn keys_ok(a: Report, ns: Seq<u8>) {  }
}
// reaching this panics: shown unreachable for every value the provider wrote
#[verifier::external_body] fn corrupt<T>(data: &[u8]) -> (r: T) requires forall|x: Report| data@ != #[trigger] x.enc() ensures false { unimplemented!() }
//@fn src/metadata/src/reports.rs serialize_report | ret=r2 block
//@contract
    ensures r2 is Ok ==> r2->Ok_0@ == (*r).enc(), r2 is Err ==> r2->Err_0 is Bincode,
//@before Ok ( v . encode_to_vec ( ) )
    proof { assert(v == to_pb(*r)); }
//@end
//@fn src/metadata/src/reports.rs deserialize_report | ret=r2 block
//@contract
    ensures r2 is Ok ==> unpb::<report::Report>(data@) is Some, r2 is Ok ==> is_read(data@, r2->Ok_0), (exists|x: Report| data@ == #[trigger] x.enc()) ==> r2 is Err ==> r2->Err_0 is Bincode, r2 is Err ==> !(r2->Err_0 is NotFound),
//@end
pub open spec fn made(r: Report, p: u64, q: CreateReportRequest) -> bool { r.project_id == p && r.updated_at is None && r.updated_by is None && r.created_by == q.created_by && r.tags == q.tags && r.name == q.name && r.description == q.description && r.typ == q.typ && r.query == q.query }
pub open spec fn changed(w: Report, r: Report, q: UpdateReportRequest) -> bool { r.updated_at is Some && r.updated_by == Some(q.updated_by) && r.id == w.id && r.created_at == w.created_at && r.created_by == w.created_by && r.project_id == w.project_id && r.typ == w.typ && set(q.name, w.name, r.name) && set(q.description, w.description, r.description) && set(q.tags, w.tags, r.tags) && set(q.query, w.query, r.query) }
impl Reports {
//@fn src/metadata/src/reports.rs Reports::get_by_id_ | ret=r block
//@contract
    ensures final(tx)@ == old(tx)@, r is Ok ==> holds(old(tx)@, base(project_id), id, r->Ok_0), r is Err && r->Err_0 is NotFound ==> !old(tx)@.dom().contains(k_data(base(project_id), id)), inv::<Report>(old(tx)@, base(project_id)) && r is Err && !(r->Err_0 is NotFound) ==> infra(r->Err_0),
//@end
//@fn src/metadata/src/reports.rs Reports::get_by_id | ret=r block
//@contract
    ensures r is Ok ==> holds(self.db@, base(project_id), id, r->Ok_0), r is Err && r->Err_0 is NotFound ==> !self.db@.dom().contains(k_data(base(project_id), id)), inv::<Report>(self.db@, base(project_id)) && r is Err && !(r->Err_0 is NotFound) ==> infra(r->Err_0),
//@end
//@fn src/metadata/src/reports.rs Reports::create | ret=r mut_self block
//@contract
    requires inv::<Report>(old(self).db@, base(project_id)), seq_ok(old(self).db@, k_seq(base(project_id))),
    ensures r is Ok ==> made(r->Ok_0, project_id, req) && r->Ok_0.id == counter(old(self).db@, k_seq(base(project_id)), 1) && step(old(self).db@, final(self).db@, base(project_id), r->Ok_0.id, None, Some(r->Ok_0)) && may(old(self).db@, base(project_id), r->Ok_0.id, None, Some(r->Ok_0)) && inv::<Report>(final(self).db@, base(project_id)),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0),
//@before tx . commit
    proof { lemma_keyseq(report, base(project_id), seq![]); lemma_created(old(self).db@, base(project_id), report.id, report); assert(tx@ == created(old(self).db@, base(project_id), report.id, report)); }
//@end
//@fn src/metadata/src/reports.rs Reports::update | ret=r mut_self block
//@contract
    requires inv::<Report>(old(self).db@, base(project_id)), 
    ensures r is Ok ==> exists|w: Report| #[trigger] rec(old(self).db@, base(project_id), report_id, w) && changed(w.back(), r->Ok_0, req) && step(old(self).db@, final(self).db@, base(project_id), report_id, Some(w), Some(r->Ok_0)) && may(old(self).db@, base(project_id), report_id, Some(w), Some(r->Ok_0)), r is Ok ==> inv::<Report>(final(self).db@, base(project_id)),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(project_id), report_id)),
//@before tx . commit
    proof { let w = choose|w: Report| #[trigger] rec(old(self).db@, base(project_id), report_id, w); assert(rec(old(self).db@, base(project_id), report_id, w));
        lemma_updated(old(self).db@, base(project_id), report_id, w, report, seq![], seq![]); assert(tx@ == updated(old(self).db@, base(project_id), report_id, report, seq![], seq![])); }
//@end
//@fn src/metadata/src/reports.rs Reports::delete | ret=r mut_self block
//@contract
    requires inv::<Report>(old(self).db@, base(project_id)),
    ensures r is Ok ==> holds(old(self).db@, base(project_id), id, r->Ok_0), r is Ok ==> exists|w: Report| #[trigger] rec(old(self).db@, base(project_id), id, w) && step(old(self).db@, final(self).db@, base(project_id), id, Some(w), None), r is Ok ==> inv::<Report>(final(self).db@, base(project_id)),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(project_id), id)),
//@before tx . commit
    proof { let w = choose|w: Report| #[trigger] rec(old(self).db@, base(project_id), id, w); assert(rec(old(self).db@, base(project_id), id, w)); lemma_deleted(old(self).db@, base(project_id), id, w);
        assert(report == w.back()); assert(report.ekeys(base(project_id)) =~= w.ekeys(base(project_id))); lemma_somes(w.ekeys(base(project_id))); assert(tx@ == deleted(old(self).db@, base(project_id), id, w)); }
//@end
//@fn src/metadata/src/reports.rs Reports::list | ret=r block
//@contract
    requires inv::<Report>(self.db@, base(project_id)),
    ensures r is Ok ==> listed(self.db@, base(project_id), r->Ok_0.data@), r is Err ==> infra(r->Err_0),
//@loop 0 iter=it
    invariant scanned(it.seq(), tx@, k_all(base(project_id))), tx@ == self.db@, prefix@ == k_all(base(project_id)), it.index@ <= it.seq().len(),
        forall|i: int| 0 <= i < list@.len() ==> is_read(scan(tx@, prefix@)[i].1, #[trigger] list@[i]),
        !brk_0 ==> list@.len() == it.index@,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]) is Ok,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> starts(#[trigger] scan(tx@, prefix@)[i].0, prefix@),
        brk_0 ==> list@.len() == hits(tx@, prefix@),
//@loopstart 0
    proof { axiom_scan(tx@, prefix@); assert(kv == it.seq()[it.index@ as int]); }
//@before if ! from_utf8
    proof { let i = it.index@ as int; assert(it.seq()[i] is Ok); assert(it.seq()[i]->Ok_0 == (key, value)); assert(key@ == scan(tx@, prefix@)[i].0); assert(i > 0 ==> starts(scan(tx@, prefix@)[i - 1].0, prefix@));
        if starts(key@, prefix@) { assert(self.db@.dom().contains(key@)); let id = choose|id: u64| key@ == #[trigger] k_data(base(project_id), id); let e = choose|e: Report| #[trigger] rec(self.db@, base(project_id), id, e); assert(rec(self.db@, base(project_id), id, e)); assert(value@ == e.enc()); } }
//@before ListResponse
    proof { axiom_scan(tx@, prefix@); let n = scan(tx@, prefix@).len() as int; assert(!brk_0 && n > 0 ==> starts(scan(tx@, prefix@)[n - 1].0, prefix@)); lemma_listed(self.db@, base(project_id), list@); }
//@end
}
}
}
//@helpers
fn main() {}
