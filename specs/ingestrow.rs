// ---- rows and tables, for what the ingester writes (assumed contracts of the store)
pub open spec fn cat<T>(s: Seq<Vec<T>>) -> Seq<T> decreases s.len() { if s.len() == 0 { seq![] } else { s[0]@ + cat(s.drop_first()) } }
#[verifier::external_body] pub fn joined<T>(v: Vec<Vec<T>>) -> (r: Vec<T>) ensures r@ == cat(v@) { unimplemented!() }
// ---- rows: bindings of columns; a column takes the first of its bindings, the two leading ones are the key
pub type Bind = (Seq<char>, Value);
pub open spec fn binds(s: Seq<NamedValue>) -> Seq<Bind> { s.map_values(|x: NamedValue| (x.n(), x.v())) }
pub open spec fn first(s: Seq<Bind>, c: Seq<char>) -> Option<Value> decreases s.len() { if s.len() == 0 { None } else if s[0].0 == c { Some(s[0].1) } else { first(s.drop_first(), c) } }
pub open spec fn else_(a: Option<Value>, b: Option<Value>) -> Option<Value> { if a is Some { a } else { b } }
#[verifier::external_body] pub struct OptiDBImpl { x: u8 }
impl OptiDBImpl {
    /// the rows every table has been given, oldest first
    pub uninterp spec fn rows(self) -> Seq<(Seq<char>, Seq<Bind>)>;
    #[verifier::external_body] pub fn insert(&mut self, tbl_name: &str, values: Vec<NamedValue>) -> (r: Result<()>) ensures r is Ok ==> final(self).rows() == old(self).rows().push((tbl_name@, binds(values@))), r is Err ==> final(self).rows() == old(self).rows() && r->Err_0 is Store { unimplemented!() }
}
#[verifier::external_body] pub struct Events { x: u8 }
impl Events {
    /// the number of the last event record of a project
    pub uninterp spec fn last(self, p: u64) -> int;
    #[verifier::external_body] pub fn next_record_sequence(&mut self, project_id: u64) -> (r: Result<u64>) ensures r is Ok ==> r->Ok_0 == old(self).last(project_id) + 1 && final(self).last(project_id) == r->Ok_0, r is Err ==> final(self).last(project_id) == old(self).last(project_id) && r->Err_0 is Metadata { unimplemented!() }
    #[verifier::external_body] pub fn get_by_name(&self, project_id: u64, name: &str) -> (r: Result<events::Event>) ensures r is Ok ==> r->Ok_0.id == event_named(project_id, name@), r is Err ==> r->Err_0 is Metadata { unimplemented!() }
}
#[verifier::external_body] pub struct Groups { x: u8 }
impl Groups { pub uninterp spec fn last(self, p: u64, g: u64) -> int;
    #[verifier::external_body] pub fn next_record_sequence(&mut self, project_id: u64, group_id: u64) -> (r: Result<u64>) ensures r is Ok ==> r->Ok_0 == old(self).last(project_id, group_id) + 1 && final(self).last(project_id, group_id) == r->Ok_0, r is Err ==> r->Err_0 is Metadata { unimplemented!() }
}
pub struct MetadataProvider { pub events: Events, pub groups: Groups, pub sessions: Sessions, pub dictionaries: Arc<Dictionaries>, pub event_properties: Arc<Properties>, pub group_properties: Vec<Arc<Properties>> }
impl MetadataProvider { pub open spec fn wf(self) -> bool { self.event_properties.kind() is None && self.group_properties@.len() == GROUPS_COUNT && forall|g: int| 0 <= g < GROUPS_COUNT ==> (#[trigger] self.group_properties@[g]).kind() == Some(g as nat) } }
/// a profile's cells
pub open spec fn profile(p: u64, g: nat, s: Seq<PropertyValue>) -> Seq<Bind> { s.map_values(|x: PropertyValue| (prop_at(Some(g), p, x.property_id).column(), plain(x.value))) }
