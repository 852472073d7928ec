// ---- the tables of a database, each held by one caller at a time
pub struct Sender<T> { pub t: Ghost<Option<T>>, pub x: u8 }
pub struct CompactorMessage { pub x: u8 }
//@item src/storage/src/db.rs self::Options | vis=keep name=DbOptions
//@rule let _g = self . global_lock . read ( ) ; =>> 
//@rule let tables = self . tables . read ( ) ; =>> 
//@rule let start_time = Instant :: now ( ) ; =>> 
//@rule drop ( $x ) ; =>> 
//@rule tables . iter ( ) . find ( | t | t . name == tbl_name ) =>> find_table(&mut self.tables, tbl_name)
//@rule tbl . to_owned ( ) =>> tbl
//@rule $~x . lock ( ) =>> $x.locked()
//@rule flush_log_ ( & self . fs , & mut memtable , & mut metadata , & self . path ) ? =>> flush_log_(&self.fs, &mut *memtable, &mut *metadata, &self.path, disk)?
//@rule write_metadata ( mdf . get_mut ( ) , & mut metadata ) ? =>> write_metadata(mdf.get_mut(), &mut *metadata, disk)?
//@item src/storage/src/db.rs OptiDBImpl | vis=keep
pub trait Locked: Sized { fn locked(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r); }
impl<T> Locked for T { fn locked(&mut self) -> (r: &mut Self) { self } }
/// the first table of that name
pub open spec fn table_at(t: Seq<Table>, n: Seq<char>, i: int) -> bool { 0 <= i < t.len() && named(t[i]) == n && forall|j: int| 0 <= j < i ==> named(#[trigger] t[j]) != n }
pub closed spec fn named(t: Table) -> Seq<char> { t.name@ }
pub open spec fn index_of(t: Seq<Table>, n: Seq<char>) -> int { choose|i: int| table_at(t, n, i) }
pub open spec fn has_table(t: Seq<Table>, n: Seq<char>) -> bool { exists|i: int| table_at(t, n, i) }
#[verifier::external_body] fn find_table<'a>(t: &'a mut Vec<Table>, n: &str) -> (r: Option<&'a mut Table>)
    ensures r is Some <==> has_table(old(t)@, n@), r is None ==> final(t)@ == old(t)@,
        r is Some ==> table_at(old(t)@, n@, index_of(old(t)@, n@)) && *(r->0) == old(t)@[index_of(old(t)@, n@)] && final(t)@ == old(t)@.update(index_of(old(t)@, n@), *final(r->0)) { unimplemented!() }
impl OptiDBImpl {
    pub closed spec fn tabs(&self) -> Seq<Table> { self.tables@ }
    pub closed spec fn root(&self) -> Seq<u8> { self.path@ }
    pub open spec fn has(&self, n: Seq<char>) -> bool { has_table(self.tabs(), n) }
    pub open spec fn table(&self, n: Seq<char>) -> Table { self.tabs()[index_of(self.tabs(), n)] }
    pub open spec fn keeps(&self, d: Files, n: Seq<char>) -> bool { kept(d, self.root(), self.table(n)) }
    pub open spec fn dir(&self, n: Seq<char>) -> Seq<u8> { dir_of(self.root(), utf8(n)) }
}
impl Table { pub closed spec fn md(&self) -> Md { self.metadata.md() } pub closed spec fn rows(&self) -> Seq<Row> { self.memtable.rows() } pub closed spec fn small(&self) -> bool {
    self.metadata.log_id < u64::MAX && (self.metadata.md().levels.len() > 0 ==> self.metadata.md().levels[0].part_id < usize::MAX) && self.metadata.stats.written_bytes < 0x4000_0000_0000_0000 && self.metadata.stats.logged_bytes < 0x4000_0000_0000_0000 } }
/// what happened to the other tables: nothing
pub open spec fn others_same(a: OptiDBImpl, b: OptiDBImpl, n: Seq<char>) -> bool { let i = index_of(a.tabs(), n); b.root() == a.root() && b.tabs().len() == a.tabs().len() && named(b.tabs()[i]) == n && forall|j: int| 0 <= j < a.tabs().len() && j != i ==> #[trigger] b.tabs()[j] == a.tabs()[j] }
// ---- a row from named values
//@fn src/storage/src/lib.rs [From<&Value> for KeyValue]::from | ret=r block name=key_of
//@rule Self =>> KeyValue
//@rule unreachable ! ( $$a ) =>> no_value()
//@contract
    requires keyable(*value),
    ensures r == key(*value),
//@end
#[verifier::external_body] fn no_value() -> (r: KeyValue) requires false { unimplemented!() }
pub open spec fn keyable(v: Value) -> bool { match v { Value::Int8(Some(_)) => true, Value::Int16(Some(_)) => true, Value::Int32(Some(_)) => true, Value::Int64(Some(_)) => true, Value::String(Some(_)) => true, Value::Timestamp(Some(_)) => true, _ => false } }
pub open spec fn key(v: Value) -> KeyValue { match v { Value::Int8(Some(x)) => KeyValue::Int8(x), Value::Int16(Some(x)) => KeyValue::Int16(x), Value::Int32(Some(x)) => KeyValue::Int32(x), Value::Int64(Some(x)) => KeyValue::Int64(x), Value::String(Some(x)) => KeyValue::String(x), Value::Timestamp(Some(x)) => KeyValue::Timestamp(x), _ => arbitrary() } }
/// is this a value for a column of that type; nothing but a value of its own type is
pub open spec fn suits(v: Value, t: DataType) -> bool { match v { Value::Int8(_) => t is Int8, Value::Int16(_) => t is Int16, Value::Int32(_) => t is Int32, Value::Int64(_) => t is Int64, Value::Boolean(_) => t is Boolean, Value::Decimal(_) => t is Decimal, Value::String(_) => t is Utf8, Value::Timestamp(_) => t is Timestamp, _ => false } }
impl NamedValue { pub closed spec fn n(&self) -> Seq<char> { self.name@ } pub closed spec fn v(&self) -> Value { self.value } }
pub open spec fn first_field(f: Seq<Field>, n: Seq<char>, i: int) -> bool { 0 <= i < f.len() && f[i].name@ == n && forall|j: int| 0 <= j < i ==> (#[trigger] f[j]).name@ != n }
/// the column exists and is of the value's type
pub open spec fn placed(x: NamedValue, f: Seq<Field>) -> bool { exists|i: int| #[trigger] first_field(f, x.n(), i) && suits(x.v(), f[i].data_type) }
pub open spec fn all_placed(x: Seq<NamedValue>, f: Seq<Field>) -> bool { forall|i: int| 0 <= i < x.len() ==> placed(#[trigger] x[i], f) }
#[verifier::external_body] fn find_field<'a>(f: &'a Vec<Field>, n: &String) -> (r: Option<&'a Field>)
    ensures r is None ==> forall|i: int| !first_field(f@, n@, i), r is Some ==> exists|i: int| #[trigger] first_field(f@, n@, i) && *(r->0) == f@[i] { unimplemented!() }
/// the value given for a column, if any: the first of that name
pub open spec fn given(x: Seq<NamedValue>, n: Seq<char>) -> Value decreases x.len() { if x.len() == 0 { Value::Null } else if x[0].n() == n { x[0].v() } else { given(x.skip(1), n) } }
/// the first values are the key, whatever their names; the others go by name
pub open spec fn op_for(x: Seq<NamedValue>, f: Seq<Field>, ic: nat) -> Op { Op { key: x.take(ic as int).map_values(|v: NamedValue| key(v.v())), rest: Seq::new((f.len() - ic) as nat, |i: int| given(x.skip(ic as int), f[ic + i].name@)) } }
#[verifier::external_body] fn drain_front<T>(v: &mut Vec<T>, n: usize) -> (r: Vec<T>) requires n <= old(v)@.len() ensures r@ == old(v)@.take(n as int), final(v)@ == old(v)@.skip(n as int) { unimplemented!() }
#[verifier::external_body] fn rest_of<T>(v: &Vec<T>, n: usize) -> (r: Vec<&T>) ensures r@.len() == (if n <= v@.len() { v@.len() - n } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == v@[n + i] { unimplemented!() }
#[verifier::external_body] fn numbered<T>(v: &Vec<T>) -> (r: Vec<(usize, &T)>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == v@[i] { unimplemented!() }
#[verifier::external_body] fn copied<T>(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == v@ { unimplemented!() }
impl OptiDBImpl {
//@fn src/storage/src/db.rs OptiDBImpl::flush | ret=r block mut_self extra="disk: &mut Disk"
//@contract
    requires old(self).has(tbl_name@) ==> old(self).keeps(old(disk)@, tbl_name@) && old(self).table(tbl_name@).small(),
    ensures later(*old(disk), *final(disk)), r is Ok ==> old(self).has(tbl_name@),
        old(self).has(tbl_name@) ==> ({ let t = old(self).table(tbl_name@); let dir = old(self).dir(tbl_name@);
        &&& others_same(*old(self), *final(self), tbl_name@)
        &&& forall|i: int| old(disk).trace().len() <= i < final(disk).trace().len() ==> ({ let s = #[trigger] final(disk).trace()[i]; recoverable(s, old(disk)@, dir, t.md(), t.rows()) || half_written(s[meta_at(dir)], old(disk)@[meta_at(dir)]) })
        &&& r is Ok ==> ({ let now = final(self).tabs()[index_of(old(self).tabs(), tbl_name@)]; kept(final(disk)@, old(self).root(), now) && now.rows() =~= Seq::<Row>::empty()
            && (t.rows().len() == 0 || flushed(final(disk)@, old(disk)@, dir, t.md(), t.rows(), now.md().levels[0].parts.last())) }) }),
//@end
//@fn src/storage/src/db.rs OptiDBImpl::insert | ret=r block mut_self extra="disk: &mut Disk"
//@rule metadata . schema . fields . iter ( ) . find ( | f | f . name == $~n ) =>> find_field(&metadata.schema.fields, &$n)
//@rule values . drain ( 0 .. $~n ) . map ( | v | $$e ) . collect :: < Vec < _ > > ( ) =>> { let front = drain_front(&mut values, $n); let mut out: Vec<KeyValue> = Vec::new(); for v in it: &front     invariant out@ =~= front@.take(it.index@).map_values(|v: NamedValue| key(v.v())), it.seq().len() == front@.len(), forall|i: int| 0 <= i < front@.len() ==> #[trigger] *it.seq()[i] == front@[i], forall|i: int| 0 <= i < front@.len() ==> keyable((#[trigger] front@[i]).v()), { proof { assert(front@.take(it.index@ + 1) =~= front@.take(it.index@).push(front@[it.index@])); } out.push($e); } proof { assert(front@.take(front@.len() as int) =~= front@); } out }
//@rule metadata . schema . fields . iter ( ) . skip ( $$n ) =>> rest_of(&metadata.schema.fields, $n)
//@rule KeyValue :: from =>> key_of
//@rule log_op ( LogOp :: Insert ( $a . clone ( ) , $b . clone ( ) ) , $$l ) ? =>> log_op(LogOp::Insert(copied(&$a), copied(&$b)), $l disk)?
//@rule pk_values . iter ( ) . enumerate ( ) =>> numbered(&pk_values)
//@rule final_values . into_iter ( ) . enumerate ( ) =>> numbered_own(final_values)
//@rule val . into ( ) =>> value_of(val)
//@contract
    requires old(self).has(tbl_name@) ==> ({ let t = old(self).table(tbl_name@); let ic = t.md().opts.index_cols;
            &&& old(self).keeps(old(disk)@, tbl_name@) && t.small() &&& 0 < t.md().fields.len() && ic <= t.md().fields.len()
            &&& all_placed(values@, t.md().fields) ==> ic <= values@.len() && forall|i: int| 0 <= i < ic ==> keyable((#[trigger] values@[i]).v()) }),
    ensures later(*old(disk), *final(disk)),
        r is Ok ==> old(self).has(tbl_name@) && all_placed(values@, old(self).table(tbl_name@).md().fields),
        // only what does not fit is refused, and what is refused changes nothing
        r is Err && r->Err_0 is Internal ==> !(old(self).has(tbl_name@) && all_placed(values@, old(self).table(tbl_name@).md().fields)),
        r is Err && r->Err_0 is Internal ==> *final(disk) == *old(disk) && (old(self).has(tbl_name@) ==> others_same(*old(self), *final(self), tbl_name@) && final(self).tabs()[index_of(old(self).tabs(), tbl_name@)] == old(self).table(tbl_name@)),
        old(self).has(tbl_name@) ==> ({ let t = old(self).table(tbl_name@); let dir = old(self).dir(tbl_name@); let m = t.md(); let row = row_of(op_for(values@, m.fields, m.opts.index_cols as nat), m.fields.len());
        &&& others_same(*old(self), *final(self), tbl_name@)
        &&& forall|i: int| old(disk).trace().len() <= i < final(disk).trace().len() ==> ({ let s = #[trigger] final(disk).trace()[i]; recoverable(s, old(disk)@, dir, m, t.rows()) || recoverable(s, old(disk)@, dir, m, t.rows().push(row)) || half_written(s[meta_at(dir)], old(disk)@[meta_at(dir)]) })
        &&& r is Ok ==> ({ let now = final(self).tabs()[index_of(old(self).tabs(), tbl_name@)]; kept(final(disk)@, old(self).root(), now) && recoverable(final(disk)@, old(disk)@, dir, m, t.rows().push(row)) }) }),
//@start
    let ghost vals = values@; let ghost d0 = disk@; let ghost t0 = self.table(tbl_name@); let ghost m = t0.md(); let ghost dir = self.dir(tbl_name@); let ghost ic = m.opts.index_cols as int; let ghost rest = vals.skip(ic); let ghost n = m.fields.len();
    let ghost o = op_for(vals, m.fields, m.opts.index_cols as nat); let ghost row = row_of(o, n); let ghost rows = t0.rows(); let ghost lp = log_at(dir, m.log_id);
//@loop 0 iter=it
    invariant it.seq().len() == vals.len(), forall|i: int| 0 <= i < vals.len() ==> #[trigger] *it.seq()[i] == vals[i], forall|i: int| 0 <= i < it.index@ ==> placed(#[trigger] vals[i], m.fields),
//@loopstart 0
    let ghost x0 = vals[it.index@ as int]; let ghost j0 = choose|j: int| first_field(m.fields, x0.n(), j);
    proof { assert(*it.seq()[it.index@] == vals[it.index@]); }
//@loopend 0
    proof { assert(first_field(m.fields, x0.n(), j0)); assert(suits(x0.v(), m.fields[j0].data_type)); assert(placed(x0, m.fields)); }
//@loop 1 iter=fit
    invariant fit.seq().len() == n - ic, forall|i: int| 0 <= i < n - ic ==> *(#[trigger] fit.seq()[i]) == m.fields[ic + i], final_values@ =~= o.rest.take(fit.index@), values@ == rest,
//@loopstart 1
    let ghost fv0 = final_values@; let ghost fi = fit.index@ as int;
    proof { assert(*fit.seq()[fi] == m.fields[ic + fi]); assert(o.rest.take(fi + 1) =~= o.rest.take(fi).push(o.rest[fi])); assert(rest.skip(0) =~= rest); }
//@loop 2 iter=vit
    invariant vit.seq().len() == rest.len(), forall|i: int| 0 <= i < rest.len() ==> #[trigger] *vit.seq()[i] == rest[i], brk_2 == found, values@ == rest,
        !found ==> final_values@ == fv0 && given(rest, field.name@) == given(rest.skip(vit.index@ as int), field.name@),
        found ==> final_values@ == fv0.push(given(rest, field.name@)),
//@loopstart 2
    proof { let k = vit.index@ as int; assert(*vit.seq()[k] == rest[k]); assert(rest.skip(k)[0] == rest[k]); assert(rest.skip(k).skip(1) =~= rest.skip(k + 1)); }
//@before let mut log =
    proof { assert(pk_values@ =~= o.key); assert(o.rest.take((n - ic) as int) =~= o.rest); assert(final_values@ =~= o.rest); }
    proof { axiom_op(o); assert forall|k: int| 0 <= k < frame(enc_op(o)).len() implies recoverable(d0.insert(lp, d0[lp] + #[trigger] frame(enc_op(o)).take(k)), d0, dir, m, rows) by { lemma_torn_state(d0, dir, m, rows, o, k); }
        assert(parts_kept(d0, d0, dir, m)); lemma_logged(d0, dir, m, rows, o); }
//@before let mut metadata = tbl
    let ghost d1 = disk@;
    proof { assert(d1 == d0.insert(lp, d0[lp] + frame(enc_op(o)))); }
//@after let mut memtable =
    let ghost mt0 = *memtable;
//@loop 3 iter=it
    invariant memtable.width() == n, it.seq().len() == pk_values@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == pk_values@[i],
        forall|c: int| 0 <= c < n ==> #[trigger] memtable.col(c) == (if c < it.index@ { mt0.col(c).push(row[c]) } else { mt0.col(c) }),
//@loopstart 3
    proof { assert(it.seq()[it.index@].0 == it.index@); }
//@loop 4 iter=it
    invariant memtable.width() == n, it.seq().len() == n - ic, forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, o.rest[i]),
        forall|c: int| 0 <= c < n ==> #[trigger] memtable.col(c) == (if c < ic + it.index@ { mt0.col(c).push(row[c]) } else { mt0.col(c) }),
//@loopstart 4
    proof { assert(it.seq()[it.index@] == (it.index@ as usize, o.rest[it.index@])); }
//@before if memtable . len ( ) > 0
    proof { lemma_pushed(mt0, *memtable, row); assert(ready(d1, dir, m, *memtable)); assert forall|s: Files| #[trigger] recoverable(s, d1, dir, m, rows.push(row)) implies recoverable(s, d0, dir, m, rows.push(row)) by { lemma_base(s, d1, d0, dir, m, rows.push(row)); }
        assert forall|s: Files, p: Part| #[trigger] flushed(s, d1, dir, m, rows.push(row), p) implies recoverable(s, d0, dir, m, rows.push(row)) by { lemma_base(s, d1, d0, dir, m, rows.push(row)); } }
//@end
}
/// a log whose last record is cut short amounts to what it did before
pub proof fn lemma_torn_state(d: Files, dir: Seq<u8>, m: Md, rows: Seq<Row>, o: Op, k: int)
    requires stands(d, dir, m, rows), d.contains_key(log_at(dir, m.log_id)), whole(d[log_at(dir, m.log_id)]), 0 <= k < frame(enc_op(o)).len()
    ensures recoverable(d.insert(log_at(dir, m.log_id), d[log_at(dir, m.log_id)] + frame(enc_op(o)).take(k)), d, dir, m, rows)
{
    let lp = log_at(dir, m.log_id); let c = d[lp]; let s = d.insert(lp, c + frame(enc_op(o)).take(k)); lemma_paths(dir, m.log_id, 0, 0, 0, 0);
    lemma_torn(o, k); lemma_end(c, frame(enc_op(o)).take(k));
    assert forall|l: int, i: int| 0 <= l < m.levels.len() && 0 <= i < m.levels[l].parts.len() implies held(s, part_at(dir, l as nat, (#[trigger] m.levels[l].parts[i]).id as nat)) == held(d, part_at(dir, l as nat, m.levels[l].parts[i].id as nat)) by { lemma_paths(dir, m.log_id, 0, l as nat, m.levels[l].parts[i].id as nat, 0); }
}
/// a log with one more record amounts to one more row
pub proof fn lemma_logged(d: Files, dir: Seq<u8>, m: Md, rows: Seq<Row>, o: Op)
    requires stands(d, dir, m, rows), d.contains_key(log_at(dir, m.log_id)), whole(d[log_at(dir, m.log_id)]), fits(ops_of(d[log_at(dir, m.log_id)])->0, m.fields.len()), 0 < wide(o) <= m.fields.len(), no_later_log(d, dir, m.log_id)
    ensures ({ let lp = log_at(dir, m.log_id); let c = d[lp] + frame(enc_op(o)); let s = d.insert(lp, c);
        stands(s, dir, m, rows.push(row_of(o, m.fields.len()))) && whole(c) && fits(ops_of(c)->0, m.fields.len()) && no_later_log(s, dir, m.log_id) && parts_kept(s, d, dir, m) && s[meta_at(dir)] == d[meta_at(dir)] && recoverable(s, d, dir, m, rows.push(row_of(o, m.fields.len()))) })
{
    let lp = log_at(dir, m.log_id); let b = d[lp]; let c = b + frame(enc_op(o)); let s = d.insert(lp, c); let n = m.fields.len(); lemma_paths(dir, m.log_id, 0, 0, 0, 0);
    lemma_frame(o, seq![]); assert(frame(enc_op(o)) + seq![] =~= frame(enc_op(o))); lemma_append(b, frame(enc_op(o)));
    assert(replay(ops_of(b)->0.push(o), n) =~= replay(ops_of(b)->0, n).push(row_of(o, n)));
    assert(fits(ops_of(c)->0, n)) by { assert forall|i: int| 0 <= i < ops_of(c)->0.len() implies 0 < wide(#[trigger] ops_of(c)->0[i]) <= n by { if i < ops_of(b)->0.len() { assert(ops_of(c)->0[i] == ops_of(b)->0[i]); } } }
    assert forall|k: u64| k > m.log_id implies !s.contains_key(#[trigger] log_at(dir, k)) by { lemma_paths(dir, m.log_id, k, 0, 0, 0); }
    assert forall|l: int, i: int| 0 <= l < m.levels.len() && 0 <= i < m.levels[l].parts.len() implies held(s, part_at(dir, l as nat, (#[trigger] m.levels[l].parts[i]).id as nat)) == held(d, part_at(dir, l as nat, m.levels[l].parts[i].id as nat)) by { lemma_paths(dir, m.log_id, 0, l as nat, m.levels[l].parts[i].id as nat, 0); }
}
/// what is recoverable next to the parts of one state is recoverable next to the same parts of another
pub proof fn lemma_base(s: Files, e: Files, d: Files, dir: Seq<u8>, m: Md, rows: Seq<Row>)
    requires recoverable(s, e, dir, m, rows), parts_kept(e, d, dir, m)
    ensures recoverable(s, d, dir, m, rows)
{
    assert forall|l: int, i: int| parts_kept(s, e, dir, m) && 0 <= l < m.levels.len() && 0 <= i < m.levels[l].parts.len() implies held(s, part_at(dir, l as nat, (#[trigger] m.levels[l].parts[i]).id as nat)) == held(d, part_at(dir, l as nat, m.levels[l].parts[i].id as nat)) by { }
    if !(stands(s, dir, m, rows) && parts_kept(s, e, dir, m)) { let p = choose|p: Part| #[trigger] flushed(s, e, dir, m, rows, p); assert(flushed(s, d, dir, m, rows, p)); }
}

// ---- schema changes
#[verifier::external_body] fn same_text(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub uninterp spec fn arrow_type(t: DType) -> DataType;
#[verifier::external_body] fn type_of(t: DType) -> (r: Result<DataType>) ensures r is Ok ==> r->Ok_0 == arrow_type(t), r is Err ==> r->Err_0 is Codec { unimplemented!() }
impl Field { pub fn new(name: String, data_type: DataType, is_nullable: bool) -> (r: Field) ensures r == (Field { name, data_type, is_nullable }) { Field { name, data_type, is_nullable } } }
/// a column more, with nothing in it
pub open spec fn widened(rows: Seq<Row>) -> Seq<Row> { rows.map_values(|r: Row| r.push(Value::Null)) }
pub open spec fn with_field(m: Md, f: Field) -> Md { Md { fields: m.fields.push(f), ..m } }
impl OptiDBImpl {
//@fn src/storage/src/db.rs OptiDBImpl::add_field | ret=r block mut_self extra="disk: &mut Disk"
//@rule f . name == field_name =>> same_text(&f.name, field_name)
//@rule dt . clone ( ) . try_into ( ) ? =>> type_of(dt.clone())?
//@rule DType :: try_from ( $$e ) ? =>> dtype_of($e)?
//@contract
    requires old(self).has(tbl_name@) ==> old(self).keeps(old(disk)@, tbl_name@) && old(self).table(tbl_name@).md().fields.len() < usize::MAX,
    ensures later(*old(disk), *final(disk)),
        r is Ok ==> old(self).has(tbl_name@) && forall|i: int| 0 <= i < old(self).table(tbl_name@).md().fields.len() ==> (#[trigger] old(self).table(tbl_name@).md().fields[i]).name@ != field_name@,
        r is Err && r->Err_0 is Internal ==> !old(self).has(tbl_name@),
        r is Err && r->Err_0 is AlreadyExists ==> old(self).has(tbl_name@) && exists|i: int| 0 <= i < old(self).table(tbl_name@).md().fields.len() && (#[trigger] old(self).table(tbl_name@).md().fields[i]).name@ == field_name@,
        r is Err && (r->Err_0 is Internal || r->Err_0 is AlreadyExists) ==> *final(disk) == *old(disk) && (old(self).has(tbl_name@) ==> others_same(*old(self), *final(self), tbl_name@) && final(self).tabs()[index_of(old(self).tabs(), tbl_name@)] == old(self).table(tbl_name@)),
        old(self).has(tbl_name@) ==> ({ let t = old(self).table(tbl_name@); let dir = old(self).dir(tbl_name@); let m = t.md(); let now = final(self).tabs()[index_of(old(self).tabs(), tbl_name@)];
        &&& others_same(*old(self), *final(self), tbl_name@)
        &&& forall|i: int| old(disk).trace().len() <= i < final(disk).trace().len() ==> ({ let s = #[trigger] final(disk).trace()[i];
            recoverable(s, old(disk)@, dir, m, t.rows()) || half_written(s[meta_at(dir)], old(disk)@[meta_at(dir)])
            || exists|f: Field| f.name@ == field_name@ && f.data_type == arrow_type(dt) && f.is_nullable == is_nullable && #[trigger] recoverable(s, old(disk)@, dir, with_field(m, f), widened(t.rows())) })
        &&& r is Ok ==> ({ let f = now.md().fields.last(); f.name@ == field_name@ && f.data_type == arrow_type(dt) && f.is_nullable == is_nullable && now.md() == with_field(m, f) && now.rows() == widened(t.rows())
            && kept(final(disk)@, old(self).root(), now) && parts_kept(final(disk)@, old(disk)@, dir, m) }) }),
//@start
    let ghost d0 = disk@; let ghost t0 = self.table(tbl_name@); let ghost m = t0.md(); let ghost dir = self.dir(tbl_name@); let ghost rows = t0.rows(); let ghost n = m.fields.len();
//@loop 0 iter=it
    invariant it.seq().len() == n, forall|i: int| 0 <= i < n ==> #[trigger] *it.seq()[i] == m.fields[i], forall|i: int| 0 <= i < it.index@ ==> (#[trigger] m.fields[i]).name@ != field_name@,
//@loopstart 0
    proof { assert(*it.seq()[it.index@] == m.fields[it.index@ as int]); }
//@before write_metadata
    let ghost f0 = field;
    proof { assert(metadata.md() == with_field(m, f0)); lemma_widened(d0, dir, m, rows, f0); }
//@after write_metadata
    let ghost d1 = disk@;
    proof { lemma_meta_only(d0, d1, dir, m, with_field(m, f0), widened(rows)); }
//@after let mut memtable =
    let ghost mt0 = *memtable;
//@loop 1 iter=it
    invariant it.seq().len() == 1, it.index@ == 0 ==> *memtable == mt0, it.index@ == 1 ==> memtable.width() == n + 1 && memtable.even() && memtable.rows() == widened(rows),
//@end
//@fn src/storage/src/db.rs OptiDBImpl::create_table | ret=r block mut_self extra="disk: &mut Disk" anyloops
//@rule let tbl = self . tables . read ( ) ; =>> 
//@rule tbl . iter ( ) . any ( | t | t . name == table_name ) =>> find_table(&mut self.tables, table_name.as_str()).is_some()
//@rule for lid in 0 .. opts . levels { fs :: create_dir_all ( $$p ) ? ; } =>> make_dirs()?;
//@rule fs :: create_dir_all ( $$p ) ? ; =>> make_dirs()?;
//@rule table :: Options =>> Options
//@rule vec ! [ Level :: new_empty ( ) ; opts . levels ] =>> empty_levels(opts.levels)
//@rule Schema :: from ( vec ! [ ] ) =>> Schema { fields: Vec::new() }
//@rule stats : Default :: default ( ) =>> stats: no_stats()
//@rule self . tables . write ( ) =>> self.tables.locked()
//@rule write_metadata ( & mut mdf , & mut metadata ) ? =>> write_metadata(&mut mdf, &mut metadata, disk)?
//@rule log : BufWriter :: new ( log ) =>> log: BufWriter::new(log)
//@contract
    requires opts.levels > 0, forall|x: Seq<u8>| !(#[trigger] old(disk)@.contains_key(joined(old(self).dir(table_name@), x))),
    ensures later(*old(disk), *final(disk)), r is Ok ==> !old(self).has(table_name@), old(self).has(table_name@) ==> r is Err && r->Err_0 is AlreadyExists,
        final(self).root() == old(self).root(), r is Err ==> final(self).tabs() == old(self).tabs(),
        r is Err && r->Err_0 is AlreadyExists ==> old(self).has(table_name@) && *final(disk) == *old(disk),
        r is Ok ==> ({ let now = final(self).tabs().last(); final(self).tabs() == old(self).tabs().push(now) && named(now) == table_name@ && kept(final(disk)@, old(self).root(), now) && now.rows() == Seq::<Row>::empty()
            && now.md().fields.len() == 0 && now.md().opts == opts && now.small() && forall|l: int| 0 <= l < now.md().levels.len() ==> (#[trigger] now.md().levels[l]).parts.len() == 0 }),
//@start
    let ghost dir = self.dir(table_name@);
    proof { reveal_strlit("metadata"); axiom_utf8("metadata"@); reveal_strlit("tables"); axiom_utf8("tables"@); lemma_texts(); lemma_paths(dir, 0, 0, 0, 0, 0); assert(replay(Seq::<Op>::empty(), 0) =~= Seq::<Row>::empty()); assert(ops_of(Seq::<u8>::empty()) == Some(Seq::<Op>::empty())); assert(whole(seq![]));
        assert(joined(joined(self.path@, utf8("tables"@)), utf8(table_name@)) =~= dir); }
//@before let mut tables =
    proof { assert forall|k: u64| k > 0 implies !disk@.contains_key(#[trigger] log_at(dir, k)) by { lemma_paths(dir, 0, k, 0, 0, 0); assert(!old(disk)@.contains_key(joined(dir, log_file(k)))); lemma_paths(dir, k, 0, 0, 0, 0); } }
//@end
}
#[verifier::external_body] fn make_dirs() -> (r: core::result::Result<(), IoError>) ensures r is Err ==> r->Err_0 is Io { unimplemented!() }
#[verifier::external_body] fn empty_levels(n: usize) -> (r: Vec<Level>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).lv() == (Lv { part_id: 0, parts: seq![] }) { unimplemented!() }
fn no_stats() -> (r: Stats) ensures r.logged_bytes == 0, r.written_bytes == 0 { Stats { resident_bytes: 0, on_disk_bytes: 0, logged_bytes: 0, written_bytes: 0, read_bytes: 0, space_amp: 0, write_amp: 0 } }
/// the same log, in a table with a column more
pub proof fn lemma_widened(d: Files, dir: Seq<u8>, m: Md, rows: Seq<Row>, f: Field)
    requires stands(d, dir, m, rows), d.contains_key(log_at(dir, m.log_id)), fits(ops_of(d[log_at(dir, m.log_id)])->0, m.fields.len())
    ensures replay(ops_of(d[log_at(dir, m.log_id)])->0, m.fields.len() + 1) == widened(rows), fits(ops_of(d[log_at(dir, m.log_id)])->0, m.fields.len() + 1)
{
    let ops = ops_of(d[log_at(dir, m.log_id)])->0; let n = m.fields.len();
    assert forall|i: int| 0 <= i < ops.len() implies 0 < wide(#[trigger] ops[i]) <= n + 1 by { }
    assert forall|i: int| 0 <= i < ops.len() implies #[trigger] replay(ops, n + 1)[i] == widened(rows)[i] by { assert(0 < wide(ops[i]) <= n); assert(rows[i] == row_of(ops[i], n)); assert(row_of(ops[i], n + 1) =~= row_of(ops[i], n).push(Value::Null)); }
    assert(replay(ops, n + 1) =~= widened(rows));
}
/// only the metadata file changed
pub proof fn lemma_meta_only(d: Files, s: Files, dir: Seq<u8>, m: Md, m1: Md, rows: Seq<Row>)
    requires beside(d, s, meta_at(dir)), s.contains_key(meta_at(dir)), has_record(s[meta_at(dir)]), md_in(s[meta_at(dir)]) == Some(m1), m1.log_id == m.log_id, m1.levels == m.levels, d.contains_key(log_at(dir, m.log_id)), ops_of(d[log_at(dir, m.log_id)]) is Some, replay(ops_of(d[log_at(dir, m.log_id)])->0, m1.fields.len()) == rows
    ensures stands(s, dir, m1, rows), parts_kept(s, d, dir, m1), parts_kept(s, d, dir, m), recoverable(s, d, dir, m1, rows), s[log_at(dir, m.log_id)] == d[log_at(dir, m.log_id)], no_later_log(d, dir, m.log_id) ==> no_later_log(s, dir, m.log_id)
{
    lemma_paths(dir, m.log_id, 0, 0, 0, 0);
    assert forall|k: u64| no_later_log(d, dir, m.log_id) && k > m.log_id implies !s.contains_key(#[trigger] log_at(dir, k)) by { lemma_paths(dir, k, 0, 0, 0, 0); }
    assert forall|l: int, i: int| 0 <= l < m.levels.len() && 0 <= i < m.levels[l].parts.len() implies held(s, part_at(dir, l as nat, (#[trigger] m.levels[l].parts[i]).id as nat)) == held(d, part_at(dir, l as nat, m.levels[l].parts[i].id as nat)) by { lemma_paths(dir, 0, 0, l as nat, m.levels[l].parts[i].id as nat, 0); }
}
