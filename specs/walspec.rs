// ---- the log: frames of encoded operations
//@item src/storage/src/db.rs LogOp | vis=keep
pub struct Op { pub key: Seq<KeyValue>, pub rest: Seq<Value> }
impl LogOp { pub closed spec fn op(&self) -> Op { match *self { LogOp::Insert(k, v) => Op { key: k@, rest: v@ } } } }
pub open spec fn wide(o: Op) -> nat { o.key.len() + o.rest.len() }
/// the row an operation stands for, in a table that has n columns by now
pub open spec fn row_of(o: Op, n: nat) -> Row { Seq::new(n, |c: int| if c < o.key.len() { val(o.key[c]) } else if c < wide(o) { o.rest[c - o.key.len()] } else { Value::Null }) }
pub open spec fn replay(ops: Seq<Op>, n: nat) -> Seq<Row> { ops.map_values(|o: Op| row_of(o, n)) }
pub open spec fn fits(ops: Seq<Op>, n: nat) -> bool { forall|i: int| 0 <= i < ops.len() ==> 0 < wide(#[trigger] ops[i]) <= n }
// bincode: an operation is read back as it was written
pub uninterp spec fn enc_op(o: Op) -> Seq<u8>;
pub uninterp spec fn dec_op(b: Seq<u8>) -> Option<Op>;
pub axiom fn axiom_op(o: Op) ensures dec_op(enc_op(o)) == Some(o), enc_op(o).len() < 0x1000_0000_0000;
#[verifier::external_body] fn op_bytes(o: &LogOp) -> (r: Result<Vec<u8>>) ensures r is Ok ==> r->Ok_0@ == enc_op(o.op()), r is Err ==> r->Err_0 is Codec { unimplemented!() }
#[verifier::external_body] fn op_from(b: &Vec<u8>) -> (r: Result<LogOp>) ensures r is Ok <==> dec_op(b@) is Some, r is Ok ==> dec_op(b@) == Some(r->Ok_0.op()) { unimplemented!() }
pub open spec fn data_len(b: Seq<u8>) -> int { un8(b.subrange(4, 12)) as int }
/// does a whole record start here
pub open spec fn has_record(b: Seq<u8>) -> bool { b.len() >= 12 && b.len() >= 12 + data_len(b) }
pub open spec fn record(b: Seq<u8>) -> Seq<u8> { b.subrange(12, 12 + data_len(b)) }
pub open spec fn sound_record(b: Seq<u8>) -> bool { un4(b.subrange(0, 4)) == sum(record(b)) && dec_op(record(b)) is Some }
/// the operations a log holds: whole records up to the end or to one cut short; None if one of them is damaged
pub open spec fn ops_of(b: Seq<u8>) -> Option<Seq<Op>> decreases b.len() {
    if !has_record(b) { Some(seq![]) } else if !sound_record(b) { None }
    else { match ops_of(b.skip(12 + data_len(b))) { Some(t) => Some(seq![dec_op(record(b))->0] + t), None => None } } }
/// no record is cut short
pub open spec fn whole(b: Seq<u8>) -> bool decreases b.len() { if b.len() == 0 { true } else { has_record(b) && whole(b.skip(12 + data_len(b))) } }
/// where the whole records end
pub open spec fn sound_len(b: Seq<u8>) -> int decreases b.len() { if !has_record(b) { 0 } else { 12 + data_len(b) + sound_len(b.skip(12 + data_len(b))) } }
pub proof fn lemma_frame(o: Op, x: Seq<u8>)
    ensures has_record(frame(enc_op(o)) + x), sound_record(frame(enc_op(o)) + x), dec_op(record(frame(enc_op(o)) + x)) == Some(o), 12 + data_len(frame(enc_op(o)) + x) == frame(enc_op(o)).len(), (frame(enc_op(o)) + x).skip(frame(enc_op(o)).len() as int) == x,
{
    axiom_op(o); let d = enc_op(o); let f = frame(d); let b = f + x;
    assert(b.subrange(0, 4) =~= le4(sum(d))); assert(b.subrange(4, 12) =~= le8(d.len() as u64)); assert(data_len(b) == d.len());
    assert(record(b) =~= d); assert(b.skip(f.len() as int) =~= x);
}
/// one more record after whole ones is one more operation
pub proof fn lemma_append(b: Seq<u8>, f: Seq<u8>)
    requires whole(b), ops_of(b) is Some, has_record(f), f.len() == 12 + data_len(f), sound_record(f)
    ensures whole(b + f), ops_of(b + f) == Some(ops_of(b)->0.push(dec_op(record(f))->0)),
    decreases b.len()
{
    let o = dec_op(record(f))->0;
    if b.len() == 0 { assert(b + f =~= f); assert(f.skip(f.len() as int) =~= seq![]); assert(ops_of(Seq::<u8>::empty()) == Some(Seq::<Op>::empty())); assert(whole(seq![])); assert(seq![o] + Seq::<Op>::empty() =~= Seq::<Op>::empty().push(o)); assert(ops_of(b) == Some(Seq::<Op>::empty())); }
    else {
        let n = 12 + data_len(b); let t = b.skip(n); let bf = b + f;
        assert(bf.subrange(4, 12) =~= b.subrange(4, 12)); assert(bf.subrange(0, 4) =~= b.subrange(0, 4)); assert(record(bf) =~= record(b)); assert(bf.skip(n) =~= t + f);
        lemma_append(t, f);
        let h = seq![dec_op(record(b))->0];
        assert(h + ops_of(t)->0.push(o) =~= (h + ops_of(t)->0).push(o));
    }
}
/// what is not a whole record adds nothing after whole ones
pub proof fn lemma_end(b: Seq<u8>, f: Seq<u8>)
    requires whole(b), ops_of(b) is Some, !has_record(f)
    ensures ops_of(b + f) == ops_of(b), sound_len(b + f) == b.len(),
    decreases b.len()
{
    let bf = b + f;
    if b.len() == 0 { assert(bf =~= f); } else {
        let n = 12 + data_len(b); let t = b.skip(n);
        assert(bf.subrange(4, 12) =~= b.subrange(4, 12)); assert(bf.subrange(0, 4) =~= b.subrange(0, 4)); assert(record(bf) =~= record(b)); assert(bf.skip(n) =~= t + f);
        lemma_end(t, f);
    }
}
/// a record cut short is not a whole one
pub proof fn lemma_torn(o: Op, k: int) requires 0 <= k < frame(enc_op(o)).len() ensures !has_record(frame(enc_op(o)).take(k))
{
    let g = frame(enc_op(o)); let f = g.take(k); lemma_frame(o, seq![]); assert(g + seq![] =~= g);
    if has_record(f) { assert(f.subrange(4, 12) =~= g.subrange(4, 12)); }
}
/// the next record of a log
pub proof fn lemma_next(c: Seq<u8>, p: int)
    requires 0 <= p <= c.len(), whole(c.take(p)), ops_of(c.take(p)) is Some, has_record(c.skip(p)), sound_record(c.skip(p))
    ensures p + 12 + data_len(c.skip(p)) <= c.len(), whole(c.take(p + 12 + data_len(c.skip(p)))), ops_of(c.take(p + 12 + data_len(c.skip(p)))) == Some(ops_of(c.take(p))->0.push(dec_op(record(c.skip(p)))->0)),
{
    let x = c.skip(p); let n = 12 + data_len(x); let f = x.take(n);
    assert(f.subrange(4, 12) =~= x.subrange(4, 12)); assert(f.subrange(0, 4) =~= x.subrange(0, 4)); assert(record(f) =~= record(x));
    lemma_append(c.take(p), f); assert(c.take(p) + f =~= c.take(p + n));
}
/// the records after a whole prefix
pub proof fn lemma_split(c: Seq<u8>, p: int)
    requires 0 <= p <= c.len(), whole(c.take(p)), ops_of(c.take(p)) is Some
    ensures ops_of(c) is Some <==> ops_of(c.skip(p)) is Some, ops_of(c) is Some ==> ops_of(c)->0 == ops_of(c.take(p))->0 + ops_of(c.skip(p))->0, sound_len(c) == p + sound_len(c.skip(p)),
    decreases c.len()
{
    let a = c.take(p); let x = c.skip(p);
    if p == 0 { assert(x =~= c); assert(a =~= seq![]); assert(ops_of(Seq::<u8>::empty()) == Some(Seq::<Op>::empty())); if ops_of(c) is Some { assert(Seq::<Op>::empty() + ops_of(c)->0 =~= ops_of(c)->0); } }
    else {
        let n = 12 + data_len(a); let t = c.skip(n);
        assert(a.subrange(4, 12) =~= c.subrange(4, 12)); assert(a.subrange(0, 4) =~= c.subrange(0, 4)); assert(record(a) =~= record(c)); assert(a.skip(n) =~= t.take(p - n)); assert(t.skip(p - n) =~= x);
        lemma_split(t, p - n);
        let h = seq![dec_op(record(a))->0];
        if ops_of(x) is Some { assert(h + (ops_of(a.skip(n))->0 + ops_of(x)->0) =~= (h + ops_of(a.skip(n))->0) + ops_of(x)->0); }
    }
}
/// dropping what follows the whole records changes nothing else
pub proof fn lemma_cut(b: Seq<u8>)
    requires ops_of(b) is Some
    ensures 0 <= sound_len(b) <= b.len(), whole(b.take(sound_len(b))), ops_of(b.take(sound_len(b))) == ops_of(b),
    decreases b.len()
{
    if !has_record(b) { assert(b.take(0).len() == 0); assert(b.take(0) =~= seq![]); }
    else {
        let n = 12 + data_len(b); let t = b.skip(n); lemma_cut(t); let c = b.take(sound_len(b));
        assert(c.subrange(4, 12) =~= b.subrange(4, 12)); assert(c.subrange(0, 4) =~= b.subrange(0, 4)); assert(record(c) =~= record(b)); assert(c.skip(n) =~= t.take(sound_len(t)));
    }
}
//@fn src/storage/src/db.rs hash_crc32 | ret=r block
//@contract
    ensures r == sum(v@),
//@start
    proof { assert(Seq::<u8>::empty() + v@ =~= v@); }
//@end
//@fn src/storage/src/db.rs log_op | ret=r block extra="disk: &mut Disk"
//@rule serialize ( & op ) =>> op_bytes(&op)
//@contract
    requires old(disk)@.contains_key(old(log).path()), old(log).pos() == old(disk)@[old(log).path()].len(),
    ensures final(log).path() == old(log).path(),
        r is Ok ==> r->Ok_0 == frame(enc_op(op.op())).len() && final(disk)@ == old(disk)@.insert(old(log).path(), old(disk)@[old(log).path()] + frame(enc_op(op.op()))) && final(log).pos() == final(disk)@[old(log).path()].len(),
        later(*old(disk), *final(disk)), forall|i: int| old(disk).trace().len() <= i < final(disk).trace().len() ==> #[trigger] final(disk).trace()[i] == final(disk)@,
        r is Err ==> !refusal(r->Err_0), r is Err ==> final(disk)@ == old(disk)@ || exists|k: int| 0 <= k < frame(enc_op(op.op())).len() && final(disk)@ == old(disk)@.insert(old(log).path(), old(disk)@[old(log).path()] + #[trigger] frame(enc_op(op.op())).take(k)),
//@start
    proof { reveal_with_fuel(flat, 5); axiom_op(op.op()); let f = frame(enc_op(op.op())); let c = old(disk)@[old(log).path()]; assert(written(c, c.len(), f) =~= c + f); assert forall|k: int| 0 <= k <= f.len() implies #[trigger] written(c, c.len(), f.take(k)) == c + f.take(k) by { assert(written(c, c.len(), f.take(k)) =~= c + f.take(k)); } }
//@before write_all
    proof { assert(flat(a@) =~= frame(data@)); }
//@end
//@fn src/storage/src/db.rs recover_op | ret=r block
//@rule $c . iter ( ) . map ( | $k | $k . into ( ) ) . collect :: < Vec < _ > > ( ) =>> { let all_ = &$c; let mut out: Vec<Value> = Vec::new(); for $k in it: all_     invariant out@ =~= all_@.take(it.index@).map_values(|k: KeyValue| val(k)), it.seq().len() == all_@.len(), forall|i: int| 0 <= i < all_@.len() ==> #[trigger] *it.seq()[i] == all_@[i], { proof { assert(all_@.take(it.index@ + 1) =~= all_@.take(it.index@).push(all_@[it.index@])); } out.push(value_of($k)); } out }
//@rule [ $a , $b ] . concat ( ) =>> joined_values(&$a, &$b)
//@rule $v . resize ( $$a ) ; =>> resize_values(&mut $v, $a);
//@rule $v . into_iter ( ) . enumerate ( ) =>> numbered_own($v)
//@contract
    requires old(memtable).even(), wide(op.op()) <= old(memtable).width(), old(memtable).width() > 0,
    ensures r is Ok, final(memtable).even(), final(memtable).width() == old(memtable).width(), final(memtable).rows() == old(memtable).rows().push(row_of(op.op(), old(memtable).width())),
//@loop 0 iter=it
    invariant memtable.width() == old(memtable).width(), it.seq().len() == memtable.width(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, row_of(op.op(), old(memtable).width())[i]),
        forall|c: int| 0 <= c < memtable.width() ==> #[trigger] memtable.col(c) == (if c < it.index@ { old(memtable).col(c).push(row_of(op.op(), old(memtable).width())[c]) } else { old(memtable).col(c) }),
//@loopstart 0
    proof { assert(it.seq()[it.index@] == (it.index@ as usize, row_of(op.op(), old(memtable).width())[it.index@])); }
//@before Ok ( ( ) )
    proof { lemma_pushed(*old(memtable), *memtable, row_of(op.op(), old(memtable).width())); }
//@end
/// a table whose every column got one more value has one more row
pub proof fn lemma_pushed(a: Memtable, b: Memtable, r: Row)
    requires a.even(), a.width() > 0, b.width() == a.width(), r.len() == a.width(), forall|c: int| 0 <= c < a.width() ==> #[trigger] b.col(c) == a.col(c).push(r[c]),
    ensures b.even(), b.rows() == a.rows().push(r),
{
    assert(b.col(0).len() == a.col(0).len() + 1);
    assert forall|c: int| 0 <= c < b.width() implies (#[trigger] b.col(c)).len() == b.height() by { assert(a.col(c).len() == a.height()); }
    assert forall|i: int| 0 <= i < b.height() implies #[trigger] b.rows()[i] == a.rows().push(r)[i] by { assert forall|c: int| 0 <= c < a.width() implies #[trigger] b.row(i)[c] == a.rows().push(r)[i][c] by { assert(b.col(c) == a.col(c).push(r[c])); assert(a.col(c).len() == a.height()); } assert(b.row(i) =~= a.rows().push(r)[i]); }
    assert(b.rows() =~= a.rows().push(r));
}
#[verifier::external_body] fn joined_values(a: &Vec<Value>, b: &Vec<Value>) -> (r: Vec<Value>) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] fn resize_values(v: &mut Vec<Value>, n: usize, x: Value) ensures final(v)@ == Seq::new(n as nat, |i: int| if i < old(v)@.len() { old(v)@[i] } else { x }) { unimplemented!() }
#[verifier::external_body] fn numbered_own<T>(v: Vec<T>) -> (r: Vec<(usize, T)>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, v@[i]) { unimplemented!() }

// ---- a table: what it keeps in memory, and where its files are
//@item src/storage/src/table.rs self::Options | vis=keep std="clone"
//@item src/storage/src/lib.rs Stats | vis=keep std="clone"
//@item src/storage/src/table.rs Part | vis=keep std="clone"
//@item src/storage/src/table.rs Level | vis=keep std="clone"
//@item src/storage/src/table.rs Metadata | vis=keep std="clone"
//@item src/storage/src/table.rs Table | vis=keep
/// what a restart needs of the metadata: all but the statistics
pub struct Lv { pub part_id: usize, pub parts: Seq<Part> }
pub struct Md { pub name: Seq<char>, pub log_id: u64, pub fields: Seq<Field>, pub levels: Seq<Lv>, pub opts: Options }
impl Level { pub closed spec fn lv(&self) -> Lv { Lv { part_id: self.part_id, parts: self.parts@ } } }
impl Metadata { pub closed spec fn md(&self) -> Md { Md { name: self.table_name@, log_id: self.log_id, fields: self.schema.fields@, levels: self.levels@.map_values(|l: Level| l.lv()), opts: self.opts } } }
// the metadata codec, as S02 establishes it
pub uninterp spec fn dec_md(b: Seq<u8>) -> Option<Md>;
#[verifier::external_body] fn serialize_md(m: &Metadata) -> (r: Result<Vec<u8>>) ensures r is Ok ==> dec_md(r->Ok_0@) == Some(m.md()) && r->Ok_0@.len() < 0x1000_0000_0000, r is Err ==> !refusal(r->Err_0) { unimplemented!() }
#[verifier::external_body] fn deserialize_md(b: &Vec<u8>) -> (r: Result<Metadata>) ensures r is Ok <==> dec_md(b@) is Some, r is Ok ==> dec_md(b@) == Some(r->Ok_0.md()) { unimplemented!() }
#[verifier::external_body] fn dtype_of(t: DataType) -> (r: Result<DType>) ensures r is Err ==> r->Err_0 is Codec { unimplemented!() }
#[verifier::external_body] fn zeroed(n: usize) -> (r: Vec<u8>) ensures r@.len() == n, n <= isize::MAX { unimplemented!() }
pub open spec fn dir_of(root: Seq<u8>, name: Seq<u8>) -> Seq<u8> { joined(root, asc("tables/"@) + name) }
pub open spec fn log_file(id: u64) -> Seq<u8> { dec_in(16, id as nat) + asc(".log"@) }
pub open spec fn log_at(dir: Seq<u8>, id: u64) -> Seq<u8> { joined(dir, log_file(id)) }
pub open spec fn meta_at(dir: Seq<u8>) -> Seq<u8> { joined(dir, asc("metadata"@)) }
pub open spec fn part_at(dir: Seq<u8>, l: nat, id: nat) -> Seq<u8> { joined(dir, asc("levels/"@) + dec(l) + asc("/"@) + dec(id) + asc(".parquet"@)) }
/// a log, the metadata and a part are different files; so are two logs, and two parts of the top level
pub proof fn lemma_paths(dir: Seq<u8>, i: u64, j: u64, l: nat, a: nat, b: nat)
    ensures log_at(dir, i) != meta_at(dir), part_at(dir, l, a) != meta_at(dir), part_at(dir, l, a) != log_at(dir, i), i != j ==> log_at(dir, i) != log_at(dir, j), a != b ==> part_at(dir, 0, a) != part_at(dir, 0, b), l > 0 ==> part_at(dir, 0, a) != part_at(dir, l, b),
{
    reveal_strlit(".log"); reveal_strlit("metadata"); reveal_strlit(".parquet"); reveal_strlit("/"); reveal_strlit("levels/");
    assert(log_at(dir, i).last() == 103); assert(meta_at(dir).last() == 97); assert(part_at(dir, l, a).last() == 116);
    let k = dir.len() as int + 1;
    if log_at(dir, i) == log_at(dir, j) { let x = log_at(dir, i); let y = log_at(dir, j); assert(dec_in(16, i as nat) =~= x.subrange(k, x.len() - 4)); assert(dec_in(16, j as nat) =~= y.subrange(k, y.len() - 4)); axiom_dec_in_inj(16, i as nat, j as nat); }
    if part_at(dir, 0, a) == part_at(dir, 0, b) { let x = part_at(dir, 0, a); let y = part_at(dir, 0, b); let q = k + 7 + dec(0).len() + 1; assert(dec(a) =~= x.subrange(q, x.len() - 8)); assert(dec(b) =~= y.subrange(q, y.len() - 8)); axiom_dec_inj(a, b); }
    if l > 0 && part_at(dir, 0, a) == part_at(dir, l, b) { let x = part_at(dir, 0, a); let y = part_at(dir, l, b); let q = k + 7; axiom_dec(0); axiom_dec(l);
        assert(x.subrange(q, q + dec(0).len()) =~= dec(0)); assert(y.subrange(q, q + dec(l).len()) =~= dec(l)); assert(x[q + dec(0).len()] == 47); assert(y[q + dec(l).len()] == 47);
        if dec(0).len() < dec(l).len() { assert(dec(l)[dec(0).len() as int] == y[q + dec(0).len()]); } else if dec(l).len() < dec(0).len() { assert(dec(0)[dec(l).len() as int] == x[q + dec(l).len()]); } else { axiom_dec_inj(0, l); } }
}
/// what the metadata file says
pub open spec fn md_in(c: Seq<u8>) -> Option<Md> { if has_record(c) && un4(c.subrange(0, 4)) == sum(record(c)) { dec_md(record(c)) } else { None } }
/// what the log file holds; a missing one is an empty one
pub open spec fn held(d: Files, p: Seq<u8>) -> Seq<u8> { if d.contains_key(p) { d[p] } else { seq![] } }
//@fn src/storage/src/db.rs part_path | ret=r block
//@contract
    ensures r@ == part_at(dir_of(path@, utf8(table_name@)), level_id as nat, part_id as nat),
//@start
    proof { reveal_with_fuel(flat, 8); lemma_texts(); assert(part_at(dir_of(path@, utf8(table_name@)), level_id as nat, part_id as nat) =~= joined(path@, seq![] + asc("tables/"@) + utf8(table_name@) + asc("/levels/"@) + dec(level_id as nat) + asc("/"@) + dec(part_id as nat) + asc(".parquet"@))); }
//@end
//@fn src/storage/src/db.rs log_name | ret=r block
//@contract
    ensures utf8(r@) == log_file(log_id),
//@start
    proof { reveal_with_fuel(flat, 4); assert(log_file(log_id) =~= seq![] + dec_in(16, log_id as nat) + asc(".log"@)); }
//@end
//@fn src/storage/src/db.rs log_path | ret=r block
//@contract
    ensures r@ == log_at(dir_of(path@, utf8(tbl_name@)), log_id),
//@start
    proof { reveal_with_fuel(flat, 6); lemma_texts(); assert(log_at(dir_of(path@, utf8(tbl_name@)), log_id) =~= joined(path@, seq![] + asc("tables/"@) + utf8(tbl_name@) + asc("/"@) + dec_in(16, log_id as nat) + asc(".log"@))); }
//@end
pub proof fn lemma_texts() ensures asc("/levels/"@) == asc("/"@) + asc("levels/"@), asc("tables/"@) == asc("tables"@) + asc("/"@), asc("/metadata"@) == asc("/"@) + asc("metadata"@)
{ reveal_strlit("/levels/"); reveal_strlit("/"); reveal_strlit("levels/"); reveal_strlit("tables/"); reveal_strlit("tables"); reveal_strlit("/metadata"); reveal_strlit("metadata");
  assert(asc("/levels/"@) =~= asc("/"@) + asc("levels/"@)); assert(asc("tables/"@) =~= asc("tables"@) + asc("/"@)); assert(asc("/metadata"@) =~= asc("/"@) + asc("metadata"@)); }
/// these differ at this path only
pub open spec fn beside(a: Files, b: Files, p: Seq<u8>) -> bool { forall|q: Seq<u8>| #![trigger a.contains_key(q)] #![trigger b.contains_key(q)] #![trigger b[q]] q != p ==> (a.contains_key(q) <==> b.contains_key(q)) && a[q] == b[q] }
/// the metadata file while it is being rewritten
pub open spec fn half_written(b: Seq<u8>, a: Seq<u8>) -> bool { exists|d: Seq<u8>, k: int| 0 <= k && (k < d.len() || k == 0) && b == #[trigger] written(a, 0, d.take(k)) }
//@fn src/storage/src/db.rs write_metadata | ret=r block extra="disk: &mut Disk"
//@contract
    requires old(disk)@.contains_key(old(manifest).path()),
    ensures *final(metadata) == *old(metadata), final(manifest).path() == old(manifest).path(), r is Err ==> !refusal(r->Err_0), later(*old(disk), *final(disk)), forall|i: int| old(disk).trace().len() <= i < final(disk).trace().len() ==> #[trigger] final(disk).trace()[i] == final(disk)@,
        beside(old(disk)@, final(disk)@, old(manifest).path()), final(disk)@.contains_key(old(manifest).path()),
        r is Ok ==> has_record(final(disk)@[old(manifest).path()]) && md_in(final(disk)@[old(manifest).path()]) == Some(old(metadata).md()),
        r is Err ==> final(disk)@ == old(disk)@ || half_written(final(disk)@[old(manifest).path()], old(disk)@[old(manifest).path()]),
//@start
    proof { reveal_with_fuel(flat, 5); }
//@before write_all
    proof { assert(flat(a@) =~= frame(data@)); let c = disk@[manifest.path()]; let n = written(c, 0, frame(data@)); let x = n.skip(frame(data@).len() as int); assert(n =~= frame(data@) + x);
        assert(n.subrange(0, 4) =~= le4(sum(data@))); assert(n.subrange(4, 12) =~= le8(data@.len() as u64)); assert(record(n) =~= data@); }
//@end
/// no operation of the log is wider than the table
pub open spec fn narrow(c: Seq<u8>, n: nat) -> bool { forall|p: int| 0 <= p <= c.len() && whole(c.take(p)) && (#[trigger] ops_of(c.take(p))) is Some ==> fits(ops_of(c.take(p))->0, n) }
/// the table in memory is the one on disk: same metadata, and the rows in memory are the operations of its log
pub closed spec fn kept(d: Files, root: Seq<u8>, t: Table) -> bool {
    let dir = dir_of(root, utf8(t.name@)); &&& t.log.f.path() == log_at(dir, t.metadata.log_id) &&& t.metadata_f.f.path() == meta_at(dir) &&& t.metadata.table_name@ == t.name@ &&& ready(d, dir, t.metadata.md(), t.memtable) &&& t.log.f.pos() == d[t.log.f.path()].len() }
pub open spec fn ready(d: Files, dir: Seq<u8>, m: Md, mt: Memtable) -> bool {
    let lp = log_at(dir, m.log_id); let n = m.fields.len();
    &&& stands(d, dir, m, mt.rows()) &&& d.contains_key(lp) && whole(d[lp]) && fits(ops_of(d[lp])->0, n) &&& mt.even() && mt.width() == n &&& orderly(m) &&& no_later_log(d, dir, m.log_id) }
/// the metadata file says m, and the log it names holds operations that amount to these rows
pub open spec fn stands(d: Files, dir: Seq<u8>, m: Md, rows: Seq<Row>) -> bool {
    let ops = ops_of(held(d, log_at(dir, m.log_id)));
    d.contains_key(meta_at(dir)) && has_record(d[meta_at(dir)]) && md_in(d[meta_at(dir)]) == Some(m) && ops is Some && replay(ops->0, m.fields.len()) == rows }
pub open spec fn orderly(m: Md) -> bool { m.levels.len() > 0 && forall|i: int| 0 <= i < m.levels[0].parts.len() ==> (#[trigger] m.levels[0].parts[i]).id < m.levels[0].part_id }
pub open spec fn no_later_log(d: Files, dir: Seq<u8>, id: u64) -> bool { forall|k: u64| k > id ==> !d.contains_key(#[trigger] log_at(dir, k)) }
/// every part the metadata lists holds what it held
pub open spec fn parts_kept(d: Files, e: Files, dir: Seq<u8>, m: Md) -> bool { forall|l: int, i: int| 0 <= l < m.levels.len() && 0 <= i < m.levels[l].parts.len() ==> held(d, part_at(dir, l as nat, (#[trigger] m.levels[l].parts[i]).id as nat)) == held(e, part_at(dir, l as nat, m.levels[l].parts[i].id as nat)) }
/// a part file that holds these rows
pub uninterp spec fn packed(b: Seq<u8>, rows: Seq<Row>) -> bool;
pub open spec fn with_part(m: Md, p: Part) -> Md { Md { log_id: (m.log_id + 1) as u64, levels: m.levels.update(0, Lv { part_id: (m.levels[0].part_id + 1) as usize, parts: m.levels[0].parts.push(p) }), ..m } }
/// the rows went to a new part, and the log the metadata names is empty
pub open spec fn flushed(d: Files, e: Files, dir: Seq<u8>, m: Md, rows: Seq<Row>, p: Part) -> bool {
    p.id == m.levels[0].part_id && stands(d, dir, with_part(m, p), seq![]) && packed(held(d, part_at(dir, 0, p.id as nat)), rows) && parts_kept(d, e, dir, m) }
/// a restart from here finds these rows, in memory or in a part
pub open spec fn recoverable(d: Files, e: Files, dir: Seq<u8>, m: Md, rows: Seq<Row>) -> bool {
    (stands(d, dir, m, rows) && parts_kept(d, e, dir, m)) || exists|p: Part| #[trigger] flushed(d, e, dir, m, rows, p) }
//@fn src/storage/src/db.rs try_recover_table | ret=r block extra="disk: &mut Disk" attr="#[verifier::loop_isolation(true)]"
//@rule vec ! [ 0u8 ; $$n ] =>> zeroed($n)
//@rule $~x . try_into ( ) ? =>> dtype_of($x)?
//@rule deserialize :: < LogOp > ( & $b ) =>> op_from(&$b)
//@rule let start_time = Instant :: now ( ) ; =>> 
//@contract
    requires old(disk)@.contains_key(meta_at(path@)), has_record(old(disk)@[meta_at(path@)]),
        md_in(old(disk)@[meta_at(path@)]) is Some ==> ({ let m = md_in(old(disk)@[meta_at(path@)])->0; let c = held(old(disk)@, log_at(path@, m.log_id)); c.len() < u64::MAX && narrow(c, m.fields.len()) && orderly(m) && no_later_log(old(disk)@, path@, m.log_id) }),
    ensures r is Ok ==> ({
        let m = md_in(old(disk)@[meta_at(path@)]); let c = held(old(disk)@, log_at(path@, m->0.log_id)); let t = r->Ok_0;
        &&& m == Some(t.metadata.md()) &&& ops_of(c) is Some &&& t.name == name
        &&& t.memtable.rows() == replay(ops_of(c)->0, m->0.fields.len()) &&& ready(final(disk)@, path@, t.metadata.md(), t.memtable)
        &&& t.log.f.path() == log_at(path@, m->0.log_id) &&& t.log.f.pos() == final(disk)@[t.log.f.path()].len() &&& t.metadata_f.f.path() == meta_at(path@)
        &&& final(disk)@ == old(disk)@.insert(log_at(path@, m->0.log_id), c.take(sound_len(c))) }),
        // what is damaged is refused; nothing else is
        r is Err ==> r->Err_0 is Io || r->Err_0 is Codec || ({ let m = md_in(old(disk)@[meta_at(path@)]); m is None || ops_of(held(old(disk)@, log_at(path@, m->0.log_id))) is None }),
//@start
    proof { reveal_strlit("metadata"); axiom_utf8("metadata"@); }
//@loop 0 iter=it
    invariant memtable.even(), memtable.width() == it.index@, memtable.rows() == Seq::<Row>::empty(), it.seq().len() == md.schema.fields@.len(),
//@before let cur_crc32 =
    proof { let m = old(disk)@[meta_at(path@)]; assert(m.subrange(0, 4) == crc_b@); assert(m.subrange(4, 12) == len_b@); assert(data_b@ =~= record(m)); }
//@before let mut recovered_bytes = 0
    let ghost before = disk@; let ghost c = disk@[log.path()]; let ghost lp = log.path(); let ghost n = md.schema.fields@.len();
    proof { assert(c.take(0) =~= seq![]); assert(whole(seq![])); assert(ops_of(Seq::<u8>::empty()) == Some(Seq::<Op>::empty())); assert(replay(Seq::<Op>::empty(), n) =~= Seq::<Row>::empty());
        assert(md_in(old(disk)@[meta_at(path@)]) == Some(md.md())); assert(c == held(old(disk)@, log_at(path@, md.log_id))); assert(before =~= old(disk)@.insert(lp, c)); }
//@loop 1
    invariant_except_break disk@ == before, log.path() == lp, disk@.contains_key(log.path()), disk@[log.path()] == c, c.len() < u64::MAX, recovered_bytes == log.pos(), log.pos() <= c.len(), n == md.schema.fields@.len(),
        whole(c.take(log.pos() as int)), ops_of(c.take(log.pos() as int)) is Some, narrow(c, n), md_in(old(disk)@[meta_at(path@)]) is Some, c == held(old(disk)@, log_at(path@, md_in(old(disk)@[meta_at(path@)])->0.log_id)),
        memtable.even(), memtable.width() == n, memtable.rows() == replay(ops_of(c.take(log.pos() as int))->0, n),
    ensures disk@ == before.insert(log.path(), c.take(sound_len(c))), log.path() == lp, log.pos() == sound_len(c), ops_of(c) is Some,
        memtable.even(), memtable.width() == n, memtable.rows() == replay(ops_of(c)->0, n),
    decreases c.len() - log.pos(),
//@before log . set_len
    proof { if x.len() >= 12 { assert(x.subrange(4, 12) =~= len_b@); } assert(!has_record(x)); assert(c.take(p0) + x =~= c); assert(sound_len(c) == p0); }
//@loopstart 1
    let ghost p0 = log.pos() as int; let ghost x = c.skip(p0);
    proof { assert(c.take(c.len() as int) =~= c); assert(before.insert(lp, c) =~= before); lemma_split(c, p0); assert(c.take(p0) + x =~= c); if !has_record(x) { lemma_end(c.take(p0), x); } else if sound_record(x) { lemma_next(c, p0); } }
//@before recovered_bytes += read_bytes as u64
    proof { assert(x.subrange(0, 4) =~= crc_b@); assert(x.subrange(4, 12) =~= len_b@); assert(has_record(x)); assert(data_b@ =~= record(x)); assert(!sound_record(x) ==> ops_of(x) is None); assert(un4(x.subrange(0, 4)) == crc32); }
//@before md . stats . logged_bytes =
    proof { lemma_cut(c); lemma_paths(path@, md.log_id, 0, 0, 0, 0); let p = sound_len(c); assert(fits(ops_of(c.take(p))->0, n)); assert forall|k: u64| k > md.log_id implies !disk@.contains_key(#[trigger] log_at(path@, k)) by { lemma_paths(path@, md.log_id, k, 0, 0, 0); } }
//@before recover_op
    proof { assert(sound_record(x)); let k = ops_of(c.take(p0))->0.len() as int; let o = dec_op(record(x))->0; let q = p0 + 12 + data_len(x); lemma_split(c, q);
        assert(ops_of(c.take(q))->0[k] == o); }
//@end

// ---- a flush
impl Memtable {
    #[verifier::external_body] pub fn taken(&mut self, with: Memtable) -> (r: Memtable) ensures r == *old(self), *final(self) == with { unimplemented!() }
}
#[verifier::external_body] fn write_level0(metadata: &Metadata, memtable: &Memtable, path: &Path, disk: &mut Disk) -> (r: Result<Part>)
    requires memtable.rows().len() > 0, metadata.md().levels.len() > 0
    ensures later(*old(disk), *final(disk)), r is Err ==> !refusal(r->Err_0), ({ let pp = part_at(dir_of(path@, utf8(metadata.table_name@)), 0, metadata.md().levels[0].part_id as nat);
        &&& forall|i: int| old(disk).trace().len() <= i < final(disk).trace().len() ==> beside(old(disk)@, #[trigger] final(disk).trace()[i], pp)
        &&& beside(old(disk)@, final(disk)@, pp)
        &&& r is Ok ==> r->Ok_0.id == metadata.md().levels[0].part_id && r->Ok_0.size_bytes < 0x4000_0000_0000_0000 && packed(held(final(disk)@, pp), memtable.rows()) }) { unimplemented!() }
//@fn src/storage/src/db.rs flush_log_ | ret=r block extra="disk: &mut Disk"
//@rule let start_time = Instant :: now ( ) ; =>> 
//@rule mem :: replace ( $m , $e ) =>> $m.taken($e)
//@rule fs . open ( $$p ) ? =>> fs.open_at($p, disk)?
//@rule write_level0 ( $$a ) ? =>> write_level0($a, disk)?
//@rule write_metadata ( $$a ) ? =>> write_metadata($a, disk)?
//@contract
    requires ({ let dir = dir_of(path@, utf8(old(metadata).table_name@)); ready(old(disk)@, dir, old(metadata).md(), *old(memtable)) }),
        old(memtable).rows().len() > 0, old(metadata).log_id < u64::MAX, old(metadata).md().levels[0].part_id < usize::MAX, old(metadata).stats.written_bytes < 0x4000_0000_0000_0000,
    ensures later(*old(disk), *final(disk)), r is Err ==> !refusal(r->Err_0),
        ({ let dir = dir_of(path@, utf8(old(metadata).table_name@)); let m = old(metadata).md(); let rows = old(memtable).rows();
        &&& forall|i: int| old(disk).trace().len() <= i < final(disk).trace().len() ==> ({ let s = #[trigger] final(disk).trace()[i]; recoverable(s, old(disk)@, dir, m, rows) || half_written(s[meta_at(dir)], old(disk)@[meta_at(dir)]) })
        &&& r is Ok ==> ({ let p = final(metadata).md().levels[0].parts.last();
            &&& flushed(final(disk)@, old(disk)@, dir, m, rows, p) &&& final(metadata).md() == with_part(m, p) &&& final(metadata).table_name == old(metadata).table_name
            &&& ready(final(disk)@, dir, final(metadata).md(), *final(memtable)) &&& final(memtable).rows() == Seq::<Row>::empty() &&& final(memtable).width() == old(memtable).width()
            &&& r->Ok_0.path() == log_at(dir, final(metadata).log_id) && r->Ok_0.pos() == 0 && final(disk)@[r->Ok_0.path()].len() == 0 }) }),
//@start
    let ghost dir = dir_of(path@, utf8(metadata.table_name@)); let ghost m0 = metadata.md(); let ghost rows = memtable.rows(); let ghost d0 = disk@; let ghost pp = part_at(dir, 0, m0.levels[0].part_id as nat);
    proof { reveal_with_fuel(flat, 6); lemma_texts(); assert forall|s: Files| beside(d0, s, pp) implies #[trigger] recoverable(s, d0, dir, m0, rows) by { lemma_beside(d0, s, dir, m0, rows); } }
//@after let part = write_level0
    let ghost part0 = part; let ghost d1 = disk@;
//@before write_metadata
    proof { assert(metadata.md().levels =~= with_part(m0, part0).levels); assert(manifest.path() == meta_at(dir)); assert(disk@ == d1); }
//@after write_metadata
    let ghost d2 = disk@;
    proof { lemma_after(d0, d1, d2, dir, m0, rows, part0);
        let lp = log_at(dir, m0.log_id); lemma_gone(d2, d0, dir, m0, rows, part0); assert(recoverable(d2, d0, dir, m0, rows)); assert(recoverable(d2.remove(lp), d0, dir, m0, rows)); }
//@before fs . try_remove_file
    proof { assert(metadata.log_id - 1 == m0.log_id); }
//@before Ok ( log )
    proof { lemma_new(d2, d0, dir, m0, rows, part0); lemma_new(d2.remove(log_at(dir, m0.log_id)), d0, dir, m0, rows, part0); assert(replay(Seq::<Op>::empty(), m0.fields.len()) =~= Seq::<Row>::empty());
        assert forall|k: u64| k > metadata.log_id implies !disk@.contains_key(#[trigger] log_at(dir, k)) by { lemma_paths(dir, metadata.log_id, k, 0, 0, 0); lemma_paths(dir, m0.log_id, k, 0, 0, 0); } }
//@end
/// writing the next part changes nothing that is in use
pub proof fn lemma_beside(d: Files, s: Files, dir: Seq<u8>, m: Md, rows: Seq<Row>)
    requires stands(d, dir, m, rows), orderly(m), beside(d, s, part_at(dir, 0, m.levels[0].part_id as nat))
    ensures recoverable(s, d, dir, m, rows), stands(s, dir, m, rows), parts_kept(s, d, dir, m)
{
    lemma_paths(dir, m.log_id, 0, 0, m.levels[0].part_id as nat, 0);
    assert forall|l: int, i: int| 0 <= l < m.levels.len() && 0 <= i < m.levels[l].parts.len() implies held(s, part_at(dir, l as nat, (#[trigger] m.levels[l].parts[i]).id as nat)) == held(d, part_at(dir, l as nat, m.levels[l].parts[i].id as nat)) by { lemma_paths(dir, 0, 0, l as nat, m.levels[0].part_id as nat, m.levels[l].parts[i].id as nat); }
}
/// once the metadata is written the rows are in the part
pub proof fn lemma_after(d: Files, e: Files, s: Files, dir: Seq<u8>, m: Md, rows: Seq<Row>, p: Part)
    requires stands(d, dir, m, rows), orderly(m), no_later_log(d, dir, m.log_id), m.log_id < u64::MAX, p.id == m.levels[0].part_id, beside(d, e, part_at(dir, 0, p.id as nat)), packed(held(e, part_at(dir, 0, p.id as nat)), rows),
        beside(e, s, meta_at(dir)), s.contains_key(meta_at(dir)), has_record(s[meta_at(dir)]), md_in(s[meta_at(dir)]) == Some(with_part(m, p)),
    ensures flushed(s, d, dir, m, rows, p), recoverable(s, d, dir, m, rows), !s.contains_key(log_at(dir, (m.log_id + 1) as u64)), no_later_log(s, dir, m.log_id)
{
    let id = (m.log_id + 1) as u64; lemma_paths(dir, id, 0, 0, p.id as nat, 0); lemma_beside(d, e, dir, m, rows);
    assert(replay(Seq::<Op>::empty(), m.fields.len()) =~= Seq::<Row>::empty());
    assert(!d.contains_key(log_at(dir, id)));
    assert(held(s, log_at(dir, id)) == Seq::<u8>::empty());
    assert forall|k: u64| k > m.log_id implies !s.contains_key(#[trigger] log_at(dir, k)) by { lemma_paths(dir, k, 0, 0, p.id as nat, 0); }
    assert forall|l: int, i: int| 0 <= l < m.levels.len() && 0 <= i < m.levels[l].parts.len() implies held(s, part_at(dir, l as nat, (#[trigger] m.levels[l].parts[i]).id as nat)) == held(d, part_at(dir, l as nat, m.levels[l].parts[i].id as nat)) by { lemma_paths(dir, 0, 0, l as nat, m.levels[l].parts[i].id as nat, 0); }
    assert(stands(s, dir, with_part(m, p), seq![]));
}
/// the previous log is not needed any more
pub proof fn lemma_gone(s: Files, d: Files, dir: Seq<u8>, m: Md, rows: Seq<Row>, p: Part)
    requires flushed(s, d, dir, m, rows, p), m.log_id < u64::MAX
    ensures flushed(s.remove(log_at(dir, m.log_id)), d, dir, m, rows, p)
{
    let lp = log_at(dir, m.log_id); let t = s.remove(lp); lemma_paths(dir, m.log_id, (m.log_id + 1) as u64, 0, p.id as nat, 0);
    assert(held(t, log_at(dir, (m.log_id + 1) as u64)) == held(s, log_at(dir, (m.log_id + 1) as u64)));
    assert forall|l: int, i: int| 0 <= l < m.levels.len() && 0 <= i < m.levels[l].parts.len() implies held(t, part_at(dir, l as nat, (#[trigger] m.levels[l].parts[i]).id as nat)) == held(d, part_at(dir, l as nat, m.levels[l].parts[i].id as nat)) by { lemma_paths(dir, m.log_id, 0, l as nat, m.levels[l].parts[i].id as nat, 0); }
}
/// neither is there anything in the new one
pub proof fn lemma_new(s: Files, d: Files, dir: Seq<u8>, m: Md, rows: Seq<Row>, p: Part)
    requires flushed(s, d, dir, m, rows, p), !s.contains_key(log_at(dir, (m.log_id + 1) as u64))
    ensures flushed(s.insert(log_at(dir, (m.log_id + 1) as u64), seq![]), d, dir, m, rows, p)
{
    let lp = log_at(dir, (m.log_id + 1) as u64); let t = s.insert(lp, seq![]); lemma_paths(dir, (m.log_id + 1) as u64, 0, 0, p.id as nat, 0);
    assert(held(t, lp) == held(s, lp));
    assert forall|l: int, i: int| 0 <= l < m.levels.len() && 0 <= i < m.levels[l].parts.len() implies held(t, part_at(dir, l as nat, (#[trigger] m.levels[l].parts[i]).id as nat)) == held(d, part_at(dir, l as nat, m.levels[l].parts[i].id as nat)) by { lemma_paths(dir, (m.log_id + 1) as u64, 0, l as nat, m.levels[l].parts[i].id as nat, 0); }
}
