// ---- the in-memory table
//@item src/storage/src/memtable.rs Column | vis=keep
//@item src/storage/src/memtable.rs Memtable | vis=keep
pub type Row = Seq<Value>;
impl Column {
    pub closed spec fn vals(&self) -> Seq<Value> { self.values@ }
//@fn src/storage/src/memtable.rs Column::new_null | ret=r block
//@contract
    ensures r.vals() == Seq::new(len as nat, |i: int| Value::Null),
//@end
//@fn src/storage/src/memtable.rs Column::len | ret=r block
//@contract
    ensures r == self.vals().len(),
//@end
}
impl Memtable {
    pub closed spec fn width(&self) -> nat { self.cols@.len() }
    pub closed spec fn col(&self, c: int) -> Seq<Value> { self.cols@[c].vals() }
    pub open spec fn height(&self) -> nat { if self.width() == 0 { 0 } else { self.col(0).len() } }
    /// every column is as long as the first
    pub open spec fn even(&self) -> bool { forall|c: int| 0 <= c < self.width() ==> (#[trigger] self.col(c)).len() == self.height() }
    pub open spec fn row(&self, i: int) -> Row { Seq::new(self.width(), |c: int| self.col(c)[i]) }
    pub open spec fn rows(&self) -> Seq<Row> { Seq::new(self.height(), |i: int| self.row(i)) }
//@fn src/storage/src/memtable.rs Memtable::new | ret=r block
//@contract
    ensures r.width() == 0, r.even(), r.rows() =~= Seq::<Row>::empty(),
//@end
//@fn src/storage/src/memtable.rs Memtable::cols_len | ret=r block
//@contract
    ensures r == self.width(),
//@end
//@fn src/storage/src/memtable.rs Memtable::len | ret=r block
//@contract
    ensures r == self.height(),
//@end
//@fn src/storage/src/memtable.rs Memtable::push_value | block
//@contract
    requires col < old(self).width(),
    ensures final(self).width() == old(self).width(), final(self).col(col as int) == old(self).col(col as int).push(val),
        forall|c: int| 0 <= c < old(self).width() && c != col ==> #[trigger] final(self).col(c) == old(self).col(c),
//@end
//@fn src/storage/src/memtable.rs Memtable::add_column | block
//@contract
    requires old(self).even(),
    ensures final(self).width() == old(self).width() + 1, final(self).even(),
        final(self).rows() == (if old(self).width() == 0 { Seq::<Row>::empty() } else { old(self).rows().map_values(|r: Row| r.push(Value::Null)) }),
//@end_body
    proof { let s = *self; let o = *old(self);
        assert(forall|c: int| 0 <= c < o.width() ==> #[trigger] s.col(c) == o.col(c));
        assert(s.col(o.width() as int) == Seq::new(o.height(), |i: int| Value::Null));
        assert forall|c: int| 0 <= c < s.width() implies (#[trigger] s.col(c)).len() == s.height() by { if c < o.width() { assert(o.col(c).len() == o.height()); } }
        if o.width() > 0 { assert forall|i: int| 0 <= i < s.height() implies #[trigger] s.rows()[i] == o.rows()[i].push(Value::Null) by { assert(s.rows()[i] =~= o.rows()[i].push(Value::Null)); } assert(s.rows() =~= o.rows().map_values(|r: Row| r.push(Value::Null))); }
        else { assert(s.rows() =~= Seq::<Row>::empty()); }
    }
//@end
//@fn src/storage/src/memtable.rs Memtable::create_empty | ret=r block anyloops
//@rule self . cols . iter ( ) . map ( | c | $$e ) . collect :: < Vec < _ > > ( ) =>> { let mut out: Vec<Column> = Vec::new(); for c in it: &self.cols     invariant out@.len() == it.index@, it.seq().len() == self.cols@.len(), forall|i: int| 0 <= i < out@.len() ==> (#[trigger] out@[i]).vals() == Seq::<Value>::empty(), { out.push($e); proof { assert(out@.last().vals() =~= Seq::<Value>::empty()); } } out }
//@contract
    ensures r.width() == self.width(), r.even(), r.rows() =~= Seq::<Row>::empty(),
//@end
}
