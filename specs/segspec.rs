/// where a condition stands while it reads the rows: the user it is at, the values of that user it has taken, the entries written
#[verifier::ext_equal]
pub struct St<V> { pub first: bool, pub last: i64, pub vals: Seq<V>, pub res: Seq<Option<i64>> }
pub open spec fn start<V>() -> St<V> { St { first: true, last: 0, vals: Seq::empty(), res: Seq::empty() } }
pub open spec fn entry<V>(u: i64, vals: Seq<V>, asked: spec_fn(Seq<V>) -> bool) -> Option<i64> { if asked(vals) { Some(u) } else { None } }
pub open spec fn step<V>(s: St<V>, row: (i64, Option<V>), asked: spec_fn(Seq<V>) -> bool) -> St<V> {
    let t = if s.first { St { first: false, last: row.0, ..s } } else { s };
    let t = if t.last != row.0 { St { last: row.0, vals: Seq::empty(), res: t.res.push(entry(t.last, t.vals, asked)), ..t } } else { t };
    match row.1 { Some(v) => St { vals: t.vals.push(v), ..t }, None => t }
}
pub open spec fn steps<V>(s: St<V>, rows: Seq<(i64, Option<V>)>, asked: spec_fn(Seq<V>) -> bool) -> St<V> decreases rows.len()
{ if rows.len() == 0 { s } else { step(steps(s, rows.drop_last(), asked), rows.last(), asked) } }
pub open spec fn close<V>(s: St<V>, asked: spec_fn(Seq<V>) -> bool) -> Seq<Option<i64>> { if s.first { s.res } else { s.res.push(entry(s.last, s.vals, asked)) } }
/// handing the rows over in batches makes no difference
pub proof fn lemma_batches<V>(s: St<V>, a: Seq<(i64, Option<V>)>, b: Seq<(i64, Option<V>)>, asked: spec_fn(Seq<V>) -> bool) ensures steps(s, a + b, asked) == steps(steps(s, a, asked), b, asked) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lemma_batches(s, a, b.drop_last(), asked); }
}
/// the rows of one user stand together
pub open spec fn grouped<V>(rows: Seq<(i64, Option<V>)>) -> bool { forall|i: int, j: int, k: int| 0 <= i <= j <= k < rows.len() && (#[trigger] rows[i]).0 == (#[trigger] rows[k]).0 ==> (#[trigger] rows[j]).0 == rows[i].0 }
/// the users of the rows, each once, in order
pub open spec fn users<V>(rows: Seq<(i64, Option<V>)>) -> Seq<i64> decreases rows.len()
{ if rows.len() == 0 { Seq::empty() } else { let us = users(rows.drop_last()); if us.len() > 0 && us.last() == rows.last().0 { us } else { us.push(rows.last().0) } } }
/// the values of one user, in order
pub open spec fn of_user<V>(rows: Seq<(i64, Option<V>)>, u: i64) -> Seq<V> decreases rows.len()
{ if rows.len() == 0 { Seq::empty() } else { let vs = of_user(rows.drop_last(), u); match rows.last().1 { Some(v) => if rows.last().0 == u { vs.push(v) } else { vs }, None => vs } } }
pub open spec fn marks<V>(rows: Seq<(i64, Option<V>)>, us: Seq<i64>, asked: spec_fn(Seq<V>) -> bool) -> Seq<Option<i64>> { Seq::new(us.len(), |i: int| entry(us[i], of_user(rows, us[i]), asked)) }
pub proof fn lemma_of_absent<V>(rows: Seq<(i64, Option<V>)>, u: i64) requires forall|i: int| 0 <= i < rows.len() ==> (#[trigger] rows[i]).0 != u ensures of_user(rows, u) == Seq::<V>::empty() decreases rows.len()
{ if rows.len() > 0 { assert forall|i: int| 0 <= i < rows.drop_last().len() implies (#[trigger] rows.drop_last()[i]).0 != u by { assert(rows.drop_last()[i] == rows[i]); } lemma_of_absent(rows.drop_last(), u); } }
pub proof fn lemma_users<V>(rows: Seq<(i64, Option<V>)>) ensures forall|i: int| 0 <= i < users(rows).len() ==> exists|j: int| 0 <= j < rows.len() && (#[trigger] rows[j]).0 == #[trigger] users(rows)[i], rows.len() > 0 ==> users(rows).len() > 0 && users(rows).last() == rows.last().0, rows.len() == 0 ==> users(rows).len() == 0 decreases rows.len()
{
    if rows.len() > 0 {
        let pre = rows.drop_last(); lemma_users(pre);
        assert forall|i: int| 0 <= i < users(rows).len() implies exists|j: int| 0 <= j < rows.len() && (#[trigger] rows[j]).0 == #[trigger] users(rows)[i] by {
            if i < users(pre).len() { assert(users(rows)[i] == users(pre)[i]); let j = choose|j: int| 0 <= j < pre.len() && (#[trigger] pre[j]).0 == users(pre)[i]; assert(rows[j] == pre[j]); } else { assert(rows[rows.len() - 1].0 == users(rows)[i]); } }
    }
}
/// what a condition returns: each user of the rows once, in order, marked when that user's own values are as asked
pub proof fn lemma_marked<V>(rows: Seq<(i64, Option<V>)>, asked: spec_fn(Seq<V>) -> bool) requires grouped(rows)
    ensures close(steps(start(), rows, asked), asked) == marks(rows, users(rows), asked), ({ let s = steps(start(), rows, asked); let us = users(rows); (rows.len() == 0 <==> s.first) && (rows.len() > 0 ==> s.last == rows.last().0 && s.vals == of_user(rows, rows.last().0) && s.res == marks(rows, us.drop_last(), asked)) }) decreases rows.len()
{
    let us = users(rows); lemma_users(rows);
    if rows.len() == 0 { assert(close(steps(start(), rows, asked), asked) =~= marks(rows, us, asked)); return; }
    let pre = rows.drop_last(); let u = rows.last().0; let ps = users(pre); lemma_users(pre);
    assert(grouped(pre)) by { assert forall|i: int, j: int, k: int| 0 <= i <= j <= k < pre.len() && (#[trigger] pre[i]).0 == (#[trigger] pre[k]).0 implies (#[trigger] pre[j]).0 == pre[i].0 by { assert(pre[i] == rows[i] && pre[j] == rows[j] && pre[k] == rows[k]); } }
    lemma_marked(pre, asked); let p = steps(start(), pre, asked); let s = steps(start(), rows, asked);
    // earlier users have no further values
    assert forall|i: int| 0 <= i < ps.len() && ps[i] != u implies of_user(rows, #[trigger] ps[i]) == of_user(pre, ps[i]) by { }
    if pre.len() == 0 { assert(of_user(pre, u) == Seq::<V>::empty()); assert(s.res =~= marks(rows, us.drop_last(), asked)); }
    else if p.last == u {
        assert(us == ps);
        assert forall|i: int| 0 <= i < us.len() - 1 implies us[i] != u by { if us[i] == u { lemma_distinct(pre, i, us.len() - 1); } }
        assert(s.res =~= marks(rows, us.drop_last(), asked));
    } else {
        assert forall|i: int| 0 <= i < pre.len() implies (#[trigger] pre[i]).0 != u by { if pre[i].0 == u { let n = pre.len() - 1; assert(rows[i] == pre[i]); assert(rows[n] == pre[n]); assert(rows[n].0 == rows[i].0); assert(rows[pre.len() as int].0 == u); } }
        lemma_of_absent(pre, u); assert(us.drop_last() =~= ps);
        assert forall|i: int| 0 <= i < ps.len() implies ps[i] != u by { let j = choose|j: int| 0 <= j < pre.len() && (#[trigger] pre[j]).0 == ps[i]; }
        assert(s.res =~= marks(rows, us.drop_last(), asked)) by { assert(ps.drop_last().push(ps.last()) =~= ps); }
    }
    assert(us.drop_last().push(us.last()) =~= us);
    assert(close(s, asked) =~= marks(rows, us, asked));
}
pub proof fn lemma_distinct<V>(rows: Seq<(i64, Option<V>)>, a: int, b: int) requires grouped(rows), 0 <= a < b < users(rows).len() ensures users(rows)[a] != users(rows)[b] decreases rows.len()
{
    let us = users(rows); if rows.len() == 0 { return; } let pre = rows.drop_last(); let ps = users(pre); lemma_users(pre);
    assert(grouped(pre)) by { assert forall|i: int, j: int, k: int| 0 <= i <= j <= k < pre.len() && (#[trigger] pre[i]).0 == (#[trigger] pre[k]).0 implies (#[trigger] pre[j]).0 == pre[i].0 by { assert(pre[i] == rows[i] && pre[j] == rows[j] && pre[k] == rows[k]); } }
    if b < ps.len() { lemma_distinct(pre, a, b); } else {
        assert(us[b] == rows.last().0); assert(us[a] == ps[a]);
        if us[a] == us[b] { let j = choose|j: int| 0 <= j < pre.len() && (#[trigger] pre[j]).0 == ps[a]; let n = pre.len() - 1; assert(rows[j] == pre[j]); assert(rows[n] == pre[n]); assert(rows[pre.len() as int].0 == us[b]); assert(rows[n].0 == rows[j].0); assert(ps.last() == rows.last().0); }
    }
}
