pub proof fn l_vec_of(v: Vec<HashData>)
    ensures vec_of(v@) == v
{ axiom_vec_ext(vec_of(v@), v); }
/// nothing goes to a group that no record names
pub proof fn l_going_none(d: Seq<HashData>, g: Grouping, s: Seq<char>)
    requires !is_group(d, g, s)
    ensures going(d, g, Some(s)) == Seq::<HashData>::empty()
    decreases d.len()
{
    if d.len() > 0 {
        let e = d.drop_last();
        if is_group(e, g, s) {
            let i = choose|i: int| 0 <= i < e.len() && e[i] is Element && #[trigger] place(e[i], g) == Some(s);
            assert(d[i] == e[i]);
        }
        l_going_none(e, g, s);
        assert(d.last() == d[d.len() - 1]);
    }
}
pub proof fn l_group_next(d: Seq<HashData>, g: Grouping, i: int, s: Seq<char>)
    requires 0 <= i < d.len()
    ensures is_group(d.take(i + 1), g, s) == (is_group(d.take(i), g, s) || (d[i] is Element && place(d[i], g) == Some(s)))
{
    let (a, b) = (d.take(i), d.take(i + 1));
    if is_group(a, g, s) { let j = choose|j: int| 0 <= j < a.len() && a[j] is Element && #[trigger] place(a[j], g) == Some(s); assert(b[j] == a[j]); }
    if is_group(b, g, s) { let j = choose|j: int| 0 <= j < b.len() && b[j] is Element && #[trigger] place(b[j], g) == Some(s); if j < i { assert(a[j] == b[j]); } }
    if d[i] is Element && place(d[i], g) == Some(s) { assert(b[i] == d[i]); }
}
pub proof fn l_last_group(d: Seq<HashData>, g: Grouping)
    ensures last_place(d, g) is Some ==> is_group(d, g, last_place(d, g)->0)
    decreases d.len()
{
    if d.len() > 0 {
        let e = d.drop_last();
        l_last_group(e, g);
        if d.last() is Element { assert(d[d.len() - 1] == d.last()); }
        else if last_place(e, g) is Some {
            let s = last_place(e, g)->0;
            let i = choose|i: int| 0 <= i < e.len() && e[i] is Element && #[trigger] place(e[i], g) == Some(s);
            assert(d[i] == e[i]);
        }
    }
}
/// one more item, a comment
pub proof fn l_spread_comment(d: Seq<HashData>, i: int, g: Grouping, m: Map<Seq<char>, Vec<HashData>>, old: Seq<HashData>, c: Seq<HashData>, last: Option<String>)
    requires 0 <= i < d.len(), !(d[i] is Element), spread(d.take(i), g, m, old, c, last)
    ensures spread(d.take(i + 1), g, m, old, c.push(d[i]), last)
{
    let b = d.take(i + 1);
    assert(b.drop_last() =~= d.take(i) && b.last() == d[i]);
    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) == is_group(b, g, k) by { l_group_next(d, g, i, k); }
}
/// one more item, a record that stays
pub proof fn l_spread_old(d: Seq<HashData>, i: int, g: Grouping, m: Map<Seq<char>, Vec<HashData>>, old: Seq<HashData>, c: Seq<HashData>, last: Option<String>, x: HashData)
    requires 0 <= i < d.len(), d[i] is Element, spread(d.take(i), g, m, old, c, last), place(d[i], g) is None, x == slim(d[i], g)
    ensures spread(d.take(i + 1), g, m, (old + c).push(x), Seq::empty(), None)
{
    let b = d.take(i + 1);
    assert(b.drop_last() =~= d.take(i) && b.last() == d[i]);
    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) == is_group(b, g, k) by { l_group_next(d, g, i, k); }
}
/// one more item, a record that goes to a group
pub proof fn l_spread_group(d: Seq<HashData>, i: int, g: Grouping, m: Map<Seq<char>, Vec<HashData>>, old: Seq<HashData>, c: Seq<HashData>, last: Option<String>, m2: Map<Seq<char>, Vec<HashData>>, v: Vec<HashData>, x: HashData, s: String)
    requires
        0 <= i < d.len(), d[i] is Element, spread(d.take(i), g, m, old, c, last), place(d[i], g) == Some(s@), x == slim(d[i], g),
        m2 == m.insert(s@, v), v@ == (if m.dom().contains(s@) { m[s@]@ } else { Seq::empty() } + c).push(x),
    ensures spread(d.take(i + 1), g, m2, old, Seq::empty(), Some(s))
{
    let b = d.take(i + 1);
    assert(b.drop_last() =~= d.take(i) && b.last() == d[i]);
    if !m.dom().contains(s@) { l_going_none(d.take(i), g, s@); }
    assert forall|k: Seq<char>| #[trigger] m2.dom().contains(k) == is_group(b, g, k) by { l_group_next(d, g, i, k); let _ = m.dom().contains(k); }
    assert forall|k: Seq<char>| #[trigger] m2.dom().contains(k) implies m2[k]@ == going(b, g, Some(k)) by { let _ = m.dom().contains(k); }
}
/// the comments behind the last record
pub proof fn l_spread_end(d: Seq<HashData>, g: Grouping, m: Map<Seq<char>, Vec<HashData>>, old: Seq<HashData>, c: Seq<HashData>, last: Option<String>, m2: Map<Seq<char>, Vec<HashData>>, old2: Seq<HashData>)
    requires
        spread(d, g, m, old, c, last),
        match last {
            Some(s) => old2 == old && m.dom().contains(s@) && m2.dom() =~= m.dom() && m2[s@]@ == m[s@]@ + c && forall|k: Seq<char>| k != s@ && #[trigger] m.dom().contains(k) ==> m2[k] == m[k],
            None => old2 == old + c && m2 == m,
        },
    ensures spread_all(d, g, m2, old2)
{
    assert forall|k: Seq<char>| #[trigger] m2.dom().contains(k) == is_group(d, g, k) by { let _ = m.dom().contains(k); }
    assert forall|k: Seq<char>| #[trigger] m2.dom().contains(k) implies m2[k]@ == gone(d, g, Some(k)) by { let _ = m.dom().contains(k); }
}
/// the record without its selector
pub proof fn l_slim(d: HashData, g: Grouping, x: HashData)
    requires
        d is Element, choice(d, g) is Some, x is Element, x->Element_0.key@ == d->Element_0.key@, x->Element_0.value.alias == d->Element_0.value.alias,
        x->Element_0.value.value is Hash, entries(x->Element_0.value.value) == rem(entries(d->Element_0.value.value), g.sel@),
    ensures x == slim(d, g)
{
    axiom_string_ext(x->Element_0.key, d->Element_0.key);
    l_vec_of(x->Element_0.value.value->Hash_0);
}
pub proof fn l_kpos_some(d: Seq<HashData>, k: Seq<char>, i: int)
    requires 0 <= i < d.len(), is_key(d[i], k)
    ensures kpos(d, k) >= 0
    decreases d.len()
{ if i < d.len() - 1 { assert(d.drop_last()[i] == d[i]); l_kpos_some(d.drop_last(), k, i); } }
pub proof fn l_all_groups(m: Seq<HashData>, s: Seq<(String, Vec<HashData>)>, t: Map<Seq<char>, Vec<HashData>>, d: Seq<HashData>, g: Grouping, old: Seq<HashData>)
    requires made_from(m, s), in_order(s, t), spread_all(d, g, t, old)
    ensures all_groups(m, d, g)
{
    assert forall|i: int| 0 <= i < m.len() implies match #[trigger] m[i] { HashData::Element(e) => is_group(d, g, e.key@) && e.value == plain(gone(d, g, Some(e.key@))), _ => false } by {
        assert(grouped(m[i], s[i].0@, s[i].1));
        assert(t.dom().contains(s[i].0@));
        l_vec_of(s[i].1);
    }
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies before((#[trigger] m[i])->Element_0.key@, (#[trigger] m[j])->Element_0.key@) by {
        assert(grouped(m[i], s[i].0@, s[i].1)); assert(grouped(m[j], s[j].0@, s[j].1));
    }
    assert forall|k: Seq<char>| #[trigger] is_group(d, g, k) implies kpos(m, k) >= 0 by {
        assert(t.dom().contains(k));
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k;
        assert(grouped(m[i], s[i].0@, s[i].1));
        l_kpos_some(m, k, i);
    }
}
pub broadcast proof fn l_put(v: AliasedYaml, ow: bool, p: YamlPath, a: Yaml, b: Yaml, n: int)
    requires #[trigger] ed(InsertRel { value: v, overwrite: ow }, p, a, b, n), a is Hash, p is Key, p->Key_1@.len() == 0, p->Key_2 is None, ow || kpos(entries(a), p->Key_0@) < 0
    ensures b is Hash, forall|k: String| k@ == p->Key_0@ ==> entries(b) == #[trigger] ins(entries(a), (k, v))
{
    assert forall|k: String| k@ == p->Key_0@ implies b is Hash && entries(b) == #[trigger] ins(entries(a), (k, v)) by {
        lem_put(AliasedYaml { alias: None, value: a }, k, v, AliasedYaml { alias: None, value: b });
    }
    assert(p->Key_0@ == p->Key_0@); let _ = ins(entries(a), (p->Key_0, v));
}
