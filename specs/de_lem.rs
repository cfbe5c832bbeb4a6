pub proof fn l_named_add(a: Seq<AliasedYaml>, b: Seq<AliasedYaml>, t: Map<Seq<char>, Yaml>)
    ensures named_in(a + b, t) == (named_in(a, t) && named_in(b, t))
{
    let s = a + b;
    if named_in(s, t) {
        assert forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).alias is Some implies t.contains_key(a[i].alias->0@) && t[a[i].alias->0@] == a[i].value by { assert(s[i] == a[i]); }
        assert forall|i: int| 0 <= i < b.len() && (#[trigger] b[i]).alias is Some implies t.contains_key(b[i].alias->0@) && t[b[i].alias->0@] == b[i].value by { assert(s[a.len() + i] == b[i]); }
    }
    if named_in(a, t) && named_in(b, t) {
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).alias is Some implies t.contains_key(s[i].alias->0@) && t[s[i].alias->0@] == s[i].value by {
            if i < a.len() { assert(s[i] == a[i]); } else { assert(s[i] == b[i - a.len()]); }
        }
    }
}
pub open spec fn good(a: AliasedYaml, t: Map<Seq<char>, Yaml>) -> bool {
    (a.alias is Some ==> t.contains_key(a.alias->0@) && t[a.alias->0@] == a.value) && covered(a.value, t)
}
pub proof fn l_named_a(a: AliasedYaml, t: Map<Seq<char>, Yaml>)
    ensures named_in(nodes_a(a), t) == good(a, t)
{
    l_named_add(seq![a], nodes_of(a.value), t);
    assert(seq![a][0] == a);
}
pub proof fn lem_named_hash(d: Seq<HashData>, i: int, t: Map<Seq<char>, Yaml>)
    requires named_in(nodes_hash(d), t), 0 <= i < d.len()
    ensures match d[i] { HashData::Element(e) => good(e.value, t), _ => true }
    decreases d.len()
{
    l_named_add(nodes_hash(d.drop_last()), nodes_hd(d.last()), t);
    if i < d.len() - 1 { lem_named_hash(d.drop_last(), i, t); assert(d.drop_last()[i] == d[i]); }
    else { match d.last() { HashData::Element(e) => { l_named_a(e.value, t); } _ => {} } }
}
pub proof fn lem_named_array(d: Seq<ArrayData>, i: int, t: Map<Seq<char>, Yaml>)
    requires named_in(nodes_array(d), t), 0 <= i < d.len()
    ensures match d[i] { ArrayData::Element(e) => good(e, t), _ => true }
    decreases d.len()
{
    l_named_add(nodes_array(d.drop_last()), nodes_ad(d.last()), t);
    if i < d.len() - 1 { lem_named_array(d.drop_last(), i, t); assert(d.drop_last()[i] == d[i]); }
    else { match d.last() { ArrayData::Element(e) => { l_named_a(e, t); } _ => {} } }
}
pub proof fn lem_named_flow(d: Seq<Yaml>, i: int, t: Map<Seq<char>, Yaml>)
    requires named_in(nodes_flow_array(d), t), 0 <= i < d.len()
    ensures covered(d[i], t)
    decreases d.len()
{
    l_named_add(nodes_flow_array(d.drop_last()), nodes_of(d.last()), t);
    if i < d.len() - 1 { lem_named_flow(d.drop_last(), i, t); assert(d.drop_last()[i] == d[i]); }
}
pub proof fn lem_named_flow_hash(d: Seq<(String, Yaml)>, i: int, t: Map<Seq<char>, Yaml>)
    requires named_in(nodes_flow_hash(d), t), 0 <= i < d.len()
    ensures covered(d[i].1, t)
    decreases d.len()
{
    l_named_add(nodes_flow_hash(d.drop_last()), nodes_of(d.last().1), t);
    if i < d.len() - 1 { lem_named_flow_hash(d.drop_last(), i, t); assert(d.drop_last()[i] == d[i]); }
}
pub broadcast proof fn l_flow_all(d: Vec<Yaml>, t: Map<Seq<char>, Yaml>)
    requires covered(Yaml::InlineArray(d), t)
    ensures #[trigger] all_covered(d@, t)
{
    assert forall|i: int| 0 <= i < d@.len() implies covered(#[trigger] d@[i], t) by { lem_named_flow(d@, i, t); }
}
pub broadcast proof fn l_flow_hash_all(d: Vec<(String, Yaml)>, t: Map<Seq<char>, Yaml>)
    requires #[trigger] covered(Yaml::InlineHash(d), t)
    ensures all_covered2(d@, t)
{
    assert forall|i: int| 0 <= i < d@.len() implies covered((#[trigger] d@[i]).1, t) by { lem_named_flow_hash(d@, i, t); }
}
pub broadcast proof fn l_strings_push(v: Seq<String>, x: String)
    ensures #[trigger] sv_strings(v.push(x)) == sv_strings(v).push(x@)
{ assert(sv_strings(v.push(x)) =~= sv_strings(v).push(x@)); }
pub broadcast proof fn l_pairs_push(v: Seq<(String, Yaml)>, x: (String, Yaml))
    ensures #[trigger] pairs(v.push(x)) == pairs(v).push((x.0@, x.1))
{ assert(pairs(v.push(x)) =~= pairs(v).push((x.0@, x.1))); }
/// names being resolved are different and defined: there are at most as many as names
pub proof fn lem_fuel(c: Ctx)
    requires ctx_ok(c)
    ensures c.resolving.len() <= c.tab.dom().len()
{
    c.resolving.unique_seq_to_set();
    assert(c.resolving.to_set().subset_of(c.tab.dom())) by {
        assert forall|x: Seq<char>| c.resolving.to_set().contains(x) implies c.tab.dom().contains(x) by {
            let i = choose|i: int| 0 <= i < c.resolving.len() && c.resolving[i] == x;
            assert(c.tab.contains_key(c.resolving[i]));
        }
    }
    vstd::set_lib::lemma_len_subset(c.resolving.to_set(), c.tab.dom());
}
pub proof fn lem_push_ok(c: Ctx, k: Seq<char>)
    requires ctx_ok(c), c.tab.contains_key(k), !c.resolving.contains(k)
    ensures ctx_ok(Ctx { tab: c.tab, resolving: c.resolving.push(k) })
{
    let r = c.resolving.push(k);
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by {
        if i == c.resolving.len() { assert(c.resolving[j] == r[j]); }
        if j == c.resolving.len() { assert(c.resolving[i] == r[i]); }
    }
    assert forall|i: int| 0 <= i < r.len() implies c.tab.contains_key(#[trigger] r[i]) by { if i < c.resolving.len() { assert(c.resolving[i] == r[i]); } }
}
// --- the table of a document -------------------------------------------------
pub proof fn lem_table(n: Seq<AliasedYaml>)
    requires consistent(n)
    ensures named_in(n, table_of(n)), table_of(n).dom().finite(),
        forall|k: Seq<char>| table_of(n).contains_key(k) ==> exists|i: int| 0 <= i < n.len() && (#[trigger] n[i]).alias is Some && n[i].alias->0@ == k && n[i].value == table_of(n)[k]
    decreases n.len()
{
    if n.len() > 0 {
        let m = n.drop_last();
        assert(consistent(m)) by {
            assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && (#[trigger] m[i]).alias is Some && (#[trigger] m[j]).alias is Some
                && m[i].alias->0@ == m[j].alias->0@ implies m[i].value == m[j].value by { assert(m[i] == n[i]); assert(m[j] == n[j]); }
        }
        lem_table(m);
        let t = table_of(n);
        assert forall|i: int| 0 <= i < n.len() && (#[trigger] n[i]).alias is Some implies t.contains_key(n[i].alias->0@) && t[n[i].alias->0@] == n[i].value by {
            if i < m.len() { assert(m[i] == n[i]); assert(n.last() == n[n.len() - 1]); }
        }
        assert forall|k: Seq<char>| t.contains_key(k) implies exists|i: int| 0 <= i < n.len() && (#[trigger] n[i]).alias is Some && n[i].alias->0@ == k && n[i].value == t[k] by {
            if n.last().alias is Some && n.last().alias->0@ == k { assert(n[n.len() - 1].alias is Some); }
            else {
                let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).alias is Some && m[i].alias->0@ == k && m[i].value == table_of(m)[k];
                assert(n[i] == m[i]);
            }
        }
    }
}
/// what is below an anchored value is below the document
pub proof fn lem_below(y: Yaml, i: int, t: Map<Seq<char>, Yaml>)
    requires covered(y, t), 0 <= i < nodes_of(y).len()
    ensures covered(nodes_of(y)[i].value, t)
    decreases y
{
    match y {
        Yaml::Hash(d) => { lem_below_hash(d@, i, t); }
        Yaml::Array(d) => { lem_below_array(d@, i, t); }
        Yaml::InlineHash(d) => { lem_below_flow_hash(d@, i, t); }
        Yaml::InlineArray(d) => { lem_below_flow(d@, i, t); }
        _ => {}
    }
}
pub proof fn lem_below_a(a: AliasedYaml, i: int, t: Map<Seq<char>, Yaml>)
    requires named_in(nodes_a(a), t), 0 <= i < nodes_a(a).len()
    ensures covered(nodes_a(a)[i].value, t)
    decreases a
{
    l_named_a(a, t);
    if i > 0 { lem_below(a.value, i - 1, t); assert(nodes_a(a)[i] == nodes_of(a.value)[i - 1]); }
}
pub proof fn lem_below_hash(d: Seq<HashData>, i: int, t: Map<Seq<char>, Yaml>)
    requires named_in(nodes_hash(d), t), 0 <= i < nodes_hash(d).len()
    ensures covered(nodes_hash(d)[i].value, t)
    decreases d
{
    let p = nodes_hash(d.drop_last());
    l_named_add(p, nodes_hd(d.last()), t);
    if i < p.len() { lem_below_hash(d.drop_last(), i, t); }
    else { match d.last() { HashData::Element(e) => { assert(d[d.len() - 1] == d.last()); lem_below_a(e.value, i - p.len(), t); } _ => {} } }
}
pub proof fn lem_below_array(d: Seq<ArrayData>, i: int, t: Map<Seq<char>, Yaml>)
    requires named_in(nodes_array(d), t), 0 <= i < nodes_array(d).len()
    ensures covered(nodes_array(d)[i].value, t)
    decreases d
{
    let p = nodes_array(d.drop_last());
    l_named_add(p, nodes_ad(d.last()), t);
    if i < p.len() { lem_below_array(d.drop_last(), i, t); }
    else { match d.last() { ArrayData::Element(e) => { assert(d[d.len() - 1] == d.last()); lem_below_a(e, i - p.len(), t); } _ => {} } }
}
pub proof fn lem_below_flow(d: Seq<Yaml>, i: int, t: Map<Seq<char>, Yaml>)
    requires named_in(nodes_flow_array(d), t), 0 <= i < nodes_flow_array(d).len()
    ensures covered(nodes_flow_array(d)[i].value, t)
    decreases d
{
    let p = nodes_flow_array(d.drop_last());
    l_named_add(p, nodes_of(d.last()), t);
    if i < p.len() { lem_below_flow(d.drop_last(), i, t); } else { assert(d[d.len() - 1] == d.last()); lem_below(d.last(), i - p.len(), t); }
}
pub proof fn lem_below_flow_hash(d: Seq<(String, Yaml)>, i: int, t: Map<Seq<char>, Yaml>)
    requires named_in(nodes_flow_hash(d), t), 0 <= i < nodes_flow_hash(d).len()
    ensures covered(nodes_flow_hash(d)[i].value, t)
    decreases d
{
    let p = nodes_flow_hash(d.drop_last());
    l_named_add(p, nodes_of(d.last().1), t);
    if i < p.len() { lem_below_flow_hash(d.drop_last(), i, t); } else { assert(d[d.len() - 1] == d.last()); lem_below(d.last().1, i - p.len(), t); }
}
/// the context a document starts with
pub proof fn lem_start(y: Yaml, c: Ctx)
    requires consistent(nodes_of(y)), c.tab == table_of(nodes_of(y)), c.resolving.len() == 0
    ensures covered(y, c.tab), ctx_ok(c)
{
    let n = nodes_of(y);
    lem_table(n);
    assert forall|k: Seq<char>| c.tab.contains_key(k) implies covered(#[trigger] c.tab[k], c.tab) by {
        let i = choose|i: int| 0 <= i < n.len() && (#[trigger] n[i]).alias is Some && n[i].alias->0@ == k && n[i].value == table_of(n)[k];
        lem_below(y, i, c.tab);
    }
}
pub proof fn lem_full(y: Yaml, t: Table)
    requires consistent(nodes_of(y)), tab(t) == table_of(nodes_of(y)),
        forall|i: int| 0 <= i < nodes_of(y).len() && (#[trigger] nodes_of(y)[i]).alias is Some ==> had(t, nodes_of(y)[i].alias->0@)
    ensures full(t)
{
    let n = nodes_of(y);
    lem_table(n);
    assert forall|k: Seq<char>| #[trigger] tab(t).contains_key(k) implies had(t, k) by {
        let i = choose|i: int| 0 <= i < n.len() && (#[trigger] n[i]).alias is Some && n[i].alias->0@ == k && n[i].value == table_of(n)[k];
    }
}
/// Everything handed on to a visitor is smaller: either one more name is being resolved, and there are only finitely
/// many (lem_fuel), or it is a proper part of the same tree.  So no chain of nested values goes on for ever.
pub open spec fn smaller(a: De, b: De) -> bool {
    a.cx.tab == b.cx.tab && (a.cx.resolving.len() > b.cx.resolving.len() || (a.cx == b.cx && decreases_to!(b.yaml => a.yaml)))
}
pub proof fn lem_follow(y: Yaml, c: Ctx, fuel: nat)
    ensures match follow(y, c, fuel) { Some((z, e)) => e.tab == c.tab && (e.resolving.len() > c.resolving.len() || (z == y && e == c)), None => true }
    decreases fuel
{
    match y {
        Yaml::Anchor(k) => if !(fuel == 0 || c.resolving.contains(k@) || !c.tab.contains_key(k@)) {
            lem_follow(c.tab[k@], Ctx { tab: c.tab, resolving: c.resolving.push(k@) }, (fuel - 1) as nat);
        },
        _ => {}
    }
}
pub proof fn lem_elem_smaller(d: Seq<ArrayData>, i: int)
    requires 0 <= i < elem_values(d).len()
    ensures decreases_to!(d => elem_values(d)[i])
    decreases d.len()
{
    if i < elem_values(d.drop_last()).len() { lem_elem_smaller(d.drop_last(), i); assert(d.drop_last() == d.subrange(0, d.len() - 1)); }
    else { assert(d[d.len() - 1] == d.last()); }
}
pub proof fn lem_entry_smaller(d: Seq<HashData>, i: int)
    requires 0 <= i < entry_values(d).len()
    ensures decreases_to!(d => entry_values(d)[i].1)
    decreases d.len()
{
    if i < entry_values(d.drop_last()).len() { lem_entry_smaller(d.drop_last(), i); assert(d.drop_last() == d.subrange(0, d.len() - 1)); }
    else { assert(d[d.len() - 1] == d.last()); }
}
pub proof fn lem_descends_seq(d: De, i: int)
    requires seq_event(d) is Some, 0 <= i < seq_event(d)->0->Seq_0.len()
    ensures smaller(De { yaml: seq_event(d)->0->Seq_0[i], cx: seq_event(d)->0->Seq_1 }, d)
{
    lem_follow(d.yaml, d.cx, d.cx.tab.dom().len() + 1);
    let z = resolved(d)->0; match z.0 { Yaml::Array(v) => { lem_elem_smaller(v@, i); } Yaml::InlineArray(v) => { assert(v@[i] == v[i]); } _ => {} }
}
pub proof fn lem_descends_map(d: De, i: int)
    requires map_event(d) is Some, 0 <= i < map_event(d)->0->Map_0.len()
    ensures smaller(De { yaml: map_event(d)->0->Map_0[i].1, cx: map_event(d)->0->Map_1 }, d)
{
    lem_follow(d.yaml, d.cx, d.cx.tab.dom().len() + 1);
    let z = resolved(d)->0; match z.0 { Yaml::Hash(v) => { lem_entry_smaller(v@, i); } Yaml::InlineHash(v) => { assert(v@[i] == v[i]); } _ => {} }
}
pub proof fn lem_first_yaml(d: Seq<DocumentData>, i: int)
    requires 0 <= i < d.len(), first_yaml(d.take(i)) is None
    ensures match d[i] { DocumentData::Yaml(y) => first_yaml(d) == Some(y), _ => true }
    decreases d.len()
{
    assert(d.take(d.len() as int) =~= d);
    if i < d.len() - 1 { assert(d.drop_last().take(i) =~= d.take(i)); lem_first_yaml(d.drop_last(), i); }
    else { assert(d.drop_last() =~= d.take(i)); }
}
