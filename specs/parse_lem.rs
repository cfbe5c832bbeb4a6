// the conversions `.map(X::Y)` the parser uses, proved
pub fn m_each_HashData_Comment(v: Vec<String>) -> (r: Vec<HashData>) ensures r@ == hcomments(v@) {
    let mut out: Vec<HashData> = Vec::new();
    for x in it: v
        invariant out@ =~= hcomments(v@.take(it.index@))
    { out.push(HashData::Comment(x)); }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    out
}
pub fn m_each_ArrayData_Comment(v: Vec<String>) -> (r: Vec<ArrayData>) ensures r@ == acomments(v@) {
    let mut out: Vec<ArrayData> = Vec::new();
    for x in it: v
        invariant out@ =~= acomments(v@.take(it.index@))
    { out.push(ArrayData::Comment(x)); }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    out
}
pub fn m_each_DocumentData_Comment(v: Vec<String>) -> (r: Vec<DocumentData>) ensures r@ == dcomments(v@) {
    let mut out: Vec<DocumentData> = Vec::new();
    for x in it: v
        invariant out@ =~= dcomments(v@.take(it.index@))
    { out.push(DocumentData::Comment(x)); }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    out
}


// --- h: a list of nodes, of the nodes' lists ---
pub proof fn l_h_small(k: Seq<Tree>)
    ensures
        k.len() == 0 ==> hdata_all(k) == Seq::<HashData>::empty(),
        k.len() == 1 ==> hdata_all(k) == hdata_of(k[0]),
        k.len() == 2 ==> hdata_all(k) == hdata_of(k[0]) + hdata_of(k[1]),
        k.len() == 3 ==> hdata_all(k) == hdata_of(k[0]) + hdata_of(k[1]) + hdata_of(k[2]),
    decreases k.len()
{
    if 0 < k.len() <= 3 {
        l_h_small(k.drop_last());
        assert(hdata_all(k) == hdata_all(k.drop_last()) + hdata_of(k.last()));
        assert(hdata_all(k) =~= hdata_all(k.drop_last()) + hdata_of(k.last()));
        if k.len() == 1 { assert(hdata_all(k) =~= hdata_of(k[0])); }
    }
}
pub proof fn l_h_flat(e: Seq<Vec<HashData>>, k: Seq<Tree>, s: int)
    requires 0 <= s, s + e.len() == k.len(), forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i])@ == hdata_of(k[s + i])
    ensures hdata_all(k) == hdata_all(k.take(s)) + flat(e)
    decreases e.len()
{
    if e.len() == 0 {
        assert(k.take(s) =~= k);
        assert(hdata_all(k) =~= hdata_all(k.take(s)) + flat(e));
    } else {
        assert forall|i: int| 0 <= i < e.drop_last().len() implies (#[trigger] e.drop_last()[i])@ == hdata_of(k.drop_last()[s + i]) by { assert(e.drop_last()[i] == e[i]); }
        l_h_flat(e.drop_last(), k.drop_last(), s);
        assert(k.drop_last().take(s) =~= k.take(s));
        assert(e[e.len() - 1]@ == hdata_of(k[s + e.len() - 1]));
        assert(hdata_all(k) =~= hdata_all(k.take(s)) + flat(e));
    }
}
pub open spec fn h_list(e: Seq<Vec<HashData>>, k: Seq<Tree>, s: int) -> bool { forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i])@ == hdata_of(k[s + i]) }
/// two nodes, a list of nodes and perhaps a last one
pub broadcast proof fn l_h_shape(e: Seq<Vec<HashData>>, k: Seq<Tree>)
    ensures
        #![trigger flat(e), hdata_all(k)]
        k.len() == e.len() + 2 && h_list(e, k, 2) ==> hdata_all(k) == hdata_of(k[0]) + hdata_of(k[1]) + flat(e),
        k.len() == e.len() + 3 && h_list(e, k, 2) ==> hdata_all(k) == hdata_of(k[0]) + hdata_of(k[1]) + flat(e) + hdata_of(k.last()),
{
    if k.len() == e.len() + 2 && h_list(e, k, 2) {
        l_h_flat(e, k, 2);
        l_h_small(k.take(2));
    }
    if k.len() == e.len() + 3 && h_list(e, k, 2) {
        let d = k.drop_last();
        assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i])@ == hdata_of(d[2 + i]) by { assert(d[2 + i] == k[2 + i]); }
        l_h_flat(e, d, 2);
        l_h_small(d.take(2));
    }
}
pub broadcast proof fn l_h_short(k: Seq<Tree>)
    requires k.len() <= 3
    ensures
        #![trigger hdata_all(k)]
        k.len() == 0 ==> hdata_all(k) == Seq::<HashData>::empty(),
        k.len() == 1 ==> hdata_all(k) == hdata_of(k[0]),
        k.len() == 2 ==> hdata_all(k) == hdata_of(k[0]) + hdata_of(k[1]),
        k.len() == 3 ==> hdata_all(k) == hdata_of(k[0]) + hdata_of(k[1]) + hdata_of(k[2]),
{ l_h_small(k); }

// --- a: a list of nodes, of the nodes' lists ---
pub proof fn l_a_small(k: Seq<Tree>)
    ensures
        k.len() == 0 ==> adata_all(k) == Seq::<ArrayData>::empty(),
        k.len() == 1 ==> adata_all(k) == adata_of(k[0]),
        k.len() == 2 ==> adata_all(k) == adata_of(k[0]) + adata_of(k[1]),
        k.len() == 3 ==> adata_all(k) == adata_of(k[0]) + adata_of(k[1]) + adata_of(k[2]),
    decreases k.len()
{
    if 0 < k.len() <= 3 {
        l_a_small(k.drop_last());
        assert(adata_all(k) == adata_all(k.drop_last()) + adata_of(k.last()));
        assert(adata_all(k) =~= adata_all(k.drop_last()) + adata_of(k.last()));
        if k.len() == 1 { assert(adata_all(k) =~= adata_of(k[0])); }
    }
}
pub proof fn l_a_flat(e: Seq<Vec<ArrayData>>, k: Seq<Tree>, s: int)
    requires 0 <= s, s + e.len() == k.len(), forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i])@ == adata_of(k[s + i])
    ensures adata_all(k) == adata_all(k.take(s)) + flat(e)
    decreases e.len()
{
    if e.len() == 0 {
        assert(k.take(s) =~= k);
        assert(adata_all(k) =~= adata_all(k.take(s)) + flat(e));
    } else {
        assert forall|i: int| 0 <= i < e.drop_last().len() implies (#[trigger] e.drop_last()[i])@ == adata_of(k.drop_last()[s + i]) by { assert(e.drop_last()[i] == e[i]); }
        l_a_flat(e.drop_last(), k.drop_last(), s);
        assert(k.drop_last().take(s) =~= k.take(s));
        assert(e[e.len() - 1]@ == adata_of(k[s + e.len() - 1]));
        assert(adata_all(k) =~= adata_all(k.take(s)) + flat(e));
    }
}
pub open spec fn a_list(e: Seq<Vec<ArrayData>>, k: Seq<Tree>, s: int) -> bool { forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i])@ == adata_of(k[s + i]) }
/// two nodes, a list of nodes and perhaps a last one
pub broadcast proof fn l_a_shape(e: Seq<Vec<ArrayData>>, k: Seq<Tree>)
    ensures
        #![trigger flat(e), adata_all(k)]
        k.len() == e.len() + 2 && a_list(e, k, 2) ==> adata_all(k) == adata_of(k[0]) + adata_of(k[1]) + flat(e),
        k.len() == e.len() + 3 && a_list(e, k, 2) ==> adata_all(k) == adata_of(k[0]) + adata_of(k[1]) + flat(e) + adata_of(k.last()),
{
    if k.len() == e.len() + 2 && a_list(e, k, 2) {
        l_a_flat(e, k, 2);
        l_a_small(k.take(2));
    }
    if k.len() == e.len() + 3 && a_list(e, k, 2) {
        let d = k.drop_last();
        assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i])@ == adata_of(d[2 + i]) by { assert(d[2 + i] == k[2 + i]); }
        l_a_flat(e, d, 2);
        l_a_small(d.take(2));
    }
}
pub broadcast proof fn l_a_short(k: Seq<Tree>)
    requires k.len() <= 3
    ensures
        #![trigger adata_all(k)]
        k.len() == 0 ==> adata_all(k) == Seq::<ArrayData>::empty(),
        k.len() == 1 ==> adata_all(k) == adata_of(k[0]),
        k.len() == 2 ==> adata_all(k) == adata_of(k[0]) + adata_of(k[1]),
        k.len() == 3 ==> adata_all(k) == adata_of(k[0]) + adata_of(k[1]) + adata_of(k[2]),
{ l_a_small(k); }

// --- l: a list of nodes, of the nodes' lists ---
pub proof fn l_l_small(k: Seq<Tree>)
    ensures
        k.len() == 0 ==> lines_all(k) == Seq::<String>::empty(),
        k.len() == 1 ==> lines_all(k) == lines_of(k[0]),
        k.len() == 2 ==> lines_all(k) == lines_of(k[0]) + lines_of(k[1]),
        k.len() == 3 ==> lines_all(k) == lines_of(k[0]) + lines_of(k[1]) + lines_of(k[2]),
    decreases k.len()
{
    if 0 < k.len() <= 3 {
        l_l_small(k.drop_last());
        assert(lines_all(k) == lines_all(k.drop_last()) + lines_of(k.last()));
        assert(lines_all(k) =~= lines_all(k.drop_last()) + lines_of(k.last()));
        if k.len() == 1 { assert(lines_all(k) =~= lines_of(k[0])); }
    }
}
pub proof fn l_l_flat(e: Seq<Vec<String>>, k: Seq<Tree>, s: int)
    requires 0 <= s, s + e.len() == k.len(), forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i])@ == lines_of(k[s + i])
    ensures lines_all(k) == lines_all(k.take(s)) + flat(e)
    decreases e.len()
{
    if e.len() == 0 {
        assert(k.take(s) =~= k);
        assert(lines_all(k) =~= lines_all(k.take(s)) + flat(e));
    } else {
        assert forall|i: int| 0 <= i < e.drop_last().len() implies (#[trigger] e.drop_last()[i])@ == lines_of(k.drop_last()[s + i]) by { assert(e.drop_last()[i] == e[i]); }
        l_l_flat(e.drop_last(), k.drop_last(), s);
        assert(k.drop_last().take(s) =~= k.take(s));
        assert(e[e.len() - 1]@ == lines_of(k[s + e.len() - 1]));
        assert(lines_all(k) =~= lines_all(k.take(s)) + flat(e));
    }
}
pub open spec fn l_list(e: Seq<Vec<String>>, k: Seq<Tree>, s: int) -> bool { forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i])@ == lines_of(k[s + i]) }
/// two nodes, a list of nodes and perhaps a last one
pub broadcast proof fn l_l_shape(e: Seq<Vec<String>>, k: Seq<Tree>)
    ensures
        #![trigger flat(e), lines_all(k)]
        k.len() == e.len() + 2 && l_list(e, k, 2) ==> lines_all(k) == lines_of(k[0]) + lines_of(k[1]) + flat(e),
        k.len() == e.len() + 3 && l_list(e, k, 2) ==> lines_all(k) == lines_of(k[0]) + lines_of(k[1]) + flat(e) + lines_of(k.last()),
{
    if k.len() == e.len() + 2 && l_list(e, k, 2) {
        l_l_flat(e, k, 2);
        l_l_small(k.take(2));
    }
    if k.len() == e.len() + 3 && l_list(e, k, 2) {
        let d = k.drop_last();
        assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i])@ == lines_of(d[2 + i]) by { assert(d[2 + i] == k[2 + i]); }
        l_l_flat(e, d, 2);
        l_l_small(d.take(2));
    }
}
pub broadcast proof fn l_l_short(k: Seq<Tree>)
    requires k.len() <= 3
    ensures
        #![trigger lines_all(k)]
        k.len() == 0 ==> lines_all(k) == Seq::<String>::empty(),
        k.len() == 1 ==> lines_all(k) == lines_of(k[0]),
        k.len() == 2 ==> lines_all(k) == lines_of(k[0]) + lines_of(k[1]),
        k.len() == 3 ==> lines_all(k) == lines_of(k[0]) + lines_of(k[1]) + lines_of(k[2]),
{ l_l_small(k); }

pub broadcast proof fn l_line(t: Tree)
    ensures
        #![trigger lines_of(t)]
        t.rule == Rule::block_string ==> lines_of(t) == seq![str_of(t.text)],
        !(t.rule is block_string || t.rule is block_empty_lines || t.rule is block_leading_lines || t.rule is block_short_lines || t.rule is string_multiline_trailing) ==> lines_of(t) == lines_all(t.kids),
{}
pub broadcast proof fn l_dash(t: Tree)
    ensures
        #![trigger adata_of(t)]
        t.rule == Rule::block_array_element && t.kids.len() > 0 ==> adata_of(t) == seq![ArrayData::Element(aliased_of(t.kids[0]))],
        !(t.rule is commentnls || t.rule is comment || t.rule is block_array_element) ==> adata_of(t) == adata_all(t.kids),
{}
pub broadcast proof fn l_entry(t: Tree)
    ensures
        #![trigger hdata_of(t)]
        !(t.rule is commentnls || t.rule is comment || t.rule is hash_element) ==> hdata_of(t) == hdata_all(t.kids),
{}
pub broadcast group list_lemmas { l_added, l_column, l_prefix, l_vr, l_nested, l_line, l_dash, l_entry, l_h_shape, l_h_short, l_a_shape, l_a_short, l_l_shape, l_l_short }

// --- extensional equality of the lists inside a value ---
pub proof fn l_yamls_all(v: Seq<Yaml>, k: Seq<Tree>)
    requires v.len() == k.len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] v[i] == yaml_of(k[i])
    ensures v == yamls_all(k)
    decreases k.len()
{
    if k.len() > 0 {
        assert forall|i: int| 0 <= i < k.drop_last().len() implies #[trigger] v.drop_last()[i] == yaml_of(k.drop_last()[i]) by { assert(v[i] == yaml_of(k[i])); }
        l_yamls_all(v.drop_last(), k.drop_last());
        assert(v[v.len() - 1] == yaml_of(k.last()));
        assert(v =~= v.drop_last().push(v.last()));
    } else {
        assert(v =~= Seq::<Yaml>::empty());
    }
}
pub proof fn l_pairs_all(v: Seq<(String, Yaml)>, k: Seq<Tree>)
    requires v.len() == k.len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] v[i] == pair_of(k[i])
    ensures v == pairs_all(k)
    decreases k.len()
{
    if k.len() > 0 {
        assert forall|i: int| 0 <= i < k.drop_last().len() implies #[trigger] v.drop_last()[i] == pair_of(k.drop_last()[i]) by { assert(v[i] == pair_of(k[i])); }
        l_pairs_all(v.drop_last(), k.drop_last());
        assert(v[v.len() - 1] == pair_of(k.last()));
        assert(v =~= v.drop_last().push(v.last()));
    } else {
        assert(v =~= Seq::<(String, Yaml)>::empty());
    }
}
pub proof fn l_rows_all(v: Seq<(Seq<String>, Row)>, k: Seq<Tree>)
    requires v.len() == k.len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] v[i] == comments_row_of(k[i])
    ensures v == rows_all(k)
    decreases k.len()
{
    if k.len() > 0 {
        assert forall|i: int| 0 <= i < k.drop_last().len() implies #[trigger] v.drop_last()[i] == comments_row_of(k.drop_last()[i]) by { assert(v[i] == comments_row_of(k[i])); }
        l_rows_all(v.drop_last(), k.drop_last());
        assert(v[v.len() - 1] == comments_row_of(k.last()));
        assert(v =~= v.drop_last().push(v.last()));
    } else {
        assert(v =~= Seq::<(Seq<String>, Row)>::empty());
    }
}
pub open spec fn each_yaml(v: Seq<Yaml>, k: Seq<Tree>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < k.len() ==> #[trigger] v[i] == yaml_of(k[i]) }
pub open spec fn each_pair(v: Seq<(String, Yaml)>, k: Seq<Tree>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < k.len() ==> #[trigger] v[i] == pair_of(k[i]) }
pub proof fn l_value(v: Yaml, t: Tree)
    ensures
        v is Hash && v->Hash_0@ =~= hdata_all(t.kids) ==> v->Hash_0 == vec_of(hdata_all(t.kids)),
        v is Array && v->Array_0@ =~= adata_all(t.kids) ==> v->Array_0 == vec_of(adata_all(t.kids)),
        v is InlineArray && t.rule == Rule::inline_array && each_yaml(v->InlineArray_0@, t.kids) ==> v == yaml_of(t),
        v is InlineHash && t.rule == Rule::inline_hash && each_pair(v->InlineHash_0@, t.kids) ==> v == yaml_of(t),
{
    if v is Hash { l_vec_of(v->Hash_0); }
    if v is Array { l_vec_of(v->Array_0); }
    if v is InlineArray && t.rule == Rule::inline_array && each_yaml(v->InlineArray_0@, t.kids) {
        l_vec_of(v->InlineArray_0);
        l_yamls_all(v->InlineArray_0@, t.kids);
    }
    if v is InlineHash && t.rule == Rule::inline_hash && each_pair(v->InlineHash_0@, t.kids) {
        l_vec_of(v->InlineHash_0);
        l_pairs_all(v->InlineHash_0@, t.kids);
    }
}
pub proof fn l_document(v: Document, t: Tree)
    requires t.kids.len() >= 4
    ensures v.leading_comments@ =~= comments_of(t.kids[0]) && v.items@ =~= dcomments(comments_of(t.kids[1])) + seq![DocumentData::Yaml(yaml_of(t.kids[2]))]
            + dcomments(Seq::new((t.kids.len() - 4) as nat, |i: int| comment_of(t.kids[3 + i]))) ==> v == document_of(t)
{ l_vec_of(v.leading_comments); l_vec_of(v.items); }

// --- sequences in sequences ---
pub proof fn l_rows(v: Seq<(Vec<String>, ArrayRow)>, k: int)
    requires 0 <= k < v.len()
    ensures rows_view(v.take(k + 1)).last() == (v[k].0@, row_view(v[k].1)), rows_view(v.take(k + 1)).drop_last() == rows_view(v.take(k)),
{ assert(rows_view(v.take(k + 1)).drop_last() =~= rows_view(v.take(k))); }

// --- texts ---
/// as many characters as line breaks
pub broadcast proof fn l_breaks(s: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires a == seq!['\r', '\n'], b == seq!['\n'], forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == '\n' || s[i] == '\r'
    ensures #[trigger] sp_replace(s, a, b).len() == breaks(s)
    decreases s.len()
{
    if s.len() >= 2 {
        if s[0] == '\r' && s[1] == '\n' {
            assert(s.take(2) =~= a);
            l_breaks(s.skip(2), a, b);
        } else {
            assert(s.take(2)[0] == s[0] && s.take(2)[1] == s[1]);
            l_breaks(s.skip(1), a, b);
        }
    } else if s.len() == 1 {
        l_breaks(s.skip(1), a, b);
    }
}
pub open spec fn tail_clear(s: Seq<char>, n: nat) -> bool { n <= s.len() && forall|i: int| s.len() - n <= i < s.len() ==> (#[trigger] s[i] != '\n' && s[i] != '\r') }
pub broadcast proof fn l_column(s: Seq<char>, n: nat)
    requires #[trigger] tail_clear(s, n)
    ensures n == s.len() || s[s.len() - 1 - n] == '\n' || s[s.len() - 1 - n] == '\r' ==> column(s) == n
    decreases s.len()
{
    if n > 0 {
        assert(s[s.len() - 1] != '\n' && s[s.len() - 1] != '\r');
        let d = s.drop_last();
        assert forall|i: int| d.len() - (n - 1) <= i < d.len() implies (#[trigger] d[i] != '\n' && d[i] != '\r') by { assert(s[i] == d[i]); }
        l_column(d, (n - 1) as nat);
    }
}
pub broadcast proof fn l_prefix(a: Seq<char>, b: Seq<char>)
    ensures
        #![trigger a + b, bytes(a)]
        boundary(a + b, bytes(a)), (a + b).take(a.len() as int) == a, bytes((a + b).take(a.len() as int)) == bytes(a),
{ assert((a + b).take(a.len() as int) =~= a); }
pub broadcast proof fn l_vr(v: ArrayRow, t: Tree)
    ensures
        #![trigger row_view(v), row_of(t)]
        ok_alternative_array_row(v, t) ==> row_view(v) == row_of(t),
{}
pub broadcast proof fn l_added(st: Seq<OpenArray>, d: Seq<ArrayData>)
    ensures
        #![trigger added(st, d)]
        d.len() == 1 ==> d == seq![d[0]],
{ if d.len() == 1 { assert(d =~= seq![d[0]]); } }
pub open spec fn each_row(v: Seq<(Vec<String>, ArrayRow)>, k: Seq<Tree>) -> bool {
    v.len() == k.len() - 2 && forall|i: int| 0 <= i < v.len() ==> ok_alternative_array_data(#[trigger] v[i], k[1 + i])
}
pub broadcast proof fn l_nested(v: Seq<(Vec<String>, ArrayRow)>, t: Tree)
    ensures
        #![trigger rows_view(v), yaml_of(t)]
        each_row(v, t.kids) ==> rows_view(v) == rows_all(t.kids.subrange(1, t.kids.len() - 1)),
{
    if each_row(v, t.kids) {
        let k = t.kids.subrange(1, t.kids.len() - 1);
        let r = rows_view(v);
        assert forall|i: int| 0 <= i < k.len() implies #[trigger] r[i] == comments_row_of(k[i]) by {
            assert(ok_alternative_array_data(v[i], t.kids[1 + i]));
            assert(r[i].0 =~= comments_row_of(k[i]).0);
            assert(r[i].1 == comments_row_of(k[i]).1);
        }
        l_rows_all(r, k);
    }
}
pub proof fn l_skip<T>(s: Seq<T>, k: int)
    requires 0 <= k < s.len()
    ensures s.skip(k).len() > 0, s.skip(k)[0] == s[k], s.skip(k).skip(1) == s.skip(k + 1)
{ assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }

pub proof fn l_strip_range(s: Seq<char>, j: int, n: int)
    requires 0 <= j <= s.len()
    ensures j <= strip_from(s, j, n) <= s.len()
    decreases s.len() - j
{ if !(j >= s.len() || bytes(s.take(j)) >= n || !is_ws(s[j])) { l_strip_range(s, j + 1, n); } }
pub proof fn l_bytes_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures bytes(s.take(i)) <= bytes(s.take(j)), i < j ==> bytes(s.take(i)) < bytes(s.take(j))
    decreases j - i
{
    if i < j {
        l_bytes_mono(s, i, j - 1);
        assert(s.take(j).drop_last() =~= s.take(j - 1));
    }
}
pub proof fn l_stripped(s: Seq<char>, n: int)
    ensures
        0 <= strip_from(s, 0, n) <= s.len(), bytes(s.take(strip_from(s, 0, n))) >= 0,
        forall|k: int| 0 <= k <= s.len() && #[trigger] bytes(s.take(k)) == bytes(s.take(strip_from(s, 0, n))) ==> k == strip_from(s, 0, n),
{
    l_strip_range(s, 0, n);
    let m = strip_from(s, 0, n);
    assert forall|k: int| 0 <= k <= s.len() && #[trigger] bytes(s.take(k)) == bytes(s.take(m)) implies k == m by {
        if k < m { l_bytes_mono(s, k, m); } else { l_bytes_mono(s, m, k); }
    }
}
