pub broadcast proof fn l_kpos(d: Seq<HashData>, k: Seq<char>)
    ensures
        -1 <= #[trigger] kpos(d, k) < d.len(),
        kpos(d, k) >= 0 ==> is_key(d[kpos(d, k)], k),
    decreases d.len()
{ if d.len() > 0 { l_kpos(d.drop_last(), k); } }
/// the first entry with the key stays the first when more entries follow
pub broadcast proof fn l_kpos_take(d: Seq<HashData>, k: Seq<char>, i: int)
    requires 0 <= i <= d.len()
    ensures
        #[trigger] kpos(d.take(i), k) >= 0 ==> kpos(d, k) == kpos(d.take(i), k),
    decreases d.len() - i
{
    if i < d.len() {
        assert(d.take(i + 1).drop_last() =~= d.take(i));
        l_kpos_take(d, k, i + 1);
    } else { assert(d.take(i) =~= d); }
}
pub broadcast proof fn l_kpos_next(d: Seq<HashData>, k: Seq<char>, i: int)
    requires 0 <= i < d.len()
    ensures
        #[trigger] kpos(d.take(i + 1), k) == (if kpos(d.take(i), k) >= 0 { kpos(d.take(i), k) } else if is_key(d[i], k) { i } else { -1 }),
{
    assert(d.take(i + 1).drop_last() =~= d.take(i));
    assert(d.take(i + 1).last() == d[i]);
}
pub proof fn lem_idx_step<E: EditRel>(e: E, idx: Seq<usize>, i: int, cs: Seq<Condition>, q: YamlPath, a: Seq<ArrayData>, m: Seq<ArrayData>, b: Seq<ArrayData>, k0: int, k: int)
    requires
        0 <= i < idx.len(), a.len() == m.len(),
        ed_idx(e, idx.take(i), cs, q, a, m, k0),
        step_frame(m, b, idx[i] as int, k),
        idx[i] < m.len() ==> ed_el(e, cs, q, m[idx[i] as int], b[idx[i] as int], k),
    ensures ed_idx(e, idx.take(i + 1), cs, q, a, b, k0 + k)
{
    assert(idx.take(i + 1).drop_last() =~= idx.take(i));
    assert(idx.take(i + 1).last() == idx[i]);
}
pub proof fn lem_all_step<E: EditRel>(e: E, cs: Seq<Condition>, q: YamlPath, a: Seq<ArrayData>, b: Seq<ArrayData>, i: int, k0: int, k: int)
    requires
        0 <= i < a.len(), a.len() == b.len(),
        ed_all(e, cs, q, a.take(i), b.take(i), k0),
        ed_el(e, cs, q, a[i], b[i], k),
    ensures ed_all(e, cs, q, a.take(i + 1), b.take(i + 1), k0 + k)
{
    assert(a.take(i + 1).drop_last() =~= a.take(i));
    assert(b.take(i + 1).drop_last() =~= b.take(i));
    assert(pk(k));
    assert(a.take(i + 1).last() == a[i] && b.take(i + 1).last() == b[i]);
}
pub broadcast proof fn l_pick_next(a: Seq<ArrayData>, b: Seq<ArrayData>, i: int)
    requires 0 <= i < a.len(), a.len() == b.len()
    ensures #[trigger] pick(a.take(i + 1), b.take(i + 1)) == (if node(a[i]) is Some { pick(a.take(i), b.take(i)).push(b[i]) } else { pick(a.take(i), b.take(i)) })
{
    assert(a.take(i + 1).drop_last() =~= a.take(i));
    assert(b.take(i + 1).drop_last() =~= b.take(i));
    assert(a.take(i + 1).last() == a[i] && b.take(i + 1).last() == b[i]);
}
pub broadcast group edit_lemmas { l_kpos, l_kpos_take, l_kpos_next, l_pick_next }
pub proof fn lem_doc_step<E: EditRel>(e: E, q: YamlPath, a: Seq<DocumentData>, b: Seq<DocumentData>, i: int, k0: int, k: int)
    requires
        0 <= i < a.len(), a.len() == b.len(),
        ed_doc(e, q, a.take(i), b.take(i), k0),
        ed_dd(e, q, a[i], b[i], k),
    ensures ed_doc(e, q, a.take(i + 1), b.take(i + 1), k0 + k)
{
    assert(a.take(i + 1).drop_last() =~= a.take(i));
    assert(b.take(i + 1).drop_last() =~= b.take(i));
    assert(pk(k));
    assert(a.take(i + 1).last() == a[i] && b.take(i + 1).last() == b[i]);
}
/// a relation at the entries can be weakened
pub proof fn lem_mono<E: EditRel, S: EditRel>(e: E, s: S, p: YamlPath, a: Yaml, b: Yaml, n: int)
    requires implies_rel(e, s), ed(e, p, a, b, n)
    ensures ed(s, p, a, b, n)
    decreases p, 2nat, 0nat
{
    match p {
        YamlPath::Key(k, cs, o) => match (a, b) {
            (Yaml::Hash(d), Yaml::Hash(f)) => if fits(a, cs@) {
                let i = kpos(d@, k@);
                l_kpos(d@, k@);
                assert(i < d.len());
                match o {
                    Some(q) => { if i >= 0 { lem_mono(e, s, *q, value_of(d@[i]), value_of(f@[i]), n); } }
                    None => { assert(e.holds(d@, k@, opt_pos(i), f@, n)); }
                }
            },
            _ => {}
        },
        YamlPath::Indexes(idx, cs, Some(q)) => match (a, b) {
            (Yaml::InlineArray(d), Yaml::InlineArray(f)) => lem_mono_idx(e, s, idx@, cs@, *q, lift(d@), lift(f@), n),
            (Yaml::Array(d), Yaml::Array(f)) => lem_mono_idx(e, s, idx@, cs@, *q, pick(d@, d@), pick(d@, f@), n),
            _ => {}
        },
        YamlPath::AllIndexes(cs, Some(q)) => match (a, b) {
            (Yaml::InlineArray(d), Yaml::InlineArray(f)) => lem_mono_all(e, s, cs@, *q, lift(d@), lift(f@), n),
            (Yaml::Array(d), Yaml::Array(f)) => lem_mono_all(e, s, cs@, *q, d@, f@, n),
            _ => {}
        },
        _ => {}
    }
}
pub proof fn lem_mono_el<E: EditRel, S: EditRel>(e: E, s: S, cs: Seq<Condition>, q: YamlPath, a: ArrayData, b: ArrayData, n: int)
    requires implies_rel(e, s), ed_el(e, cs, q, a, b, n)
    ensures ed_el(s, cs, q, a, b, n)
    decreases q, 3nat, 0nat
{
    if node(a) is Some && fits(node(a)->0, cs) { lem_mono(e, s, q, node(a)->0, node(b)->0, n); }
}
pub proof fn lem_mono_all<E: EditRel, S: EditRel>(e: E, s: S, cs: Seq<Condition>, q: YamlPath, a: Seq<ArrayData>, b: Seq<ArrayData>, n: int)
    requires implies_rel(e, s), ed_all(e, cs, q, a, b, n)
    ensures ed_all(s, cs, q, a, b, n)
    decreases q, 4nat, a.len()
{
    if a.len() > 0 {
        let k = choose|k: int| #[trigger] pk(k) && ed_el(e, cs, q, a.last(), b.last(), k) && ed_all(e, cs, q, a.drop_last(), b.drop_last(), n - k);
        lem_mono_el(e, s, cs, q, a.last(), b.last(), k);
        lem_mono_all(e, s, cs, q, a.drop_last(), b.drop_last(), n - k);
    }
}
pub proof fn lem_mono_idx<E: EditRel, S: EditRel>(e: E, s: S, idx: Seq<usize>, cs: Seq<Condition>, q: YamlPath, a: Seq<ArrayData>, b: Seq<ArrayData>, n: int)
    requires implies_rel(e, s), ed_idx(e, idx, cs, q, a, b, n)
    ensures ed_idx(s, idx, cs, q, a, b, n)
    decreases q, 4nat, idx.len()
{
    if idx.len() > 0 {
        let (m, k) = choose|m: Seq<ArrayData>, k: int| ed_idx(e, idx.drop_last(), cs, q, a, m, n - k) && #[trigger] step_frame(m, b, idx.last() as int, k)
            && (idx.last() < m.len() ==> ed_el(e, cs, q, m[idx.last() as int], b[idx.last() as int], k));
        lem_mono_idx(e, s, idx.drop_last(), cs, q, a, m, n - k);
        if idx.last() < m.len() { lem_mono_el(e, s, cs, q, m[idx.last() as int], b[idx.last() as int], k); }
        assert(step_frame(m, b, idx.last() as int, k));
    }
}
pub proof fn lem_mono_doc<E: EditRel, S: EditRel>(e: E, s: S, q: YamlPath, a: Seq<DocumentData>, b: Seq<DocumentData>, n: int)
    requires implies_rel(e, s), ed_doc(e, q, a, b, n)
    ensures ed_doc(s, q, a, b, n)
    decreases a.len()
{
    if a.len() > 0 {
        let k = choose|k: int| #[trigger] pk(k) && ed_dd(e, q, a.last(), b.last(), k) && ed_doc(e, q, a.drop_last(), b.drop_last(), n - k);
        match (a.last(), b.last()) { (DocumentData::Yaml(x), DocumentData::Yaml(y)) => lem_mono(e, s, q, x, y, k), _ => {} }
        lem_mono_doc(e, s, q, a.drop_last(), b.drop_last(), n - k);
    }
}
/// from what a closure promises to what happens at an entry
pub proof fn lem_of<F: Fn(&mut Vec<HashData>, String, Option<usize>) -> usize, S: EditRel>(f: F, s: S)
    requires
        forall|m: &mut Vec<HashData>, key: String, i: Option<usize>, r: usize| #[trigger] f.ensures((m, key, i), r)
            && (i is Some ==> i->0 < m@.len() && is_key(m@[i->0 as int], key@)) ==> s.holds(m@, key@, i, final(m)@, r as int),
    ensures implies_rel(OfEdit(f), s)
{
    assert forall|a: Seq<HashData>, k: Seq<char>, i: Option<usize>, b: Seq<HashData>, n: int|
        #[trigger] OfEdit(f).holds(a, k, i, b, n) && (i is Some ==> i->0 < a.len() && is_key(a[i->0 as int], k)) implies s.holds(a, k, i, b, n) by {
        assert(calls_to(f, a, k, i, b, n));
    }
}
pub proof fn lem_fh_doc_step<A: Additive, V: VisitRel<A>>(v: V, p: YamlPath, a: Seq<DocumentData>, b: Seq<DocumentData>, i: int, r0: A, x: A, r: A)
    requires
        0 <= i < a.len(), a.len() == b.len(), r0.is_sum(x, r),
        fh_doc(v, p, a.take(i), b.take(i), r0), fh_dd(v, p, a[i], b[i], x),
    ensures fh_doc(v, p, a.take(i + 1), b.take(i + 1), r)
{
    assert(a.take(i + 1).drop_last() =~= a.take(i));
    assert(b.take(i + 1).drop_last() =~= b.take(i));
    assert(a.take(i + 1).last() == a[i] && b.take(i + 1).last() == b[i]);
}
/// one more element, visited or not
pub proof fn lem_fh_all_step<A: Additive, V: VisitRel<A>>(v: V, cs: Seq<Condition>, o: Option<Box<YamlPath>>, a: Seq<ArrayData>, b: Seq<ArrayData>, i: int, r0: A, r: A)
    requires
        0 <= i < a.len(), a.len() == b.len(),
        fh_all(v, cs, o, a.take(i), b.take(i), r0),
        elem_fits(a[i], cs) ==> frame(a[i], b[i]) && exists|x: A| #[trigger] r0.is_sum(x, r) && fh_next(v, o, node(a[i])->0, node(b[i])->0, x),
        !elem_fits(a[i], cs) ==> b[i] == a[i] && r == r0,
    ensures fh_all(v, cs, o, a.take(i + 1), b.take(i + 1), r)
{
    assert(a.take(i + 1).drop_last() =~= a.take(i));
    assert(b.take(i + 1).drop_last() =~= b.take(i));
    assert(a.take(i + 1).last() == a[i] && b.take(i + 1).last() == b[i]);
}
pub proof fn lem_fh_idx_step<A: Additive, V: VisitRel<A>>(v: V, idx: Seq<usize>, i: int, cs: Seq<Condition>, o: Option<Box<YamlPath>>, a: Seq<ArrayData>, m: Seq<ArrayData>, b: Seq<ArrayData>, r0: A, r: A)
    requires
        0 <= i < idx.len(), a.len() == m.len(), m.len() == b.len(),
        fh_idx(v, idx.take(i), cs, o, a, m, r0),
        idx[i] < m.len() && elem_fits(m[idx[i] as int], cs) ==> frame(m[idx[i] as int], b[idx[i] as int]) && b == m.update(idx[i] as int, b[idx[i] as int])
            && exists|x: A| #[trigger] r0.is_sum(x, r) && fh_next(v, o, node(m[idx[i] as int])->0, node(b[idx[i] as int])->0, x),
        !(idx[i] < m.len() && elem_fits(m[idx[i] as int], cs)) ==> b == m && r == r0,
    ensures fh_idx(v, idx.take(i + 1), cs, o, a, b, r)
{
    assert(idx.take(i + 1).drop_last() =~= idx.take(i));
    assert(idx.take(i + 1).last() == idx[i]);
    let j = idx[i] as int;
    if j < m.len() && elem_fits(m[j], cs) {
        let x = choose|x: A| #[trigger] r0.is_sum(x, r) && fh_next(v, o, node(m[j])->0, node(b[j])->0, x);
        assert(idx_step(m, b, j, cs, r0, x, r));
    } else {
        assert(idx_step(m, b, j, cs, r0, r0, r));
    }
}
/// a relation at the visited fields and nodes can be weakened
pub proof fn lem_vmono<A: Additive, V: VisitRel<A>, W: VisitRel<A>>(v: V, w: W, p: YamlPath, a: Yaml, b: Yaml, r: A)
    requires implies_vis(v, w), fh(v, p, a, b, r)
    ensures fh(w, p, a, b, r)
    decreases p, 2nat, 0nat
{
    match p {
        YamlPath::Root(cs) => { if fits(a, cs@) { assert(v.on_node(a, b, r)); } }
        YamlPath::Key(k, cs, o) => match (a, b) {
            (Yaml::Hash(d), Yaml::Hash(f)) => {
                let i = kpos(d@, k@);
                if fits(a, cs@) && i >= 0 {
                    match o {
                        Some(q) => { lem_vmono(v, w, *q, value_of(d@[i]), value_of(f@[i]), r); }
                        None => { assert(v.on_field(d@[i]->Element_0, f@[i]->Element_0, r)); }
                    }
                }
            },
            _ => {}
        },
        YamlPath::Indexes(idx, cs, o) => match (a, b) {
            (Yaml::InlineArray(d), Yaml::InlineArray(f)) => lem_vmono_idx(v, w, idx@, cs@, o, lift(d@), lift(f@), r),
            (Yaml::Array(d), Yaml::Array(f)) => lem_vmono_idx(v, w, idx@, cs@, o, pick(d@, d@), pick(d@, f@), r),
            _ => {}
        },
        YamlPath::AllIndexes(cs, o) => match (a, b) {
            (Yaml::InlineArray(d), Yaml::InlineArray(f)) => lem_vmono_all(v, w, cs@, o, lift(d@), lift(f@), r),
            (Yaml::Array(d), Yaml::Array(f)) => lem_vmono_all(v, w, cs@, o, d@, f@, r),
            _ => {}
        },
    }
}
pub proof fn lem_vmono_next<A: Additive, V: VisitRel<A>, W: VisitRel<A>>(v: V, w: W, o: Option<Box<YamlPath>>, a: Yaml, b: Yaml, r: A)
    requires implies_vis(v, w), fh_next(v, o, a, b, r)
    ensures fh_next(w, o, a, b, r)
    decreases o, 1nat, 0nat
{
    match o { None => { assert(v.on_node(a, b, r)); } Some(q) => { lem_vmono(v, w, *q, a, b, r); } }
}
pub proof fn lem_vmono_all<A: Additive, V: VisitRel<A>, W: VisitRel<A>>(v: V, w: W, cs: Seq<Condition>, o: Option<Box<YamlPath>>, a: Seq<ArrayData>, b: Seq<ArrayData>, r: A)
    requires implies_vis(v, w), fh_all(v, cs, o, a, b, r)
    ensures fh_all(w, cs, o, a, b, r)
    decreases o, 4nat, a.len()
{
    if a.len() > 0 {
        if elem_fits(a.last(), cs) {
            let (r0, x) = choose|r0: A, x: A| #[trigger] r0.is_sum(x, r)
                && fh_next(v, o, node(a.last())->0, node(b.last())->0, x) && fh_all(v, cs, o, a.drop_last(), b.drop_last(), r0);
            lem_vmono_next(v, w, o, node(a.last())->0, node(b.last())->0, x);
            lem_vmono_all(v, w, cs, o, a.drop_last(), b.drop_last(), r0);
        } else { lem_vmono_all(v, w, cs, o, a.drop_last(), b.drop_last(), r); }
    }
}
pub proof fn lem_vmono_idx<A: Additive, V: VisitRel<A>, W: VisitRel<A>>(v: V, w: W, idx: Seq<usize>, cs: Seq<Condition>, o: Option<Box<YamlPath>>, a: Seq<ArrayData>, b: Seq<ArrayData>, r: A)
    requires implies_vis(v, w), fh_idx(v, idx, cs, o, a, b, r)
    ensures fh_idx(w, idx, cs, o, a, b, r)
    decreases o, 4nat, idx.len()
{
    if idx.len() > 0 {
        let j = idx.last() as int;
        let (m, r0, x) = choose|m: Seq<ArrayData>, r0: A, x: A| #[trigger] idx_step(m, b, idx.last() as int, cs, r0, x, r) && fh_idx(v, idx.drop_last(), cs, o, a, m, r0)
            && (idx.last() < m.len() && elem_fits(m[idx.last() as int], cs) ==>
                fh_next(v, o, node(m[idx.last() as int])->0, node(b[idx.last() as int])->0, x));
        lem_vmono_idx(v, w, idx.drop_last(), cs, o, a, m, r0);
        if j < m.len() && elem_fits(m[j], cs) { lem_vmono_next(v, w, o, node(m[j])->0, node(b[j])->0, x); }
        assert(idx_step(m, b, j, cs, r0, x, r));
    }
}
pub proof fn lem_vmono_ad<A: Additive, V: VisitRel<A>, W: VisitRel<A>>(v: V, w: W, p: YamlPath, a: ArrayData, b: ArrayData, r: A)
    requires implies_vis(v, w), fh_ad(v, p, a, b, r)
    ensures fh_ad(w, p, a, b, r)
{
    match (a, p) {
        (ArrayData::Element(_), YamlPath::Key(_, _, None)) => lem_vmono(v, w, p, node(a)->0, node(b)->0, r),
        (ArrayData::Element(_), YamlPath::AllIndexes(_, o)) => lem_vmono_next(v, w, o, node(a)->0, node(b)->0, r),
        (ArrayData::Element(_), YamlPath::Indexes(_, _, o)) => lem_vmono_next(v, w, o, node(a)->0, node(b)->0, r),
        _ => {}
    }
}
pub proof fn lem_vmono_he<A: Additive, V: VisitRel<A>, W: VisitRel<A>>(v: V, w: W, p: YamlPath, a: HashElement, b: HashElement, r: A)
    requires implies_vis(v, w), fh_he(v, p, a, b, r)
    ensures fh_he(w, p, a, b, r)
{
    match p {
        YamlPath::Root(_) => { assert(v.on_field(a, b, r)); }
        YamlPath::Key(k, _, None) => { if k@ == a.key@ { assert(v.on_field(a, b, r)); } }
        YamlPath::Key(_, _, Some(q)) => lem_vmono(v, w, *q, a.value.value, b.value.value, r),
        _ => {}
    }
}
pub proof fn lem_vmono_doc<A: Additive, V: VisitRel<A>, W: VisitRel<A>>(v: V, w: W, p: YamlPath, a: Seq<DocumentData>, b: Seq<DocumentData>, r: A)
    requires implies_vis(v, w), fh_doc(v, p, a, b, r)
    ensures fh_doc(w, p, a, b, r)
    decreases a.len()
{
    if a.len() > 0 {
        let (r0, x) = choose|r0: A, x: A| #[trigger] r0.is_sum(x, r) && fh_dd(v, p, a.last(), b.last(), x) && fh_doc(v, p, a.drop_last(), b.drop_last(), r0);
        match (a.last(), b.last()) { (DocumentData::Yaml(y), DocumentData::Yaml(z)) => lem_vmono(v, w, p, y, z, x), _ => {} }
        lem_vmono_doc(v, w, p, a.drop_last(), b.drop_last(), r0);
    }
}
/// from what the closures promise to what happens at a field or node
pub proof fn lem_ofv<A: Additive, F: Fn(&mut HashElement) -> A, R: Fn(&mut Yaml) -> A, W: VisitRel<A>>(f: F, r: R, w: W)
    requires
        forall|m: &mut HashElement, x: A| #[trigger] f.ensures((m,), x) ==> w.on_field(*m, *final(m), x),
        forall|m: &mut Yaml, x: A| #[trigger] r.ensures((m,), x) ==> w.on_node(*m, *final(m), x),
    ensures implies_vis(OfVisit(f, r), w)
{
    assert forall|a: HashElement, b: HashElement, x: A| #[trigger] OfVisit(f, r).on_field(a, b, x) implies w.on_field(a, b, x) by { assert(field_call(f, a, b, x)); }
    assert forall|a: Yaml, b: Yaml, x: A| #[trigger] OfVisit(f, r).on_node(a, b, x) implies w.on_node(a, b, x) by { assert(node_call(r, a, b, x)); }
}

// ---- finding values changes nothing and yields exactly what the path denotes -----------------
pub proof fn lem_lift_eq(a: Seq<Yaml>, b: Seq<Yaml>)
    requires lift(a) == lift(b)
    ensures a == b
{
    assert(lift(a).len() == a.len() && lift(b).len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(node(lift(a)[i]) == Some(a[i]) && node(lift(b)[i]) == Some(b[i])); }
    assert(a =~= b);
}
pub proof fn lem_pick_eq(a: Seq<ArrayData>, b: Seq<ArrayData>)
    requires same_comments(a, b), pick(a, b) == pick(a, a)
    ensures a == b
    decreases a.len()
{
    if a.len() > 0 {
        let (x, y) = (a.drop_last(), b.drop_last());
        assert(same_comments(x, y)) by {
            assert forall|j: int| 0 <= j < x.len() && node(#[trigger] x[j]) is None implies y[j] == x[j] by { assert(node(a[j]) is None); }
        }
        if node(a.last()) is Some {
            assert(pick(a, b).drop_last() =~= pick(x, y));
            assert(pick(a, a).drop_last() =~= pick(x, x));
            assert(pick(a, b).last() == b.last() && pick(a, a).last() == a.last());
        } else { assert(node(a[a.len() - 1]) is None); }
        lem_pick_eq(x, y);
        assert(a =~= x.push(a.last()) && b =~= y.push(b.last()));
    } else { assert(a =~= b); }
}
pub proof fn lem_found_none(idx: Seq<usize>, cs: Seq<Condition>, o: Option<Box<YamlPath>>, a: Seq<ArrayData>)
    requires a.len() == 0
    ensures found_idx(idx, cs, o, a) == Seq::<Yaml>::empty()
    decreases idx.len()
{
    if idx.len() > 0 { lem_found_none(idx.drop_last(), cs, o, a); assert(found_idx(idx, cs, o, a) =~= Seq::empty()); }
}
/// comments are never found
pub proof fn lem_found_pick(cs: Seq<Condition>, o: Option<Box<YamlPath>>, a: Seq<ArrayData>)
    ensures found_all(cs, o, a) == found_all(cs, o, pick(a, a))
    decreases a.len()
{
    if a.len() > 0 {
        lem_found_pick(cs, o, a.drop_last());
        let p = pick(a.drop_last(), a.drop_last());
        if node(a.last()) is Some { assert(p.push(a.last()).drop_last() =~= p); }
        else { assert(found_el(cs, o, a.last()) == Seq::<Yaml>::empty()); assert(found_all(cs, o, a) =~= found_all(cs, o, a.drop_last())); }
    }
}
pub proof fn lem_found(p: YamlPath, a: Yaml, b: Yaml, r: MyVec<Yaml>)
    requires fh(FindRel, p, a, b, r)
    ensures b == a, r.0@ == found(p, a)
    decreases p, 2nat, 0nat
{
    match p {
        YamlPath::Key(k, cs, o) => match (a, b) {
            (Yaml::Hash(d), Yaml::Hash(f)) => {
                let i = kpos(d@, k@);
                if fits(a, cs@) && i >= 0 {
                    l_kpos(d@, k@);
                    match o { Some(q) => { lem_found(*q, value_of(d@[i]), value_of(f@[i]), r); } None => {} }
                    assert(r.0@ =~= found_next(o, value_of(d@[i])));
                    assert(d@ =~= f@);
                    axiom_vec_ext(d, f);
                } else { assert(r.0@ =~= Seq::empty()); }
            },
            _ => { assert(r.0@ =~= Seq::empty()); }
        },
        YamlPath::Indexes(idx, cs, o) => match (a, b) {
            (Yaml::InlineArray(d), Yaml::InlineArray(f)) => { lem_found_idx(idx@, cs@, o, lift(d@), lift(f@), r); lem_lift_eq(d@, f@); axiom_vec_ext(d, f); }
            (Yaml::Array(d), Yaml::Array(f)) => { lem_found_idx(idx@, cs@, o, pick(d@, d@), pick(d@, f@), r); lem_pick_eq(d@, f@); axiom_vec_ext(d, f); }
            _ => { assert(r.0@ =~= Seq::empty()); lem_found_none(idx@, cs@, o, elements(a)); }
        },
        YamlPath::AllIndexes(cs, o) => match (a, b) {
            (Yaml::InlineArray(d), Yaml::InlineArray(f)) => { lem_found_all(cs@, o, lift(d@), lift(f@), r); lem_lift_eq(d@, f@); axiom_vec_ext(d, f); }
            (Yaml::Array(d), Yaml::Array(f)) => { lem_found_all(cs@, o, d@, f@, r); axiom_vec_ext(d, f); lem_found_pick(cs@, o, d@); }
            _ => { assert(r.0@ =~= found_all(cs@, o, elements(a))); }
        },
        YamlPath::Root(cs) => { if !fits(a, cs@) { assert(r.0@ =~= Seq::empty()); } }
    }
}
pub proof fn lem_found_next(o: Option<Box<YamlPath>>, a: Yaml, b: Yaml, r: MyVec<Yaml>)
    requires fh_next(FindRel, o, a, b, r)
    ensures b == a, r.0@ == found_next(o, a)
    decreases o, 1nat, 0nat
{
    match o { None => {} Some(q) => { lem_found(*q, a, b, r); } }
}
pub proof fn lem_found_all(cs: Seq<Condition>, o: Option<Box<YamlPath>>, a: Seq<ArrayData>, b: Seq<ArrayData>, r: MyVec<Yaml>)
    requires fh_all(FindRel, cs, o, a, b, r)
    ensures b == a, r.0@ == found_all(cs, o, a)
    decreases o, 4nat, a.len()
{
    if a.len() > 0 {
        if elem_fits(a.last(), cs) {
            let (r0, x) = choose|r0: MyVec<Yaml>, x: MyVec<Yaml>| #[trigger] r0.is_sum(x, r)
                && fh_next(FindRel, o, node(a.last())->0, node(b.last())->0, x) && fh_all(FindRel, cs, o, a.drop_last(), b.drop_last(), r0);
            lem_found_next(o, node(a.last())->0, node(b.last())->0, x);
            lem_found_all(cs, o, a.drop_last(), b.drop_last(), r0);
            assert(x.0@ == found_el(cs, o, a.last()));
        } else { lem_found_all(cs, o, a.drop_last(), b.drop_last(), r); assert(found_el(cs, o, a.last()) == Seq::<Yaml>::empty()); }
        assert(r.0@ =~= found_all(cs, o, a));
        assert(a =~= a.drop_last().push(a.last()) && b =~= b.drop_last().push(b.last()));
    } else { assert(r.0@ =~= Seq::empty()); assert(a =~= b); }
}
pub proof fn lem_found_idx(idx: Seq<usize>, cs: Seq<Condition>, o: Option<Box<YamlPath>>, a: Seq<ArrayData>, b: Seq<ArrayData>, r: MyVec<Yaml>)
    requires fh_idx(FindRel, idx, cs, o, a, b, r)
    ensures b == a, r.0@ == found_idx(idx, cs, o, a)
    decreases o, 4nat, idx.len()
{
    if idx.len() > 0 {
        let j = idx.last() as int;
        let (m, r0, x) = choose|m: Seq<ArrayData>, r0: MyVec<Yaml>, x: MyVec<Yaml>| #[trigger] idx_step(m, b, idx.last() as int, cs, r0, x, r) && fh_idx(FindRel, idx.drop_last(), cs, o, a, m, r0)
            && (idx.last() < m.len() && elem_fits(m[idx.last() as int], cs) ==>
                fh_next(FindRel, o, node(m[idx.last() as int])->0, node(b[idx.last() as int])->0, x));
        lem_found_idx(idx.drop_last(), cs, o, a, m, r0);
        if j < m.len() && elem_fits(m[j], cs) { lem_found_next(o, node(m[j])->0, node(b[j])->0, x); assert(b =~= m); }
        if j < m.len() { assert(found_el(cs, o, m[j]) == if elem_fits(m[j], cs) { found_next(o, node(m[j])->0) } else { Seq::empty() }); }
        assert(r.0@ =~= found_idx(idx, cs, o, a));
    } else { assert(r.0@ =~= Seq::empty()); }
}
pub proof fn lem_found_doc(p: YamlPath, a: Seq<DocumentData>, b: Seq<DocumentData>, r: MyVec<Yaml>)
    requires fh_doc(FindRel, p, a, b, r)
    ensures b == a, r.0@ == found_doc(p, a)
    decreases a.len()
{
    if a.len() > 0 {
        let (r0, x) = choose|r0: MyVec<Yaml>, x: MyVec<Yaml>| #[trigger] r0.is_sum(x, r) && fh_dd(FindRel, p, a.last(), b.last(), x) && fh_doc(FindRel, p, a.drop_last(), b.drop_last(), r0);
        match (a.last(), b.last()) { (DocumentData::Yaml(y), DocumentData::Yaml(z)) => lem_found(p, y, z, x), _ => { assert(x.0@ =~= Seq::empty()); } }
        lem_found_doc(p, a.drop_last(), b.drop_last(), r0);
        assert(a =~= a.drop_last().push(a.last()) && b =~= b.drop_last().push(b.last()));
    } else { assert(r.0@ =~= Seq::empty()); assert(a =~= b); }
}
pub proof fn lem_found_he(p: YamlPath, a: HashElement, b: HashElement, r: MyVec<Yaml>)
    requires fh_he(FindRel, p, a, b, r)
    ensures b == a, r.0@ == found_he(p, a)
{
    match p { YamlPath::Key(_, _, Some(q)) => lem_found(*q, a.value.value, b.value.value, r), _ => { if r.0@.len() == 0 { assert(r.0@ =~= Seq::empty()); } } }
}
pub proof fn lem_put(a: AliasedYaml, k: String, v: AliasedYaml, b: AliasedYaml)
    requires
        a.value is Hash,
        exists|ow: bool, p: YamlPath, n: int| #[trigger] ed(InsertRel { value: v, overwrite: ow }, p, a.value, b.value, n) && (ow || kpos(entries(a.value), k@) < 0) && key_only(p, k@),
    ensures b.value is Hash, entries(b.value) == ins(entries(a.value), (k, v))
{
    let (ow, p, n) = choose|ow: bool, p: YamlPath, n: int| #[trigger] ed(InsertRel { value: v, overwrite: ow }, p, a.value, b.value, n) && (ow || kpos(entries(a.value), k@) < 0) && key_only(p, k@);
    assert(fits(a.value, p->Key_1@));
    l_kpos(entries(a.value), k@);
    let d = a.value->Hash_0;
    assert(d.len() == d@.len());
    assert(b.value is Hash);
    let f = b.value->Hash_0@;
    let i = kpos(d@, k@);
    if i >= 0 { axiom_string_ext(f[i]->Element_0.key, k); assert(f =~= d@.update(i, ent((k, v)))); }
    else { axiom_string_ext(f.last()->Element_0.key, k); assert(f =~= d@.push(ent((k, v)))); }
}
pub proof fn lem_rem(a: Yaml, k: Seq<char>, b: Yaml)
    requires
        a is Hash, exists|p: YamlPath, n: int| #[trigger] ed(RemoveRel, p, a, b, n) && key_only(p, k),
    ensures b is Hash, entries(b) == rem(entries(a), k)
{
    let (p, n) = choose|p: YamlPath, n: int| #[trigger] ed(RemoveRel, p, a, b, n) && key_only(p, k);
    assert(fits(a, p->Key_1@));
    l_kpos(entries(a), k);
    let d = a->Hash_0;
    assert(d.len() == d@.len());
    assert(b is Hash);
}
pub open spec fn key_only(p: YamlPath, k: Seq<char>) -> bool { p is Key && p->Key_0@ == k && p->Key_1@.len() == 0 && p->Key_2 is None }
