// ---------------------------------------------------------------------------
// C05..C09: what a path denotes in a tree, and what editing at a path may change
// ---------------------------------------------------------------------------
//@extract type path.rs Condition
//@extract type path.rs YamlPath
//@extract type yaml/insert.rs MyVec

/// derived `PartialEq`/`Clone` and vectors: a vector is determined by its elements (spare
/// capacity is not part of its value)
#[verifier::external_body]
pub proof fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>)
    ensures a@ == b@ ==> a == b
{}

// ---- keys of a mapping ------------------------------------------------------
pub open spec fn is_key(d: HashData, k: Seq<char>) -> bool {
    match d { HashData::Element(e) => e.key@ == k, _ => false }
}
/// the place of the first entry with this key, -1 without one
pub open spec fn kpos(d: Seq<HashData>, k: Seq<char>) -> int
    decreases d.len()
{
    if d.len() == 0 { -1 }
    else if kpos(d.drop_last(), k) >= 0 { kpos(d.drop_last(), k) }
    else if is_key(d.last(), k) { d.len() - 1 }
    else { -1 }
}
pub open spec fn ypos(y: Yaml, k: Seq<char>) -> int {
    match y { Yaml::Hash(d) => kpos(d@, k), _ => -1 }
}
pub open spec fn yval(y: Yaml, k: Seq<char>) -> Option<AliasedYaml> {
    match y {
        Yaml::Hash(d) => if kpos(d@, k) >= 0 { Some(d@[kpos(d@, k)]->Element_0.value) } else { None },
        _ => None,
    }
}
/// every condition names a field whose value reads as the given text
pub open spec fn fits(y: Yaml, cs: Seq<Condition>) -> bool {
    forall|i: int| 0 <= i < cs.len() ==> cond_holds(y, #[trigger] cs[i])
}
pub open spec fn cond_holds(y: Yaml, c: Condition) -> bool {
    match yval(y, c.field@) { Some(v) => scalar_value(v.value) == Some(c.value@), None => false }
}
pub open spec fn opt_pos(i: int) -> Option<usize> { if i >= 0 { Some(i as usize) } else { None } }

// ---- the elements of a sequence ----------------------------------------------
/// the node of an element; comments have none
pub open spec fn node(d: ArrayData) -> Option<Yaml> { match d { ArrayData::Element(e) => Some(e.value), _ => None } }
/// both are elements with the same anchor
pub open spec fn frame(a: ArrayData, b: ArrayData) -> bool {
    match (a, b) { (ArrayData::Element(x), ArrayData::Element(y)) => x.alias == y.alias, _ => false }
}
/// the elements of a flow sequence, seen as those of a block sequence
pub open spec fn lift1(y: Yaml) -> ArrayData { ArrayData::Element(AliasedYaml { alias: None, value: y }) }
pub open spec fn lift(d: Seq<Yaml>) -> Seq<ArrayData> { Seq::new(d.len(), |i: int| lift1(d[i])) }
/// the items of `b` at the places where `a` has elements
pub open spec fn pick(a: Seq<ArrayData>, b: Seq<ArrayData>) -> Seq<ArrayData>
    decreases a.len()
{
    if a.len() == 0 { Seq::empty() }
    else if node(a.last()) is Some { pick(a.drop_last(), b.drop_last()).push(b.last()) }
    else { pick(a.drop_last(), b.drop_last()) }
}
/// same length, same comments in the same places
pub open spec fn same_comments(a: Seq<ArrayData>, b: Seq<ArrayData>) -> bool {
    a.len() == b.len() && forall|j: int| 0 <= j < a.len() && node(#[trigger] a[j]) is None ==> b[j] == a[j]
}
/// two mappings with the same keys, anchors, comments and, except at `i`, the same values
pub open spec fn same_but(a: Seq<HashData>, b: Seq<HashData>, i: int) -> bool {
    &&& a.len() == b.len() && 0 <= i < a.len()
    &&& forall|j: int| 0 <= j < a.len() && j != i ==> b[j] == #[trigger] a[j]
}
pub open spec fn value_of(d: HashData) -> Yaml { d->Element_0.value.value }
pub open spec fn field_frame(a: HashElement, b: HashElement) -> bool { a.key == b.key && a.value.alias == b.value.alias }
pub open spec fn hd_frame(a: HashData, b: HashData) -> bool {
    match (a, b) { (HashData::Element(x), HashData::Element(y)) => field_frame(x, y), _ => false }
}

// ---- editing the entries of the mappings a path reaches (C06) -----------------------
/// what happens to the entries of one mapping: `i` is the place of the entry named by the path
pub trait EditRel: Sized {
    #[verifier::prophetic]
    spec fn holds(self, a: Seq<HashData>, k: Seq<char>, i: Option<usize>, b: Seq<HashData>, n: int) -> bool;
}
/// what the closure given by the caller does
pub struct OfEdit<F>(pub F);
impl<F: Fn(&mut Vec<HashData>, String, Option<usize>) -> usize> EditRel for OfEdit<F> {
    #[verifier::prophetic]
    open spec fn holds(self, a: Seq<HashData>, k: Seq<char>, i: Option<usize>, b: Seq<HashData>, n: int) -> bool {
        calls_to(self.0, a, k, i, b, n)
    }
}
/// some call of `f` with these arguments leaves `b` behind and returns `n`
#[verifier::prophetic]
pub open spec fn calls_to<F: Fn(&mut Vec<HashData>, String, Option<usize>) -> usize>(f: F, a: Seq<HashData>, k: Seq<char>, i: Option<usize>, b: Seq<HashData>, n: int) -> bool {
    exists|m: &mut Vec<HashData>, key: String, r: usize| m@ == a && key@ == k && final(m)@ == b && r == n
        && #[trigger] f.ensures((m, key, i), r)
}
/// `b` with count `n` is a possible result of editing `a` at the path `p`
#[verifier::prophetic]
pub open spec fn ed<E: EditRel>(e: E, p: YamlPath, a: Yaml, b: Yaml, n: int) -> bool
    decreases p, 2nat, 0nat
{
    match p {
        YamlPath::Root(_) => b == a && n == 0,
        YamlPath::Key(k, cs, o) => match (a, b) {
            (Yaml::Hash(d), Yaml::Hash(f)) => if !fits(a, cs@) { b == a && n == 0 } else {
                let i = kpos(d@, k@);
                match o {
                    Some(q) => if i >= 0 {
                        same_but(d@, f@, i) && hd_frame(d@[i], f@[i]) && ed(e, *q, value_of(d@[i]), value_of(f@[i]), n)
                    } else { b == a && n == 0 },
                    None => e.holds(d@, k@, opt_pos(i), f@, n),
                }
            },
            _ => b == a && n == 0,
        },
        YamlPath::Indexes(idx, cs, Some(q)) => match (a, b) {
            (Yaml::InlineArray(d), Yaml::InlineArray(f)) => ed_idx(e, idx@, cs@, *q, lift(d@), lift(f@), n),
            (Yaml::Array(d), Yaml::Array(f)) => same_comments(d@, f@) && ed_idx(e, idx@, cs@, *q, pick(d@, d@), pick(d@, f@), n),
            _ => b == a && n == 0,
        },
        YamlPath::AllIndexes(cs, Some(q)) => match (a, b) {
            (Yaml::InlineArray(d), Yaml::InlineArray(f)) => ed_all(e, cs@, *q, lift(d@), lift(f@), n),
            (Yaml::Array(d), Yaml::Array(f)) => ed_all(e, cs@, *q, d@, f@, n),
            _ => b == a && n == 0,
        },
        _ => b == a && n == 0,
    }
}
pub open spec fn pk(k: int) -> bool { true }
/// one element of a sequence: edited when it fits the conditions
#[verifier::prophetic]
pub open spec fn ed_el<E: EditRel>(e: E, cs: Seq<Condition>, q: YamlPath, a: ArrayData, b: ArrayData, n: int) -> bool
    decreases q, 3nat, 0nat
{
    if node(a) is Some && fits(node(a)->0, cs) {
        frame(a, b) && ed(e, q, node(a)->0, node(b)->0, n)
    } else { b == a && n == 0 }
}
/// every element in turn
#[verifier::prophetic]
pub open spec fn ed_all<E: EditRel>(e: E, cs: Seq<Condition>, q: YamlPath, a: Seq<ArrayData>, b: Seq<ArrayData>, n: int) -> bool
    decreases q, 4nat, a.len()
{
    a.len() == b.len() && if a.len() == 0 { n == 0 } else {
        exists|k: int| #[trigger] pk(k) && ed_el(e, cs, q, a.last(), b.last(), k) && ed_all(e, cs, q, a.drop_last(), b.drop_last(), n - k)
    }
}
/// the listed elements, one after the other
#[verifier::prophetic]
pub open spec fn ed_idx<E: EditRel>(e: E, idx: Seq<usize>, cs: Seq<Condition>, q: YamlPath, a: Seq<ArrayData>, b: Seq<ArrayData>, n: int) -> bool
    decreases q, 4nat, idx.len()
{
    a.len() == b.len() && if idx.len() == 0 { b == a && n == 0 }
    else {
        exists|m: Seq<ArrayData>, k: int| ed_idx(e, idx.drop_last(), cs, q, a, m, n - k) && #[trigger] step_frame(m, b, idx.last() as int, k)
            && (idx.last() < m.len() ==> ed_el(e, cs, q, m[idx.last() as int], b[idx.last() as int], k))
    }
}
/// only the element at `i` may differ, and nothing happens when there is none
pub open spec fn step_frame(m: Seq<ArrayData>, b: Seq<ArrayData>, i: int, k: int) -> bool {
    &&& m.len() == b.len()
    &&& i < m.len() ==> b == m.update(i, b[i])
    &&& i >= m.len() ==> b == m && k == 0
}
// derived `Clone` (it gives an equal value)
impl Clone for Yaml {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for AliasedYaml {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for HashElement {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for HashData {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// what a search for a key over a mapping's entries has found
pub open spec fn at_key(o: Option<(usize, &HashData)>, d: Seq<HashData>, k: Seq<char>) -> bool {
    match o { Some(x) => kpos(d, k) == x.0, None => kpos(d, k) < 0 }
}
pub open spec fn is_val(o: Option<&AliasedYaml>, y: Yaml, k: Seq<char>) -> bool {
    match o { Some(x) => yval(y, k) == Some(*x), None => yval(y, k) is None }
}
pub open spec fn unless_cond(o: Option<&Condition>, y: Yaml, c: Seq<Condition>) -> bool { o is None == fits(y, c) }

// ---- what mutable references point to now and in the end --------------------------------
pub open spec fn cur<T>(s: Seq<&mut T>) -> Seq<T> { Seq::new(s.len(), |j: int| *s[j]) }
#[verifier::prophetic]
pub open spec fn fin<T>(s: Seq<&mut T>) -> Seq<T> { Seq::new(s.len(), |j: int| *final(s[j])) }
#[verifier::prophetic]
pub open spec fn is_fin(b: Seq<ArrayData>, s: Seq<&mut ArrayData>) -> bool {
    b.len() == s.len() && forall|j: int| 0 <= j < b.len() ==> #[trigger] b[j] == *final(s[j])
}
#[verifier::prophetic]
pub open spec fn is_fin_flow(b: Seq<ArrayData>, s: Seq<&mut Yaml>) -> bool {
    b.len() == s.len() && forall|j: int| 0 <= j < b.len() ==> #[trigger] b[j] == lift1(*final(s[j]))
}
//@extract type yaml/document.rs DocumentData
//@extract type yaml/document.rs Document
#[verifier::prophetic]
pub open spec fn ed_dd<E: EditRel>(e: E, p: YamlPath, a: DocumentData, b: DocumentData, n: int) -> bool {
    match (a, b) {
        (DocumentData::Yaml(x), DocumentData::Yaml(y)) => ed(e, p, x, y, n),
        _ => b == a && n == 0,
    }
}
#[verifier::prophetic]
pub open spec fn ed_doc<E: EditRel>(e: E, p: YamlPath, a: Seq<DocumentData>, b: Seq<DocumentData>, n: int) -> bool
    decreases a.len()
{
    a.len() == b.len() && if a.len() == 0 { n == 0 } else {
        exists|k: int| #[trigger] pk(k) && ed_dd(e, p, a.last(), b.last(), k) && ed_doc(e, p, a.drop_last(), b.drop_last(), n - k)
    }
}
#[verifier::prophetic]
pub open spec fn is_fin_doc(b: Seq<DocumentData>, s: Seq<&mut DocumentData>) -> bool {
    b.len() == s.len() && forall|j: int| 0 <= j < b.len() ==> #[trigger] b[j] == *final(s[j])
}

// ---- the edits themselves ------------------------------------------------------------
/// an entry made of this key and value
pub open spec fn is_entry(d: HashData, k: Seq<char>, v: AliasedYaml) -> bool {
    match d { HashData::Element(e) => e.key@ == k && e.value == v, _ => false }
}
/// insert: append a missing entry, replace an existing one only when asked to
pub open spec fn put(a: Seq<HashData>, k: Seq<char>, i: Option<usize>, v: AliasedYaml, overwrite: bool, b: Seq<HashData>, n: int) -> bool {
    match i {
        None => n == 1 && b.len() == a.len() + 1 && b == a.push(b.last()) && is_entry(b.last(), k, v),
        Some(x) => if overwrite { n == 1 && b == a.update(x as int, b[x as int]) && is_entry(b[x as int], k, v) } else { n == 0 && b == a },
    }
}
pub struct InsertRel { pub value: AliasedYaml, pub overwrite: bool }
impl EditRel for InsertRel {
    open spec fn holds(self, a: Seq<HashData>, k: Seq<char>, i: Option<usize>, b: Seq<HashData>, n: int) -> bool {
        put(a, k, i, self.value, self.overwrite, b, n)
    }
}
/// insert what a call of the closure gives
pub struct InsertByRel<F> { pub make: F, pub overwrite: bool }
impl<F: Fn() -> AliasedYaml> EditRel for InsertByRel<F> {
    open spec fn holds(self, a: Seq<HashData>, k: Seq<char>, i: Option<usize>, b: Seq<HashData>, n: int) -> bool {
        put(a, k, i, new_value(b, i), self.overwrite, b, n) && (n == 1 ==> made_by(&self.make, new_value(b, i)))
    }
}
/// the value at the entry that was inserted
pub open spec fn new_value(b: Seq<HashData>, i: Option<usize>) -> AliasedYaml {
    match i { None => b.last()->Element_0.value, Some(x) => b[x as int]->Element_0.value }
}
pub open spec fn made_by<F: Fn() -> AliasedYaml>(f: &F, v: AliasedYaml) -> bool { f.ensures((), v) }
/// remove: delete the entry where it exists
pub struct RemoveRel;
impl EditRel for RemoveRel {
    open spec fn holds(self, a: Seq<HashData>, k: Seq<char>, i: Option<usize>, b: Seq<HashData>, n: int) -> bool {
        match i { None => n == 0 && b == a, Some(x) => n == 1 && b == a.remove(x as int) }
    }
}
/// everything `e` allows at an entry, `s` allows too
#[verifier::prophetic]
pub open spec fn implies_rel<E: EditRel, S: EditRel>(e: E, s: S) -> bool {
    forall|a: Seq<HashData>, k: Seq<char>, i: Option<usize>, b: Seq<HashData>, n: int|
        #[trigger] e.holds(a, k, i, b, n) && (i is Some ==> i->0 < a.len() && is_key(a[i->0 as int], k)) ==> s.holds(a, k, i, b, n)
}
/// `to_owned` of a `Clone` type is `clone`
pub assume_specification<T: Clone> [<T as std::borrow::ToOwned>::to_owned] (x: &T) -> (r: T)
    ensures call_ensures(T::clone, (x,), r);

// ---- visiting what a path denotes (C05, C07..C09) -------------------------------------
/// how the results of several visits are put together
pub trait Additive: Sized {
    spec fn is_zero(self) -> bool;
    spec fn is_sum(self, o: Self, r: Self) -> bool;
    fn zero() -> (r: Self)
        ensures r.is_zero();
    fn m_plus(self, o: Self) -> (r: Self)
        ensures self.is_sum(o, r);
}
/// what happens to one field or node the path denotes, with its result
pub trait VisitRel<A>: Sized {
    #[verifier::prophetic]
    spec fn on_field(self, a: HashElement, b: HashElement, r: A) -> bool;
    #[verifier::prophetic]
    spec fn on_node(self, a: Yaml, b: Yaml, r: A) -> bool;
}
/// what the closures given by the caller do
pub struct OfVisit<F, R>(pub F, pub R);
impl<A, F: Fn(&mut HashElement) -> A, R: Fn(&mut Yaml) -> A> VisitRel<A> for OfVisit<F, R> {
    #[verifier::prophetic]
    open spec fn on_field(self, a: HashElement, b: HashElement, r: A) -> bool { field_call(self.0, a, b, r) }
    #[verifier::prophetic]
    open spec fn on_node(self, a: Yaml, b: Yaml, r: A) -> bool { node_call(self.1, a, b, r) }
}
#[verifier::prophetic]
pub open spec fn field_call<A, F: Fn(&mut HashElement) -> A>(f: F, a: HashElement, b: HashElement, r: A) -> bool {
    exists|m: &mut HashElement| *m == a && *final(m) == b && #[trigger] f.ensures((m,), r)
}
#[verifier::prophetic]
pub open spec fn node_call<A, R: Fn(&mut Yaml) -> A>(f: R, a: Yaml, b: Yaml, r: A) -> bool {
    exists|m: &mut Yaml| *m == a && *final(m) == b && #[trigger] f.ensures((m,), r)
}
/// number of steps of a path
pub open spec fn psize(p: YamlPath) -> nat
    decreases p
{
    match p {
        YamlPath::Root(_) => 0,
        YamlPath::Key(_, _, Some(q)) => 1 + psize(*q),
        YamlPath::AllIndexes(_, Some(q)) => 1 + psize(*q),
        YamlPath::Indexes(_, _, Some(q)) => 1 + psize(*q),
        _ => 1,
    }
}
/// nothing changed, nothing found
pub open spec fn nothing<T, A: Additive>(a: T, b: T, r: A) -> bool { b == a && r.is_zero() }
#[verifier::prophetic]
pub open spec fn fh<A: Additive, V: VisitRel<A>>(v: V, p: YamlPath, a: Yaml, b: Yaml, r: A) -> bool
    decreases p, 2nat, 0nat
{
    match p {
        YamlPath::Root(cs) => if fits(a, cs@) { v.on_node(a, b, r) } else { nothing(a, b, r) },
        YamlPath::Key(k, cs, o) => match (a, b) {
            (Yaml::Hash(d), Yaml::Hash(f)) => {
                let i = kpos(d@, k@);
                if !fits(a, cs@) || i < 0 { nothing(a, b, r) } else {
                    same_but(d@, f@, i) && match o {
                        None => f@[i] is Element && v.on_field(d@[i]->Element_0, f@[i]->Element_0, r),
                        Some(q) => hd_frame(d@[i], f@[i]) && fh(v, *q, value_of(d@[i]), value_of(f@[i]), r),
                    }
                }
            },
            _ => nothing(a, b, r),
        },
        YamlPath::Indexes(idx, cs, o) => match (a, b) {
            (Yaml::InlineArray(d), Yaml::InlineArray(f)) => fh_idx(v, idx@, cs@, o, lift(d@), lift(f@), r),
            (Yaml::Array(d), Yaml::Array(f)) => same_comments(d@, f@) && fh_idx(v, idx@, cs@, o, pick(d@, d@), pick(d@, f@), r),
            _ => nothing(a, b, r),
        },
        YamlPath::AllIndexes(cs, o) => match (a, b) {
            (Yaml::InlineArray(d), Yaml::InlineArray(f)) => fh_all(v, cs@, o, lift(d@), lift(f@), r),
            (Yaml::Array(d), Yaml::Array(f)) => fh_all(v, cs@, o, d@, f@, r),
            _ => nothing(a, b, r),
        },
    }
}
/// the rest of a path: the node itself when there is none
#[verifier::prophetic]
pub open spec fn fh_next<A: Additive, V: VisitRel<A>>(v: V, o: Option<Box<YamlPath>>, a: Yaml, b: Yaml, r: A) -> bool
    decreases o, 1nat, 0nat
{
    match o { None => v.on_node(a, b, r), Some(q) => fh(v, *q, a, b, r) }
}
pub open spec fn elem_fits(a: ArrayData, cs: Seq<Condition>) -> bool { node(a) is Some && fits(node(a)->0, cs) }
#[verifier::prophetic]
pub open spec fn fh_all<A: Additive, V: VisitRel<A>>(v: V, cs: Seq<Condition>, o: Option<Box<YamlPath>>, a: Seq<ArrayData>, b: Seq<ArrayData>, r: A) -> bool
    decreases o, 4nat, a.len()
{
    a.len() == b.len() && if a.len() == 0 { r.is_zero() }
    else if elem_fits(a.last(), cs) {
        frame(a.last(), b.last()) && exists|r0: A, x: A| #[trigger] r0.is_sum(x, r)
            && fh_next(v, o, node(a.last())->0, node(b.last())->0, x) && fh_all(v, cs, o, a.drop_last(), b.drop_last(), r0)
    } else { b.last() == a.last() && fh_all(v, cs, o, a.drop_last(), b.drop_last(), r) }
}
#[verifier::prophetic]
pub open spec fn fh_idx<A: Additive, V: VisitRel<A>>(v: V, idx: Seq<usize>, cs: Seq<Condition>, o: Option<Box<YamlPath>>, a: Seq<ArrayData>, b: Seq<ArrayData>, r: A) -> bool
    decreases o, 4nat, idx.len()
{
    a.len() == b.len() && if idx.len() == 0 { b == a && r.is_zero() }
    else {
        exists|m: Seq<ArrayData>, r0: A, x: A| #[trigger] idx_step(m, b, idx.last() as int, cs, r0, x, r) && fh_idx(v, idx.drop_last(), cs, o, a, m, r0)
            && (idx.last() < m.len() && elem_fits(m[idx.last() as int], cs) ==>
                fh_next(v, o, node(m[idx.last() as int])->0, node(b[idx.last() as int])->0, x))
    }
}
/// the step changes only the element with this index, and only when it fits
pub open spec fn idx_step<A: Additive>(m: Seq<ArrayData>, b: Seq<ArrayData>, i: int, cs: Seq<Condition>, r0: A, x: A, r: A) -> bool {
    m.len() == b.len() && if i < m.len() && elem_fits(m[i], cs) {
        b == m.update(i, b[i]) && frame(m[i], b[i]) && r0.is_sum(x, r)
    } else { b == m && r == r0 }
}
#[verifier::prophetic]
pub open spec fn fh_ad<A: Additive, V: VisitRel<A>>(v: V, p: YamlPath, a: ArrayData, b: ArrayData, r: A) -> bool {
    match (a, p) {
        (ArrayData::Element(_), YamlPath::Key(_, _, None)) => frame(a, b) && fh(v, p, node(a)->0, node(b)->0, r),
        (ArrayData::Element(_), YamlPath::AllIndexes(_, o)) => frame(a, b) && fh_next(v, o, node(a)->0, node(b)->0, r),
        (ArrayData::Element(_), YamlPath::Indexes(_, _, o)) => frame(a, b) && fh_next(v, o, node(a)->0, node(b)->0, r),
        _ => nothing(a, b, r),
    }
}
#[verifier::prophetic]
pub open spec fn fh_he<A: Additive, V: VisitRel<A>>(v: V, p: YamlPath, a: HashElement, b: HashElement, r: A) -> bool {
    match p {
        YamlPath::Root(_) => v.on_field(a, b, r),
        YamlPath::Key(k, _, None) => if k@ == a.key@ { v.on_field(a, b, r) } else { nothing(a, b, r) },
        YamlPath::Key(_, _, Some(q)) => field_frame(a, b) && fh(v, *q, a.value.value, b.value.value, r),
        _ => nothing(a, b, r),
    }
}
#[verifier::prophetic]
pub open spec fn fh_hd<A: Additive, V: VisitRel<A>>(v: V, p: YamlPath, a: HashData, b: HashData, r: A) -> bool {
    match (a, b) { (HashData::Element(x), HashData::Element(y)) => fh_he(v, p, x, y, r), _ => !(a is Element) && nothing(a, b, r) }
}
#[verifier::prophetic]
pub open spec fn fh_dd<A: Additive, V: VisitRel<A>>(v: V, p: YamlPath, a: DocumentData, b: DocumentData, r: A) -> bool {
    match (a, b) { (DocumentData::Yaml(x), DocumentData::Yaml(y)) => fh(v, p, x, y, r), _ => nothing(a, b, r) }
}
#[verifier::prophetic]
pub open spec fn fh_doc<A: Additive, V: VisitRel<A>>(v: V, p: YamlPath, a: Seq<DocumentData>, b: Seq<DocumentData>, r: A) -> bool
    decreases a.len()
{
    a.len() == b.len() && if a.len() == 0 { r.is_zero() } else {
        exists|r0: A, x: A| #[trigger] r0.is_sum(x, r) && fh_dd(v, p, a.last(), b.last(), x) && fh_doc(v, p, a.drop_last(), b.drop_last(), r0)
    }
}
#[verifier::prophetic]
pub open spec fn implies_vis<A: Additive, V: VisitRel<A>, W: VisitRel<A>>(v: V, w: W) -> bool {
    &&& forall|a: HashElement, b: HashElement, r: A| #[trigger] v.on_field(a, b, r) ==> w.on_field(a, b, r)
    &&& forall|a: Yaml, b: Yaml, r: A| #[trigger] v.on_node(a, b, r) ==> w.on_node(a, b, r)
}
// ---- C05: the values a path denotes ---------------------------------------------------
/// finding changes nothing and yields the value of the field, or the node itself
pub struct FindRel;
impl VisitRel<MyVec<Yaml>> for FindRel {
    open spec fn on_field(self, a: HashElement, b: HashElement, r: MyVec<Yaml>) -> bool { b == a && r.0@ =~= seq![a.value.value] }
    open spec fn on_node(self, a: Yaml, b: Yaml, r: MyVec<Yaml>) -> bool { b == a && r.0@ =~= seq![a] }
}
pub open spec fn found(p: YamlPath, a: Yaml) -> Seq<Yaml>
    decreases p, 2nat, 0nat
{
    match p {
        YamlPath::Root(cs) => if fits(a, cs@) { seq![a] } else { Seq::empty() },
        YamlPath::Key(k, cs, o) => match yval(a, k@) {
            Some(v) => if fits(a, cs@) { found_next(o, v.value) } else { Seq::empty() },
            None => Seq::empty(),
        },
        YamlPath::Indexes(idx, cs, o) => found_idx(idx@, cs@, o, elements(a)),
        YamlPath::AllIndexes(cs, o) => found_all(cs@, o, elements(a)),
    }
}
/// the elements of a sequence (comments are none)
pub open spec fn elements(a: Yaml) -> Seq<ArrayData> {
    match a { Yaml::InlineArray(d) => lift(d@), Yaml::Array(d) => pick(d@, d@), _ => Seq::empty() }
}
pub open spec fn found_next(o: Option<Box<YamlPath>>, a: Yaml) -> Seq<Yaml>
    decreases o, 1nat, 0nat
{
    match o { None => seq![a], Some(q) => found(*q, a) }
}
pub open spec fn found_el(cs: Seq<Condition>, o: Option<Box<YamlPath>>, a: ArrayData) -> Seq<Yaml>
    decreases o, 2nat, 0nat
{
    if elem_fits(a, cs) { found_next(o, node(a)->0) } else { Seq::empty() }
}
pub open spec fn found_all(cs: Seq<Condition>, o: Option<Box<YamlPath>>, a: Seq<ArrayData>) -> Seq<Yaml>
    decreases o, 4nat, a.len()
{
    if a.len() == 0 { Seq::empty() } else { found_all(cs, o, a.drop_last()) + found_el(cs, o, a.last()) }
}
pub open spec fn found_idx(idx: Seq<usize>, cs: Seq<Condition>, o: Option<Box<YamlPath>>, a: Seq<ArrayData>) -> Seq<Yaml>
    decreases o, 4nat, idx.len()
{
    if idx.len() == 0 { Seq::empty() } else {
        found_idx(idx.drop_last(), cs, o, a) + if idx.last() < a.len() { found_el(cs, o, a[idx.last() as int]) } else { Seq::empty() }
    }
}
pub open spec fn found_doc(p: YamlPath, a: Seq<DocumentData>) -> Seq<Yaml>
    decreases a.len()
{
    if a.len() == 0 { Seq::empty() } else {
        found_doc(p, a.drop_last()) + match a.last() { DocumentData::Yaml(y) => found(p, y), _ => Seq::empty() }
    }
}
// ---- C07: what renaming and wrapping do to a field ----------------------------------------
pub struct RenameRel { pub name: Seq<char> }
impl VisitRel<usize> for RenameRel {
    open spec fn on_field(self, a: HashElement, b: HashElement, r: usize) -> bool { b.key@ == self.name && b.value == a.value && r == 1 }
    open spec fn on_node(self, a: Yaml, b: Yaml, r: usize) -> bool { b == a && r == 0 }
}
pub struct WrapRel { pub key: Seq<char> }
impl VisitRel<usize> for WrapRel {
    open spec fn on_field(self, a: HashElement, b: HashElement, r: usize) -> bool {
        &&& b.key == a.key && b.value.alias is None && r == 1
        &&& match b.value.value { Yaml::Hash(d) => d@.len() == 1 && is_entry(d@[0], self.key, a.value), _ => false }
    }
    open spec fn on_node(self, a: Yaml, b: Yaml, r: usize) -> bool { b == a && r == 0 }
}
pub open spec fn found_he(p: YamlPath, a: HashElement) -> Seq<Yaml> { match p { YamlPath::Root(_) => seq![a.value.value], YamlPath::Key(k, _, None) => if k@ == a.key@ { seq![a.value.value] } else { Seq::empty() }, YamlPath::Key(_, _, Some(q)) => found(*q, a.value.value), _ => Seq::empty() } }
/// a text is determined by its characters (spare capacity is not part of its value)
#[verifier::external_body]
pub proof fn axiom_string_ext(a: String, b: String)
    ensures a@ == b@ ==> a == b
{}
/// a vector clones into one with equal elements (derived `Clone` of the elements)
#[verifier::external_body]
pub fn m_clone_vec<T: Clone>(v: &Vec<T>) -> (r: Vec<T>)
    ensures r@ == v@
{ v.clone() }
/// the first `n` entries while the entry with key `k` is borrowed through `o`
#[verifier::prophetic]
pub open spec fn upto(a: Seq<HashData>, b: Seq<HashData>, n: int, k: Seq<char>, o: Option<&mut AliasedYaml>) -> bool {
    let i = kpos(a.take(n), k);
    match o {
        None => i < 0 && forall|j: int| 0 <= j < n ==> b[j] == #[trigger] a[j],
        Some(x) => i >= 0 && *x == a[i]->Element_0.value && b[i] == with_value(a[i], *final(x))
            && forall|j: int| 0 <= j < n && j != i ==> b[j] == #[trigger] a[j],
    }
}
pub open spec fn with_value(d: HashData, v: AliasedYaml) -> HashData {
    match d { HashData::Element(e) => HashData::Element(HashElement { key: e.key, value: v }), _ => d }
}
#[verifier::prophetic]
pub open spec fn is_fin_map(b: Seq<HashData>, s: Seq<(usize, &mut HashData)>) -> bool {
    b.len() == s.len() && forall|j: int| 0 <= j < b.len() ==> #[trigger] b[j] == *final(s[j].1)
}

// ---- C08: moving fields under a subfield -------------------------------------------------
pub type Field = (String, AliasedYaml);
pub open spec fn ent(f: Field) -> HashData { HashData::Element(HashElement { key: f.0, value: f.1 }) }
pub open spec fn has_key(s: Seq<Field>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k }
/// the named fields of a mapping, in the order they are named
pub open spec fn sel(a: Yaml, sub: Seq<char>, names: Seq<String>) -> Seq<Field>
    decreases names.len()
{
    if names.len() == 0 { Seq::empty() } else {
        let (s, k) = (sel(a, sub, names.drop_last()), names.last());
        match yval(a, k@) { Some(v) => if k@ == sub || has_key(s, k@) { s } else { s.push((k, v)) }, None => s }
    }
}
/// the mapping with this field: replaced when there is one, appended otherwise
pub open spec fn ins(d: Seq<HashData>, f: Field) -> Seq<HashData> {
    if kpos(d, f.0@) >= 0 { d.update(kpos(d, f.0@), ent(f)) } else { d.push(ent(f)) }
}
pub open spec fn ins_all(d: Seq<HashData>, s: Seq<Field>) -> Seq<HashData>
    decreases s.len()
{
    if s.len() == 0 { d } else { ins(ins_all(d, s.drop_last()), s.last()) }
}
/// the mapping without this field
pub open spec fn rem(d: Seq<HashData>, k: Seq<char>) -> Seq<HashData> {
    if kpos(d, k) >= 0 { d.remove(kpos(d, k)) } else { d }
}
pub open spec fn rem_all(d: Seq<HashData>, s: Seq<Field>) -> Seq<HashData>
    decreases s.len()
{
    if s.len() == 0 { d } else { rem(rem_all(d, s.drop_last()), s.last().0@) }
}
pub open spec fn ents(s: Seq<Field>) -> Seq<HashData> { Seq::new(s.len(), |i: int| ent(s[i])) }
pub open spec fn consists(g: Vec<HashData>, want: Seq<HashData>) -> bool { g@ == want }
pub open spec fn mapping(g: Vec<HashData>) -> AliasedYaml { AliasedYaml { alias: None, value: Yaml::Hash(g) } }
pub open spec fn moved(a: Yaml, sub: String, names: Seq<String>, b: Yaml, n: usize) -> bool {
    let s = sel(a, sub@, names);
    match (a, b) {
        (Yaml::Hash(d), Yaml::Hash(f)) => {
            let i = kpos(d@, sub@);
            if s.len() == 0 || (i >= 0 && !(value_of(d@[i]) is Hash)) { b == a && n == 0 }
            else if i >= 0 {
                n == 1 && exists|g: Vec<HashData>| #[trigger] consists(g, ins_all(value_of(d@[i])->Hash_0@, s))
                    && f@ == rem_all(d@.update(i, with_value(d@[i], AliasedYaml { alias: d@[i]->Element_0.value.alias, value: Yaml::Hash(g) })), s)
            } else {
                n == 1 && exists|g: Vec<HashData>| #[trigger] consists(g, ents(s)) && f@ == rem_all(d@.push(ent((sub, mapping(g)))), s)
            }
        },
        _ => b == a && n == 0,
    }
}
pub struct MoveRel { pub sub: String, pub names: Seq<String> }
impl VisitRel<usize> for MoveRel {
    open spec fn on_field(self, a: HashElement, b: HashElement, r: usize) -> bool { field_frame(a, b) && moved(a.value.value, self.sub, self.names, b.value.value, r) }
    open spec fn on_node(self, a: Yaml, b: Yaml, r: usize) -> bool { moved(a, self.sub, self.names, b, r) }
}
/// what the code's list of references stands for
pub open spec fn pairs(s: Seq<(&String, AliasedYaml)>) -> Seq<Field> { Seq::new(s.len(), |i: int| (*s[i].0, s[i].1)) }
pub open spec fn entries(y: Yaml) -> Seq<HashData> { match y { Yaml::Hash(d) => d@, _ => Seq::empty() } }
pub open spec fn moving(sub: &String, names: &Vec<String>) -> MoveRel { MoveRel { sub: *sub, names: names@ } }
/// the value of the first entry with this key is borrowed through `o`; nothing else can change
#[verifier::prophetic]
pub open spec fn borrowed(a: Yaml, b: Yaml, k: Seq<char>, o: Option<&mut AliasedYaml>) -> bool {
    match o {
        None => ypos(a, k) < 0 && b == a,
        Some(x) => {
            let i = ypos(a, k);
            &&& i >= 0 && b is Hash && *x == entries(a)[i]->Element_0.value
            &&& entries(b) == entries(a).update(i, with_value(entries(a)[i], *final(x)))
            &&& *final(x) == *x ==> b == a
        },
    }
}
