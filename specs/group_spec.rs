// ---------------------------------------------------------------------------
// C09: regrouping the records of a mapping by the text of one of their fields
// ---------------------------------------------------------------------------
//@rewrite path BTreeMap => TextMap
//@rewrite path BTreeMap::new => TextMap::new
//@rewrite method extend => .m_extend
pub struct Grouping { pub old: String, pub sel: String, pub new: String, pub keeps: Seq<String> }
/// a vector with these elements (there is at most one, see `axiom_vec_ext`)
pub open spec fn vec_of(s: Seq<HashData>) -> Vec<HashData> { choose|v: Vec<HashData>| v@ == s }
/// the text of the record's selector field
pub open spec fn choice(d: HashData, g: Grouping) -> Option<Seq<char>> {
    match d {
        HashData::Element(e) => match yval(e.value.value, g.sel@) { Some(v) => scalar_value(v.value), None => None },
        _ => None,
    }
}
/// the group a record goes to; without one it stays
pub open spec fn place(d: HashData, g: Grouping) -> Option<Seq<char>> {
    match choice(d, g) {
        Some(s) => if sv_strings(g.keeps).contains(s) || s.len() == 0 { None } else { Some(s) },
        None => None,
    }
}
/// the record as it is kept: without the selector field where that one was a text
pub open spec fn slim(d: HashData, g: Grouping) -> HashData {
    match (d, choice(d, g)) {
        (HashData::Element(e), Some(_)) => HashData::Element(HashElement { key: e.key, value: AliasedYaml { alias: e.value.alias, value: Yaml::Hash(vec_of(rem(entries(e.value.value), g.sel@))) } }),
        _ => d,
    }
}
/// the comments behind the last record
pub open spec fn pend(d: Seq<HashData>) -> Seq<HashData>
    decreases d.len()
{
    if d.len() == 0 || d.last() is Element { Seq::empty() } else { pend(d.drop_last()).push(d.last()) }
}
/// where the last record went
pub open spec fn last_place(d: Seq<HashData>, g: Grouping) -> Option<Seq<char>>
    decreases d.len()
{
    if d.len() == 0 { None } else if d.last() is Element { place(d.last(), g) } else { last_place(d.drop_last(), g) }
}
/// the records that go to `t`, in document order, each behind the comments before it
pub open spec fn going(d: Seq<HashData>, g: Grouping, t: Option<Seq<char>>) -> Seq<HashData>
    decreases d.len()
{
    if d.len() == 0 { Seq::empty() }
    else if d.last() is Element && place(d.last(), g) == t { (going(d.drop_last(), g, t) + pend(d.drop_last())).push(slim(d.last(), g)) }
    else { going(d.drop_last(), g, t) }
}
/// ... and the comments behind the last record of all stay with that record
pub open spec fn gone(d: Seq<HashData>, g: Grouping, t: Option<Seq<char>>) -> Seq<HashData> {
    if last_place(d, g) == t { going(d, g, t) + pend(d) } else { going(d, g, t) }
}
pub open spec fn is_group(d: Seq<HashData>, g: Grouping, s: Seq<char>) -> bool {
    exists|i: int| 0 <= i < d.len() && d[i] is Element && #[trigger] place(d[i], g) == Some(s)
}
/// order of names: by the first character in which they differ
pub open spec fn before(a: Seq<char>, b: Seq<char>) -> bool {
    exists|i: int| 0 <= i <= a.len() && i < b.len() && #[trigger] a.take(i) == b.take(i) && (i < a.len() ==> a[i] < b[i])
}
/// one entry for every group, in name order
pub open spec fn all_groups(m: Seq<HashData>, d: Seq<HashData>, g: Grouping) -> bool {
    &&& forall|i: int| 0 <= i < m.len() ==> match #[trigger] m[i] {
        HashData::Element(e) => is_group(d, g, e.key@) && e.value == plain(gone(d, g, Some(e.key@))),
        _ => false,
    }
    &&& forall|i: int, j: int| 0 <= i < j < m.len() ==> before((#[trigger] m[i])->Element_0.key@, (#[trigger] m[j])->Element_0.key@)
    &&& forall|s: Seq<char>| #[trigger] is_group(d, g, s) ==> kpos(m, s) >= 0
}
pub open spec fn plain(s: Seq<HashData>) -> AliasedYaml { AliasedYaml { alias: None, value: Yaml::Hash(vec_of(s)) } }
pub open spec fn anchored(a: Option<String>, v: Vec<HashData>) -> AliasedYaml { AliasedYaml { alias: a, value: Yaml::Hash(v) } }
pub open spec fn moving_any(d: Seq<HashData>, g: Grouping) -> bool { exists|s: Seq<char>| #[trigger] is_group(d, g, s) }
pub open spec fn regrouped(a: Yaml, g: Grouping, b: Yaml, n: usize) -> bool {
    match yval(a, g.old@) {
        Some(v) => match v.value {
            Yaml::Hash(d) => if kpos(entries(a), g.new@) < 0 && moving_any(d@, g) {
                n == 1 && b is Hash && exists|m: Vec<HashData>| #[trigger] all_groups(m@, d@, g)
                    && entries(b) == ins(ins(entries(a), (g.new, anchored(v.alias, m))), (g.old, anchored(v.alias, vec_of(gone(d@, g, None)))))
            } else { b == a && n == 0 },
            _ => b == a && n == 0,
        },
        None => b == a && n == 0,
    }
}
pub struct GroupRel { pub g: Grouping }
impl VisitRel<usize> for GroupRel {
    open spec fn on_field(self, a: HashElement, b: HashElement, r: usize) -> bool { field_frame(a, b) && regrouped(a.value.value, self.g, b.value.value, r) }
    open spec fn on_node(self, a: Yaml, b: Yaml, r: usize) -> bool { regrouped(a, self.g, b, r) }
}
pub open spec fn grouping(old: &String, sel: &String, new: &String, keeps: &Vec<String>) -> GroupRel { GroupRel { g: Grouping { old: *old, sel: *sel, new: *new, keeps: keeps@ } } }

// ---- shims: BTreeMap<String, V>, Vec::extend, contains ------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct TextMap<K, V> { m: std::collections::BTreeMap<K, V> }
impl<V> TextMap<String, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.view() == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &String) -> (r: bool) ensures r == self.view().dom().contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self).view() == old(self).view().insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &String) -> (r: Option<&mut V>)
        ensures match r {
            None => !old(self).view().dom().contains(k@) && final(self).view() == old(self).view(),
            Some(x) => old(self).view().dom().contains(k@) && *x == old(self).view()[k@] && final(self).view() == old(self).view().insert(k@, *final(x)) && final(self).view().dom().contains(k@),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r ==> forall|k: Seq<char>| !self.view().dom().contains(k), !r ==> exists|k: Seq<char>| self.view().dom().contains(k) { unimplemented!() }
    /// the entries in the order of their keys
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: Vec<(String, V)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self.view().dom().contains((#[trigger] r@[i]).0@) && self.view()[r@[i].0@] == r@[i].1,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> before((#[trigger] r@[i]).0@, (#[trigger] r@[j]).0@),
            forall|k: Seq<char>| #[trigger] self.view().dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == k,
    { unimplemented!() }
}
pub trait ExtendVec<T>: Sized {
    spec fn xs(&self) -> Seq<T>;
    fn m_extend<L: AsList<T>>(&mut self, o: L)
        ensures final(self).xs() == old(self).xs() + o.al();
}
impl<T> ExtendVec<T> for Vec<T> {
    open spec fn xs(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn m_extend<L: AsList<T>>(&mut self, o: L) { unimplemented!() }
}
pub trait ContainsView {
    spec fn cnt(&self, s: Seq<char>) -> bool;
    fn m_contains(&self, s: &String) -> (r: bool) ensures r == self.cnt(s@);
}
impl ContainsView for Vec<String> {
    open spec fn cnt(&self, s: Seq<char>) -> bool { sv_strings(self@).contains(s) }
    #[verifier::external_body]
    fn m_contains(&self, s: &String) -> (r: bool) { unimplemented!() }
}
/// what the loop has distributed so far
pub open spec fn spread(d: Seq<HashData>, g: Grouping, groups: Map<Seq<char>, Vec<HashData>>, old: Seq<HashData>, comments: Seq<HashData>, last: Option<String>) -> bool {
    &&& forall|k: Seq<char>| #![trigger groups.dom().contains(k)] #![trigger is_group(d, g, k)] groups.dom().contains(k) == is_group(d, g, k)
    &&& forall|k: Seq<char>| #[trigger] groups.dom().contains(k) ==> groups[k]@ == going(d, g, Some(k))
    &&& old == going(d, g, None)
    &&& comments == pend(d)
    &&& match last { Some(s) => last_place(d, g) == Some(s@), None => last_place(d, g) is None }
}
pub open spec fn spread_all(d: Seq<HashData>, g: Grouping, groups: Map<Seq<char>, Vec<HashData>>, old: Seq<HashData>) -> bool {
    &&& forall|k: Seq<char>| #![trigger groups.dom().contains(k)] #![trigger is_group(d, g, k)] groups.dom().contains(k) == is_group(d, g, k)
    &&& forall|k: Seq<char>| #[trigger] groups.dom().contains(k) ==> groups[k]@ == gone(d, g, Some(k))
    &&& old == gone(d, g, None)
}
pub open spec fn grouped(d: HashData, k: Seq<char>, v: Vec<HashData>) -> bool {
    match d { HashData::Element(e) => e.key@ == k && e.value == anchored(None, v), _ => false }
}
/// the entries made from the groups, in the order of their names
pub open spec fn made_from(m: Seq<HashData>, s: Seq<(String, Vec<HashData>)>) -> bool {
    m.len() == s.len() && forall|i: int| 0 <= i < m.len() ==> #[trigger] grouped(m[i], s[i].0@, s[i].1)
}
pub open spec fn in_order(s: Seq<(String, Vec<HashData>)>, m: Map<Seq<char>, Vec<HashData>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0@) && m[s[i].0@] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> before((#[trigger] s[i]).0@, (#[trigger] s[j]).0@)
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k
}
