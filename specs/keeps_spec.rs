// ---------------------------------------------------------------------------
// C03: beautifying keeps the data.  C04: what beautified flow collections contain.
// ---------------------------------------------------------------------------
/// `r` holds the same data as `y`; only the layout may differ
pub open spec fn keeps(y: Yaml, r: Yaml) -> bool
    decreases y
{
    match (y, r) {
        (Yaml::Hash(d), Yaml::Hash(e)) => keeps_hash(d@, e@),
        (Yaml::Hash(d), Yaml::InlineHash(e)) => keeps_hash_flow(d@, e@),
        (Yaml::InlineHash(d), Yaml::InlineHash(e)) => keeps_flow_hash(d@, e@),
        (Yaml::Array(d), Yaml::Array(e)) => keeps_array(d@, e@),
        (Yaml::Array(d), Yaml::InlineArray(e)) => keeps_array_flow(d@, e@),
        (Yaml::InlineArray(d), Yaml::InlineArray(e)) => keeps_flow_array(d@, e@),
        (Yaml::Anchor(a), Yaml::Anchor(b)) => a == b,
        _ => scalar_value(y) is Some && scalar_value(r) =~= scalar_value(y) && node_kind(r) == node_kind(y),
    }
}
/// one item of a block mapping: comments stay, elements keep key, anchor and value
pub open spec fn keeps_hd(d: HashData, e: HashData) -> bool
    decreases d
{
    match (d, e) {
        (HashData::Element(a), HashData::Element(b)) =>
            a.key == b.key && a.value.alias == b.value.alias && keeps(a.value.value, b.value.value),
        (HashData::Element(_), _) => false,
        (a, b) => a == b,
    }
}
pub open spec fn keeps_ad(d: ArrayData, e: ArrayData) -> bool
    decreases d
{
    match (d, e) {
        (ArrayData::Element(a), ArrayData::Element(b)) => a.alias == b.alias && keeps(a.value, b.value),
        (ArrayData::Element(_), _) => false,
        (a, b) => a == b,
    }
}
pub open spec fn keeps_hash(d: Seq<HashData>, e: Seq<HashData>) -> bool
    decreases d
{ d.len() == e.len() && forall|i: int| 0 <= i < d.len() ==> keeps_hd(#[trigger] d[i], e[i]) }
pub open spec fn keeps_array(d: Seq<ArrayData>, e: Seq<ArrayData>) -> bool
    decreases d
{ d.len() == e.len() && forall|i: int| 0 <= i < d.len() ==> keeps_ad(#[trigger] d[i], e[i]) }
pub open spec fn keeps_flow_hash(d: Seq<(String, Yaml)>, e: Seq<(String, Yaml)>) -> bool
    decreases d
{ d.len() == e.len() && forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).0 == e[i].0 && keeps(d[i].1, e[i].1) }
pub open spec fn keeps_flow_array(d: Seq<Yaml>, e: Seq<Yaml>) -> bool
    decreases d
{ d.len() == e.len() && forall|i: int| 0 <= i < d.len() ==> keeps(#[trigger] d[i], e[i]) }
/// a block collection written as flow collection: comments are dropped, no anchor is lost
pub open spec fn keeps_hash_flow(d: Seq<HashData>, e: Seq<(String, Yaml)>) -> bool
    decreases d
{
    if d.len() == 0 { e.len() == 0 } else {
        match d.last() {
            HashData::Element(a) => a.value.alias is None && e.len() > 0 && keeps_hash_flow(d.drop_last(), e.drop_last())
                && a.key == e.last().0 && keeps(a.value.value, e.last().1),
            _ => keeps_hash_flow(d.drop_last(), e),
        }
    }
}
pub open spec fn keeps_array_flow(d: Seq<ArrayData>, e: Seq<Yaml>) -> bool
    decreases d
{
    if d.len() == 0 { e.len() == 0 } else {
        match d.last() {
            ArrayData::Element(a) => a.alias is None && e.len() > 0 && keeps_array_flow(d.drop_last(), e.drop_last())
                && keeps(a.value, e.last()),
            _ => keeps_array_flow(d.drop_last(), e),
        }
    }
}

/// the domain of C03: no anchor on a value inside a flow collection (which the grammar does not
/// allow either)
pub open spec fn p3(y: Yaml, inl: bool) -> bool
    decreases y
{
    match y {
        Yaml::Hash(d) => p3_hash(d@, inl),
        Yaml::Array(d) => p3_array(d@, inl),
        Yaml::InlineHash(d) => p3_flow_hash(d@),
        Yaml::InlineArray(d) => p3_flow_array(d@),
        _ => true,
    }
}
pub open spec fn p3_hd(d: HashData, inl: bool) -> bool
    decreases d
{ match d { HashData::Element(e) => (inl ==> e.value.alias is None) && p3(e.value.value, inl), _ => true } }
pub open spec fn p3_ad(d: ArrayData, inl: bool) -> bool
    decreases d
{ match d { ArrayData::Element(e) => (inl ==> e.alias is None) && p3(e.value, inl), _ => true } }
pub open spec fn p3_hash(d: Seq<HashData>, inl: bool) -> bool
    decreases d
{ forall|i: int| 0 <= i < d.len() ==> p3_hd(#[trigger] d[i], inl) }
pub open spec fn p3_array(d: Seq<ArrayData>, inl: bool) -> bool
    decreases d
{ forall|i: int| 0 <= i < d.len() ==> p3_ad(#[trigger] d[i], inl) }
pub open spec fn p3_flow_hash(d: Seq<(String, Yaml)>) -> bool
    decreases d
{ forall|i: int| 0 <= i < d.len() ==> p3((#[trigger] d[i]).1, true) }
pub open spec fn p3_flow_array(d: Seq<Yaml>) -> bool
    decreases d
{ forall|i: int| 0 <= i < d.len() ==> p3(#[trigger] d[i], true) }

