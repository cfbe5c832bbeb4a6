/// the nodes visited below a node, in order: every mapping value and sequence element of
/// block collections (itself before what is inside it), through flow collections
pub open spec fn nodes_of(y: Yaml) -> Seq<AliasedYaml>
    decreases y
{
    match y {
        Yaml::Hash(d) => nodes_hash(d@),
        Yaml::Array(d) => nodes_array(d@),
        Yaml::InlineHash(d) => nodes_flow_hash(d@),
        Yaml::InlineArray(d) => nodes_flow_array(d@),
        _ => Seq::empty(),
    }
}
pub open spec fn nodes_a(a: AliasedYaml) -> Seq<AliasedYaml>
    decreases a
{ seq![a] + nodes_of(a.value) }
pub open spec fn nodes_hd(d: HashData) -> Seq<AliasedYaml>
    decreases d
{ match d { HashData::Element(e) => nodes_a(e.value), _ => Seq::empty() } }
pub open spec fn nodes_ad(d: ArrayData) -> Seq<AliasedYaml>
    decreases d
{ match d { ArrayData::Element(e) => nodes_a(e), _ => Seq::empty() } }
pub open spec fn nodes_hash(d: Seq<HashData>) -> Seq<AliasedYaml>
    decreases d
{ if d.len() == 0 { Seq::empty() } else { nodes_hash(d.drop_last()) + nodes_hd(d.last()) } }
pub open spec fn nodes_array(d: Seq<ArrayData>) -> Seq<AliasedYaml>
    decreases d
{ if d.len() == 0 { Seq::empty() } else { nodes_array(d.drop_last()) + nodes_ad(d.last()) } }
pub open spec fn nodes_flow_hash(d: Seq<(String, Yaml)>) -> Seq<AliasedYaml>
    decreases d
{ if d.len() == 0 { Seq::empty() } else { nodes_flow_hash(d.drop_last()) + nodes_of(d.last().1) } }
pub open spec fn nodes_flow_array(d: Seq<Yaml>) -> Seq<AliasedYaml>
    decreases d
{ if d.len() == 0 { Seq::empty() } else { nodes_flow_array(d.drop_last()) + nodes_of(d.last()) } }
