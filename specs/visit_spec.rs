// ---------------------------------------------------------------------------
// C11: the sequence of nodes a visitor is given
// ---------------------------------------------------------------------------
/// Stands for `F: FnMut(&AliasedYaml)`: any caller-supplied code; the ghost trace records its calls.
pub trait VisitFn {
    spec fn trace(&self) -> Seq<AliasedYaml>;
    fn m_call(&mut self, x: &AliasedYaml)
        ensures final(self).trace() == old(self).trace().push(*x);
}
//@include nodes_spec.rs
/// the same for whatever a loop runs over
pub trait HasNodes {
    spec fn ns(&self) -> Seq<AliasedYaml>;
}
impl HasNodes for Seq<HashData> { open spec fn ns(&self) -> Seq<AliasedYaml> { nodes_hash(*self) } }
impl HasNodes for Seq<ArrayData> { open spec fn ns(&self) -> Seq<AliasedYaml> { nodes_array(*self) } }
impl HasNodes for Seq<(String, Yaml)> { open spec fn ns(&self) -> Seq<AliasedYaml> { nodes_flow_hash(*self) } }
impl HasNodes for Seq<Yaml> { open spec fn ns(&self) -> Seq<AliasedYaml> { nodes_flow_array(*self) } }
