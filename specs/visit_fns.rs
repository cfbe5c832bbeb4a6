//@rewrite bound FnMut(&AliasedYaml) => VisitFn
pub trait VisitYaml {
    spec fn nodes(&self) -> Seq<AliasedYaml>;
    fn visit_yaml<F: VisitFn>(&self, f: &mut F)
        ensures final(f).trace() =~= old(f).trace() + self.nodes();
}
// the generic `impl<T: VisitYaml> VisitYaml for Vec<T>` at the types it is used with
impl VisitYaml for Vec<HashData> {
    open spec fn nodes(&self) -> Seq<AliasedYaml> { nodes_hash(self@) }
//@extract fn yaml/mod.rs <Vec as VisitYaml>::visit_yaml
//@decreases: *self
//@loop * inv:= $p0.trace() =~= old($p0).trace() + $src@.take($it.index@).ns()
//@end
}
impl VisitYaml for Vec<ArrayData> {
    open spec fn nodes(&self) -> Seq<AliasedYaml> { nodes_array(self@) }
//@extract fn yaml/mod.rs <Vec as VisitYaml>::visit_yaml
//@decreases: *self
//@loop * inv:= $p0.trace() =~= old($p0).trace() + $src@.take($it.index@).ns()
//@end
}
impl VisitYaml for Vec<Yaml> {
    open spec fn nodes(&self) -> Seq<AliasedYaml> { nodes_flow_array(self@) }
//@extract fn yaml/mod.rs <Vec as VisitYaml>::visit_yaml
//@decreases: *self
//@loop * inv:= $p0.trace() =~= old($p0).trace() + $src@.take($it.index@).ns()
//@end
}
impl VisitYaml for HashData {
    open spec fn nodes(&self) -> Seq<AliasedYaml> { nodes_hd(*self) }
//@extract fn yaml/hash_data.rs <HashData as VisitYaml>::visit_yaml
//@decreases: *self
//@loop * inv:= $p0.trace() =~= old($p0).trace() + $src@.take($it.index@).ns()
//@end
}
impl VisitYaml for HashElement {
    open spec fn nodes(&self) -> Seq<AliasedYaml> { nodes_a(self.value) }
//@extract fn yaml/hash_element.rs <HashElement as VisitYaml>::visit_yaml
//@decreases: *self
//@loop * inv:= $p0.trace() =~= old($p0).trace() + $src@.take($it.index@).ns()
//@end
}
impl VisitYaml for ArrayData {
    open spec fn nodes(&self) -> Seq<AliasedYaml> { nodes_ad(*self) }
//@extract fn yaml/array_data.rs <ArrayData as VisitYaml>::visit_yaml
//@decreases: *self
//@loop * inv:= $p0.trace() =~= old($p0).trace() + $src@.take($it.index@).ns()
//@end
}
impl VisitYaml for AliasedYaml {
    open spec fn nodes(&self) -> Seq<AliasedYaml> { nodes_a(*self) }
//@extract fn yaml/aliased.rs <AliasedYaml as VisitYaml>::visit_yaml
//@decreases: *self
//@loop * inv:= $p0.trace() =~= old($p0).trace() + $src@.take($it.index@).ns()
//@end
}
impl VisitYaml for Yaml {
    open spec fn nodes(&self) -> Seq<AliasedYaml> { nodes_of(*self) }
//@extract fn yaml/mod.rs <Yaml as VisitYaml>::visit_yaml
//@decreases: *self
//@loop * inv:= $p0.trace() =~= old($p0).trace() + $src@.take($it.index@).ns()
//@end
}
