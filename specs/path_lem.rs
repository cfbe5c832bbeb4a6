// extensional equality of the lists inside a step
pub open spec fn conditions(v: YamlPath) -> Seq<Condition> {
    match v { YamlPath::Root(c) => c@, YamlPath::Key(_, c, _) => c@, YamlPath::AllIndexes(c, _) => c@, YamlPath::Indexes(_, c, _) => c@ }
}
pub open spec fn same_conditions(v: YamlPath, t: Tree) -> bool {
    conditions(v).len() == t.kids.len() - 1 && (forall|i: int| 0 <= i < conditions(v).len() ==> #[trigger] conditions(v)[i] == condition_of(t.kids[1 + i]))
}
pub proof fn l_key(v: YamlPath, t: Tree)
    ensures same_conditions(v, t) ==> conditions(v) == conditions_of(t, 1)
{ if same_conditions(v, t) { assert(conditions(v) =~= conditions_of(t, 1)); } }
pub proof fn l_part(v: YamlPath, t: Tree)
    ensures same_conditions(v, t) ==> conditions(v) == conditions_of(t, 1)
{ l_key(v, t); }
pub proof fn l_root(v: YamlPath, t: Tree)
    ensures same_conditions(v, t) ==> conditions(v) == conditions_of(t, 1)
{ l_key(v, t); }
pub proof fn l_path(v: YamlPath, t: Tree)
    requires t.kids.len() > 0
    ensures path_of(t).take(t.kids.len() as int) == path_of(t)
{ assert(path_of(t).take(t.kids.len() as int) =~= path_of(t)); }
