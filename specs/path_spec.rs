//@rewrite call PathParser::parse => m_pest
//@extract type path.rs Condition
//@extract type path.rs YamlPath
/// one step of a path
pub enum Step { Root(Seq<Condition>), Key(Seq<char>, Seq<Condition>), All(Seq<Condition>), Idx(Seq<usize>, Seq<Condition>) }
pub open spec fn steps(p: YamlPath) -> Seq<Step>
    decreases p
{
    match p {
        YamlPath::Root(c) => seq![Step::Root(c@)],
        YamlPath::Key(k, c, o) => seq![Step::Key(k@, c@)] + steps_opt(o),
        YamlPath::AllIndexes(c, o) => seq![Step::All(c@)] + steps_opt(o),
        YamlPath::Indexes(i, c, o) => seq![Step::Idx(i@, c@)] + steps_opt(o),
    }
}
pub open spec fn steps_opt(o: Option<Box<YamlPath>>) -> Seq<Step>
    decreases o
{
    match o { Some(q) => steps(*q), None => Seq::empty() }
}
/// the steps of the first path followed by those of the second; a root (only possible as the last step) gives way
pub open spec fn appended(a: Seq<Step>, b: Seq<Step>) -> Seq<Step> {
    if a.len() > 0 && a.last() is Root { a.drop_last() + b } else { a + b }
}

// ---------------------------------------------------------------------------
// the steps a parsed path text stands for
// ---------------------------------------------------------------------------
/// an index that does not fit the machine
pub open spec fn bad_here(t: Tree) -> bool { t.rule == Rule::index_number && usize_of(word_of(t)) is None }

/// a key, field, value or index: spaces before a separator are not part of it
pub open spec fn word_of(t: Tree) -> Seq<char> { sp_trim_end(t.text, ' ') }
pub open spec fn condition_of(t: Tree) -> Condition { Condition { field: str_of(word_of(t.kids[0])), value: str_of(word_of(t.kids[1])) } }
/// the conditions written after the first `n` children
pub open spec fn conditions_of(t: Tree, n: int) -> Seq<Condition> { Seq::new((t.kids.len() - n) as nat, |i: int| condition_of(t.kids[n + i])) }
pub open spec fn key_of(t: Tree) -> Step { Step::Key(word_of(t.kids[0]), conditions_of(t, 1)) }
pub open spec fn part_of(t: Tree) -> Step {
    if t.kids[0].rule == Rule::index_all {
        Step::All(conditions_of(t, 1))
    } else if t.kids[0].rule == Rule::index_number {
        Step::Idx(seq![usize_of(word_of(t.kids[0]))->0], conditions_of(t, 1))
    } else {
        key_of(t.kids[0])
    }
}
pub open spec fn path_of(t: Tree) -> Seq<Step> {
    seq![key_of(t.kids[0])] + Seq::new((t.kids.len() - 1) as nat, |i: int| part_of(t.kids[1 + i]))
}
pub open spec fn final_of(t: Tree) -> Seq<Step> {
    if t.kids[0].rule == Rule::root { seq![Step::Root(conditions_of(t.kids[0], 1))] } else { path_of(t.kids[0]) }
}
// what the function for each rule returns
pub open spec fn ok_EOI(v: (), t: Tree) -> bool { true }
pub open spec fn ok_index_all(v: (), t: Tree) -> bool { true }
pub open spec fn ok_root_key(v: (), t: Tree) -> bool { true }
pub open spec fn ok_pure_key(v: String, t: Tree) -> bool { v@ == word_of(t) }
pub open spec fn ok_field(v: String, t: Tree) -> bool { v@ == word_of(t) }
pub open spec fn ok_value(v: String, t: Tree) -> bool { v@ == word_of(t) }
pub open spec fn ok_condition(v: Condition, t: Tree) -> bool { v == condition_of(t) }
pub open spec fn ok_key(v: YamlPath, t: Tree) -> bool { steps(v) =~= seq![key_of(t)] }
pub open spec fn ok_index_number(v: Vec<usize>, t: Tree) -> bool { v@ =~= seq![usize_of(word_of(t))->0] }
pub open spec fn ok_part(v: YamlPath, t: Tree) -> bool { steps(v) =~= seq![part_of(t)] }
pub open spec fn ok_path(v: YamlPath, t: Tree) -> bool { steps(v) =~= path_of(t) }
pub open spec fn ok_root(v: YamlPath, t: Tree) -> bool { steps(v) =~= seq![Step::Root(conditions_of(t, 1))] }
pub open spec fn ok_final_path(v: YamlPath, t: Tree) -> bool { steps(v) =~= final_of(t) }
pub struct PathParser;
pub type PathResult<T> = Result<T, PErr>;
/// what parsing a text as a path gives
pub open spec fn ok_path_text(r: PathResult<YamlPath>, s: Seq<char>) -> bool {
    match derivation(Rule::final_path, s) {
        Some(t) => match r { Ok(v) => ok_final_path(v, t) && !bad(t), Err(_) => bad(t) },
        None => r is Err,
    }
}
