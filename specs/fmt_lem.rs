pub proof fn lem_join_spaces0(v: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == ch(' ')
    ensures sp_join(v, Seq::empty()) =~= blanks(v.len())
    decreases v.len()
{
    if v.len() > 1 {
        assert forall|i: int| 0 <= i < v.len() - 1 implies #[trigger] v.drop_last()[i] == ch(' ') by { assert(v[i] == ch(' ')); }
        lem_join_spaces0(v.drop_last());
        assert(v[v.len() - 1] == ch(' '));
    } else if v.len() == 1 { assert(v[0] == ch(' ')); }
}
pub broadcast proof fn lem_join_spaces(v: Seq<&str>)
    requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ =~= ch(' ')
    ensures #[trigger] sp_join(sv_strs(v), ""@) == blanks(v.len())
{
    reveal_strlit("");
    assert(""@ =~= Seq::<char>::empty());
    assert forall|i: int| 0 <= i < sv_strs(v).len() implies #[trigger] sv_strs(v)[i] == ch(' ') by { assert(v[i]@ =~= ch(' ')); }
    lem_join_spaces0(sv_strs(v));
}
pub broadcast proof fn lem_at_top(s: Seq<char>, p: Seq<char>)
    ensures
        #![trigger sp_starts(s, p)]
        p.len() == 2 ==> (sp_starts(s, p) <==> s.len() > 1 && s[0] == p[0] && s[1] == p[1]),
{ if p.len() == 2 && s.len() > 1 { assert(s.take(2)[0] == s[0] && s.take(2)[1] == s[1]); if s[0] == p[0] && s[1] == p[1] { assert(s.take(2) =~= p); } } }
pub broadcast proof fn lem_one_space(s: Seq<char>)
    ensures
        #![trigger sp_trim_ws_start(s)]
        s.len() > 1 && s[0] == ' ' && (s[1] == '[' || s[1] == '{') ==> sp_trim_ws_start(s) == s.skip(1),
{ broadcast use axiom_ws; if s.len() > 1 && s[0] == ' ' && (s[1] == '[' || s[1] == '{') { assert(is_ws(s[0])); assert(!is_ws(s[1])); assert(s.skip(1)[0] == s[1]); reveal_with_fuel(sp_trim_ws_start, 3); } }
pub broadcast proof fn lem_repeat_one(s: Seq<char>, n: nat)
    ensures #![trigger sp_repeat(s, n)] s.len() == 1 ==> sp_repeat(s, n) =~= Seq::new(n, |i: int| s[0])
    decreases n
{ if n > 0 { lem_repeat_one(s, (n - 1) as nat); } }
