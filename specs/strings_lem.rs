pub proof fn lem_split_join(s: Seq<char>, c: char)
    ensures sp_split(s, c).len() > 0, sp_join(sp_split(s, c), seq![c]) =~= s
    decreases s.len()
{
    if s.len() > 0 {
        let p = sp_split(s.drop_last(), c);
        lem_split_join(s.drop_last(), c);
        assert(s =~= s.drop_last().push(s.last()));
        if s.last() == c {
            assert(p.push(Seq::<char>::empty()).drop_last() =~= p);
        } else {
            let q = p.drop_last().push(p.last().push(s.last()));
            assert(q.drop_last() =~= p.drop_last());
        }
    }
}
/// a text that ends with the separator ends with an empty piece, and the other pieces joined
/// and closed by the separator are the text
pub proof fn lem_split_last(s: Seq<char>, c: char)
    ensures s.len() > 0 && s.last() == c ==> {
        let p = sp_split(s, c);
        p.len() > 1 && p.last().len() == 0 && sp_join(p.drop_last(), seq![c]).push(c) =~= s
    }
{
    lem_split_join(s, c);
    if s.len() > 0 && s.last() == c {
        lem_split_join(s.drop_last(), c);
        let p = sp_split(s.drop_last(), c);
        assert(p.push(Seq::<char>::empty()).drop_last() =~= p);
    }
}
pub broadcast proof fn lem_sq_push(p: Seq<SingleQuotedStringPart>, x: SingleQuotedStringPart)
    ensures #[trigger] sq_value(p.push(x)) == sq_value(p) + sq_part(x)
{ assert(p.push(x).drop_last() =~= p); }
pub broadcast proof fn lem_dq_push(p: Seq<DoubleQuotedStringPart>, x: DoubleQuotedStringPart)
    ensures #[trigger] dq_value(p.push(x)) == dq_value(p) + dq_part(x)
{ assert(p.push(x).drop_last() =~= p); }
pub broadcast proof fn lem_strings_pop(v: Seq<String>)
    requires v.len() > 0
    ensures #[trigger] sv_strings(v.drop_last()) == sv_strings(v).drop_last()
{ assert(sv_strings(v.drop_last()) =~= sv_strings(v).drop_last()); }
pub broadcast proof fn lem_trim_none(s: Seq<char>, c: char)
    requires s.len() == 0 || s.last() != c
    ensures #[trigger] sp_trim_end(s, c) == s
{}
pub broadcast group strings_lemmas { lem_sq_push, lem_dq_push, lem_strings_pop, lem_trim_none }
