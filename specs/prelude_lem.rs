// ---------------------------------------------------------------------------
// Proved sequence lemmas, broadcast so that contracts need few local hints.
// ---------------------------------------------------------------------------
pub broadcast proof fn l_take_full<A>(s: Seq<A>, k: int)
    requires k == s.len()
    ensures #[trigger] s.take(k) == s
{ assert(s.take(k) =~= s); }

pub broadcast proof fn l_take_drop_last<A>(s: Seq<A>, k: int)
    requires 0 < k <= s.len()
    ensures #[trigger] s.take(k).drop_last() == s.take(k - 1)
{ assert(s.take(k).drop_last() =~= s.take(k - 1)); }

pub broadcast proof fn l_strs_take(v: Seq<&str>, k: int)
    requires 0 <= k <= v.len()
    ensures #[trigger] sv_strs(v.take(k)) == sv_strs(v).take(k)
{ assert(sv_strs(v.take(k)) =~= sv_strs(v).take(k)); }

pub broadcast proof fn l_strings_take(v: Seq<String>, k: int)
    requires 0 <= k <= v.len()
    ensures #[trigger] sv_strings(v.take(k)) == sv_strings(v).take(k)
{ assert(sv_strings(v.take(k)) =~= sv_strings(v).take(k)); }

pub broadcast proof fn l_starts_one(s: Seq<char>, p: Seq<char>)
    requires p.len() == 1
    ensures #[trigger] sp_starts(s, p) == (s.len() > 0 && s[0] == p[0])
{
    if s.len() > 0 && s[0] == p[0] { assert(s.take(1) =~= p); }
    if sp_starts(s, p) { assert(s.take(1)[0] == s[0]); }
}
pub broadcast proof fn l_ends_one(s: Seq<char>, p: Seq<char>)
    requires p.len() == 1
    ensures #[trigger] sp_ends(s, p) == (s.len() > 0 && s.last() == p[0])
{
    if s.len() > 0 && s.last() == p[0] { assert(s.skip(s.len() - 1) =~= p); }
    if sp_ends(s, p) { assert(s.skip(s.len() - 1)[0] == s.last()); }
}
pub broadcast proof fn l_contains_one(s: Seq<char>, p: Seq<char>)
    requires p.len() == 1
    ensures #[trigger] sp_contains(s, p) == s.contains(p[0])
{
    if s.contains(p[0]) {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == p[0];
        assert(s.subrange(i, i + 1) =~= p);
        assert(s.subrange(i, i + p.len()) == p);
    }
    if sp_contains(s, p) {
        let i = choose|i: int| 0 <= i <= s.len() - p.len() && #[trigger] s.subrange(i, i + p.len()) == p;
        assert(s.subrange(i, i + p.len())[0] == s[i]);
    }
}
pub broadcast proof fn l_push_is_add<A>(s: Seq<A>, a: A)
    ensures #[trigger] s.push(a) == s + seq![a]
{ assert(s.push(a) =~= s + seq![a]); }

pub broadcast group seq_lemmas { l_take_full, l_take_drop_last, l_strs_take, l_strings_take, l_starts_one, l_ends_one, l_contains_one }
