// ---------------------------------------------------------------------------
// Parse trees.  `Rule`, `kids_ok` and `text_ok` are generated from the grammar file on every run.
// Assumed of pest: it returns (or refuses to return) a tree for every text, and the trees have `shape`.
// ---------------------------------------------------------------------------
//@rewrite path catchains => on
//@rewrite path Error<Rule> => PErr
//@rewrite method parse/0 => .m_parse
impl Copy for Rule {}
impl Clone for Rule { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub struct Tree {
    pub rule: Rule,
    /// the text the node spans
    pub text: Seq<char>,
    /// the text before it
    pub pre: Seq<char>,
    pub kids: Seq<Tree>,
}
pub open spec fn shape(t: Tree) -> bool
    decreases t
{
    kids_ok(t.rule, t.kids) && text_ok(t.rule, t.text) && t.text.len() <= usize::MAX
        && forall|i: int| 0 <= i < t.kids.len() ==> shape(#[trigger] t.kids[i])
}
/// some node below cannot be read (see `bad_here`): reading is then an error
pub open spec fn bad(t: Tree) -> bool
    decreases t
{
    bad_here(t) || exists|i: int| 0 <= i < t.kids.len() && bad(#[trigger] t.kids[i])
}

/// pest_consume's `Node` (and what its methods return)
#[verifier::external_body]
pub struct Node { _p: () }
impl Copy for Node {}
impl Clone for Node { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl View for Node { type V = Tree; uninterp spec fn view(&self) -> Tree; }
impl Node {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'static str) ensures r@ == self@.text { unimplemented!() }
    #[verifier::external_body]
    pub fn into_children(self) -> (r: Vec<Node>)
        ensures r@.len() == self@.kids.len(), forall|i: int| #![trigger r@[i]] #![trigger self@.kids[i]] 0 <= i < r@.len() ==> r@[i]@ == self@.kids[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn error<M>(&self, m: M) -> PErr { unimplemented!() }
    #[verifier::external_body]
    pub fn is(&self, r: Rule) -> (b: bool) ensures b == (self@.rule == r) { unimplemented!() }
}
/// pest's `Error<Rule>`
#[verifier::external_body]
pub struct PErr { _p: () }
#[verifier::external_body]
pub fn m_nodes_error() -> PErr { unimplemented!() }

pub fn m_all_rule(v: &Vec<Node>, start: usize, end: usize, r: Rule) -> (b: bool)
    requires start + end <= v@.len()
    ensures b == forall|i: int| start <= i < v@.len() - end ==> (#[trigger] v@[i])@.rule == r
{
    let mut j = start;
    while j < v.len() - end
        invariant start <= j <= v@.len() - end, start + end <= v@.len(), forall|i: int| start <= i < j ==> (#[trigger] v@[i])@.rule == r
        decreases v@.len() - j
    {
        if !v[j].is(r) { return false; }
        j = j + 1;
    }
    true
}

// values of std types inside trees are known by their contents
#[verifier::external_body]
pub broadcast proof fn axiom_string_ext(a: String, b: String)
    requires #[trigger] a@ == #[trigger] b@
    ensures a == b
{}
#[verifier::external_body]
pub broadcast proof fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>)
    requires #[trigger] a@ == #[trigger] b@
    ensures a == b
{}
/// the string / vector with this content
pub open spec fn str_of(s: Seq<char>) -> String { choose|x: String| x@ == s }
pub open spec fn vec_of<T>(s: Seq<T>) -> Vec<T> { choose|x: Vec<T>| x@ == s }
pub broadcast proof fn l_str_of(x: String)
    ensures #![trigger x@] str_of(x@) == x
{ let y = str_of(x@); assert(y@ == x@); axiom_string_ext(x, y); }
pub broadcast proof fn l_vec_of<T>(x: Vec<T>)
    ensures #![trigger x@] vec_of(x@) == x
{ let y = vec_of(x@); assert(y@ == x@); axiom_vec_ext(x, y); }

// lists, concatenated
pub fn m_cat<T>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>) ensures r@ == a@ + b@ {
    let mut a = a;
    let mut b = b;
    a.append(&mut b);
    a
}
pub open spec fn flat<T>(s: Seq<Vec<T>>) -> Seq<T>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last()@ } }
pub fn m_flatten<T>(v: Vec<Vec<T>>) -> (r: Vec<T>) ensures r@ == flat(v@) {
    let mut out: Vec<T> = Vec::new();
    for x in it: v
        invariant out@ == flat(v@.take(it.index@))
    {
        proof { assert(v@.take(it.index@ + 1).drop_last() =~= v@.take(it.index@)); }
        let mut x = x;
        out.append(&mut x);
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    out
}

// numbers
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn digits_value(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { 10 * digits_value(s.drop_last()) + (s.last() as nat - '0' as nat) as nat } }
/// what `str::parse::<usize>` accepts
pub open spec fn usize_of(s: Seq<char>) -> Option<usize> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if d.len() > 0 && (forall|i: int| 0 <= i < d.len() ==> is_digit(#[trigger] d[i])) && digits_value(d) <= usize::MAX {
        Some(digits_value(d) as usize)
    } else {
        None
    }
}
#[verifier::external_body]
pub struct IntErr { _p: () }
pub trait FromDigits: Sized {
    spec fn of_digits(s: Seq<char>) -> Option<Self>;
}
impl FromDigits for usize { open spec fn of_digits(s: Seq<char>) -> Option<usize> { usize_of(s) } }
pub trait ParseShim {
    spec fn pv(&self) -> Seq<char>;
    fn m_parse<T: FromDigits>(&self) -> (r: Result<T, IntErr>)
        ensures match T::of_digits(self.pv()) { Some(n) => r is Ok && r->Ok_0 == n, None => r is Err };
}
impl ParseShim for str {
    open spec fn pv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn m_parse<T: FromDigits>(&self) -> (r: Result<T, IntErr>) { unimplemented!() }
}
/// what pest answers for a text
pub uninterp spec fn derivation(r: Rule, s: Seq<char>) -> Option<Tree>;
#[verifier::external_body]
pub struct Nodes { _p: () }
impl Nodes {
    pub uninterp spec fn tree(self) -> Tree;
    #[verifier::external_body]
    pub fn single(self) -> (r: Result<Node, PErr>) ensures r is Ok && r->Ok_0@ == self.tree() { unimplemented!() }
}
#[verifier::external_body]
pub fn m_pest(r: Rule, s: &str) -> (n: Result<Nodes, PErr>)
    ensures match derivation(r, s@) { Some(t) => n is Ok && n->Ok_0.tree() == t && shape(t) && t.rule == r, None => n is Err }
{ unimplemented!() }
