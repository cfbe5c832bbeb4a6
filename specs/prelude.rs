// ---------------------------------------------------------------------------
// Trusted shims: specifications assumed for the standard library functions that
// vstd does not specify.  Every `external_body`/`axiom` here is part of the trusted
// base and is reported by the mechanical scan (see evidence/<id>.json).
// ---------------------------------------------------------------------------
//@rewrite method starts_with => .m_starts_with
//@rewrite method ends_with => .m_ends_with
//@rewrite method contains => .m_contains
//@rewrite method trim_end_matches => .m_trim_end_matches
//@rewrite method trim/0 => .m_trim
//@rewrite method trim_start/0 => .m_trim_start
//@rewrite method trim_end/0 => .m_trim_end
//@rewrite method trim_matches => .m_trim_matches
//@rewrite method trim_start_matches => .m_trim_start_matches
//@rewrite method strip_prefix => .m_strip_prefix
//@rewrite method strip_suffix => .m_strip_suffix
//@rewrite method to_lowercase => .m_to_lowercase
//@rewrite method to_uppercase => .m_to_uppercase
//@rewrite method to_ascii_lowercase => .m_to_ascii_lowercase
//@rewrite method to_ascii_uppercase => .m_to_ascii_uppercase
//@rewrite method eq_ignore_ascii_case => .m_eq_ignore_ascii_case
//@rewrite method is_whitespace => m_is_ws
//@rewrite path char::is_whitespace => WsPat
//@rewrite method split => .m_split
//@rewrite method join => m_join
//@rewrite method skip => .skip
//@rewrite call std::mem::take => m_mem_take
//@rewrite call mem::take => m_mem_take
//@rewrite call std::mem::replace => m_mem_replace
//@rewrite call mem::replace => m_mem_replace
//@rewrite call std::mem::swap => m_mem_swap
//@rewrite call mem::swap => m_mem_swap
//@rewrite call format! => m_any_string
//@rewrite path str::to_string => m_str_to_string
//@rewrite call String::with_capacity => m_string_with_capacity
//@rewrite path String::from => m_str_to_string

pub open spec fn nl() -> char { '\n' }

/// what a pattern argument (`&str` or `char`) denotes
pub trait PatArg {
    spec fn pat(&self) -> Seq<char>;
    /// a set of characters instead of a text?
    spec fn is_class(&self) -> bool;
    spec fn class(&self, c: char) -> bool;
}
impl<'a> PatArg for &'a str {
    open spec fn pat(&self) -> Seq<char> { (*self)@ }
    open spec fn is_class(&self) -> bool { false }
    open spec fn class(&self, c: char) -> bool { false }
}
impl PatArg for char {
    open spec fn pat(&self) -> Seq<char> { seq![*self] }
    open spec fn is_class(&self) -> bool { false }
    open spec fn class(&self, c: char) -> bool { false }
}

/// white space characters
pub uninterp spec fn is_ws(c: char) -> bool;
#[verifier::external_body]
pub broadcast proof fn axiom_ws(c: char)
    ensures #![trigger is_ws(c)] (c == ' ' ==> is_ws(c)) && (c == '[' || c == '{' ==> !is_ws(c))
{}
#[verifier::external_body]
pub fn m_is_ws(c: char) -> (r: bool)
    ensures r == is_ws(c)
{ c.is_whitespace() }
/// `char::is_whitespace` as a pattern
pub struct WsPat;
impl PatArg for WsPat {
    open spec fn pat(&self) -> Seq<char> { Seq::empty() }
    open spec fn is_class(&self) -> bool { true }
    open spec fn class(&self, c: char) -> bool { is_ws(c) }
}

/// any set of characters as a pattern
pub struct ClassPat { pub f: Ghost<spec_fn(char) -> bool> }
impl PatArg for ClassPat {
    open spec fn pat(&self) -> Seq<char> { Seq::empty() }
    open spec fn is_class(&self) -> bool { true }
    open spec fn class(&self, c: char) -> bool { (self.f@)(c) }
}
pub fn m_class(f: Ghost<spec_fn(char) -> bool>) -> (r: ClassPat)
    ensures r.f == f
{ ClassPat { f } }

pub open spec fn sp_has<P: PatArg>(s: Seq<char>, p: P) -> bool {
    exists|i: int| 0 <= i < s.len() && p.class(#[trigger] s[i])
}
pub open spec fn sp_starts(s: Seq<char>, p: Seq<char>) -> bool {
    p.len() <= s.len() && s.take(p.len() as int) == p
}
pub open spec fn sp_ends(s: Seq<char>, p: Seq<char>) -> bool {
    p.len() <= s.len() && s.skip(s.len() - p.len()) == p
}
pub open spec fn sp_contains(s: Seq<char>, p: Seq<char>) -> bool {
    exists|i: int| 0 <= i <= s.len() - p.len() && #[trigger] s.subrange(i, i + p.len()) == p
}
/// `trim_end_matches(c)` for a one-character pattern
pub open spec fn sp_trim_end(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && s.last() == c { sp_trim_end(s.drop_last(), c) } else { s }
}
pub open spec fn sp_trim_start(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && s[0] == c { sp_trim_start(s.skip(1), c) } else { s } }
/// without white space at the end / at the start
pub open spec fn sp_trim_ws(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && is_ws(s.last()) { sp_trim_ws(s.drop_last()) } else { s } }
pub open spec fn sp_trim_ws_start(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && is_ws(s[0]) { sp_trim_ws_start(s.skip(1)) } else { s } }
/// case conversions (nothing is known of them)
pub uninterp spec fn sp_lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn sp_upper(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn sp_ascii_lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn sp_ascii_upper(s: Seq<char>) -> Seq<char>;
/// `split(c)` for a one-character pattern
pub open spec fn sp_split(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 {
        seq![Seq::<char>::empty()]
    } else {
        let p = sp_split(s.drop_last(), c);
        if s.last() == c {
            p.push(Seq::<char>::empty())
        } else {
            p.drop_last().push(p.last().push(s.last()))
        }
    }
}
pub open spec fn sp_join(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 {
        Seq::empty()
    } else if v.len() == 1 {
        v[0]
    } else {
        sp_join(v.drop_last(), sep) + sep + v.last()
    }
}

pub trait StrShim {
    spec fn sv(&self) -> Seq<char>;
    fn m_starts_with<P: PatArg>(&self, p: P) -> (r: bool)
        ensures r == if p.is_class() { self.sv().len() > 0 && p.class(self.sv()[0]) } else { sp_starts(self.sv(), p.pat()) };
    fn m_ends_with<P: PatArg>(&self, p: P) -> (r: bool)
        ensures r == if p.is_class() { self.sv().len() > 0 && p.class(self.sv().last()) } else { sp_ends(self.sv(), p.pat()) };
    fn m_contains<P: PatArg>(&self, p: P) -> (r: bool)
        ensures r == if p.is_class() { sp_has(self.sv(), p) } else { sp_contains(self.sv(), p.pat()) };
    fn m_trim_end_matches<P: PatArg>(&self, p: P) -> (r: &str)
        ensures !p.is_class() && p.pat().len() == 1 ==> r@ == sp_trim_end(self.sv(), p.pat()[0]);
    fn m_trim(&self) -> (r: &str) ensures r@ == sp_trim_ws(sp_trim_ws_start(self.sv()));
    fn m_trim_start(&self) -> (r: &str) ensures r@ == sp_trim_ws_start(self.sv());
    fn m_trim_end(&self) -> (r: &str) ensures r@ == sp_trim_ws(self.sv());
    fn m_trim_matches<P: PatArg>(&self, p: P) -> (r: &str)
        ensures !p.is_class() && p.pat().len() == 1 ==> r@ == sp_trim_end(sp_trim_start(self.sv(), p.pat()[0]), p.pat()[0]);
    fn m_trim_start_matches<P: PatArg>(&self, p: P) -> (r: &str)
        ensures !p.is_class() && p.pat().len() == 1 ==> r@ == sp_trim_start(self.sv(), p.pat()[0]);
    fn m_strip_prefix<P: PatArg>(&self, p: P) -> (r: Option<&str>)
        ensures !p.is_class() ==> r is Some == sp_starts(self.sv(), p.pat()) && (r is Some ==> r->Some_0@ == self.sv().skip(p.pat().len() as int));
    fn m_strip_suffix<P: PatArg>(&self, p: P) -> (r: Option<&str>)
        ensures !p.is_class() ==> r is Some == sp_ends(self.sv(), p.pat()) && (r is Some ==> r->Some_0@ == self.sv().take(self.sv().len() - p.pat().len()));
    fn m_to_lowercase(&self) -> (r: String) ensures r@ == sp_lower(self.sv());
    fn m_to_uppercase(&self) -> (r: String) ensures r@ == sp_upper(self.sv());
    fn m_to_ascii_lowercase(&self) -> (r: String) ensures r@ == sp_ascii_lower(self.sv());
    fn m_to_ascii_uppercase(&self) -> (r: String) ensures r@ == sp_ascii_upper(self.sv());
    fn m_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (sp_ascii_lower(self.sv()) == sp_ascii_lower(o@));
    fn m_split<P: PatArg>(&self, p: P) -> (r: Vec<&str>)
        ensures !p.is_class() && p.pat().len() == 1 ==> sv_strs(r@) == sp_split(self.sv(), p.pat()[0]);
}
impl StrShim for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn m_starts_with<P: PatArg>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn m_ends_with<P: PatArg>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn m_contains<P: PatArg>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn m_trim_end_matches<P: PatArg>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn m_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn m_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn m_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn m_trim_matches<P: PatArg>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn m_trim_start_matches<P: PatArg>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn m_strip_prefix<P: PatArg>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn m_strip_suffix<P: PatArg>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn m_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn m_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn m_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn m_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn m_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn m_split<P: PatArg>(&self, p: P) -> (r: Vec<&str>) { unimplemented!() }
}
pub open spec fn sv_strs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn sv_strings(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }

pub open spec fn sv_refs(v: Seq<&String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| (*v[i])@) }

pub trait JoinArg {
    spec fn jv(&self) -> Seq<Seq<char>>;
}
impl<'a> JoinArg for Vec<&'a str> {
    open spec fn jv(&self) -> Seq<Seq<char>> { sv_strs(self@) }
}
impl JoinArg for Vec<String> {
    open spec fn jv(&self) -> Seq<Seq<char>> { sv_strings(self@) }
}
#[verifier::external_body]
pub fn m_join<V: JoinArg>(v: V, sep: &str) -> (r: String)
    ensures r@ == sp_join(v.jv(), sep@)
{ unimplemented!() }

//@rewrite method to_string => .m_text
/// `to_string` (std): the text a value is displayed as
pub trait TextOf {
    spec fn text(&self) -> Seq<char>;
    fn m_text(&self) -> (r: String) ensures r@ == self.text();
}
impl TextOf for char {
    open spec fn text(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body]
    fn m_text(&self) -> (r: String) { unimplemented!() }
}
impl TextOf for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn m_text(&self) -> (r: String) { unimplemented!() }
}
impl TextOf for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn m_text(&self) -> (r: String) { unimplemented!() }
}
//@rewrite method reverse => .m_reverse
pub trait ReverseShim<T> {
    spec fn rv(&self) -> Seq<T>;
    fn m_reverse(&mut self) ensures final(self).rv() == old(self).rv().reverse();
}
impl<T> ReverseShim<T> for Vec<T> {
    open spec fn rv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn m_reverse(&mut self) { unimplemented!() }
}
/// what can be appended to a list
pub trait AsList<T> { spec fn al(&self) -> Seq<T>; }
impl<T> AsList<T> for Vec<T> { open spec fn al(&self) -> Seq<T> { self@ } }
impl<T> AsList<T> for Option<T> { open spec fn al(&self) -> Seq<T> { match *self { Some(x) => seq![x], None => Seq::empty() } } }
pub trait EmptyDefault: Sized { spec fn is_default(&self) -> bool; }
impl EmptyDefault for String { open spec fn is_default(&self) -> bool { self@ == Seq::<char>::empty() } }
impl<T> EmptyDefault for Vec<T> { open spec fn is_default(&self) -> bool { self@ == Seq::<T>::empty() } }
impl<T> EmptyDefault for Option<T> { open spec fn is_default(&self) -> bool { *self == None::<T> } }
impl EmptyDefault for usize { open spec fn is_default(&self) -> bool { *self == 0 } }
impl EmptyDefault for bool { open spec fn is_default(&self) -> bool { !*self } }
#[verifier::external_body]
pub fn m_mem_take<T: EmptyDefault>(s: &mut T) -> (r: T)
    ensures r == *old(s), final(s).is_default()
{ unimplemented!() }
#[verifier::external_body]
pub fn m_mem_replace<T>(s: &mut T, v: T) -> (r: T)
    ensures r == *old(s), *final(s) == v
{ unimplemented!() }
#[verifier::external_body]
pub fn m_mem_swap<T>(a: &mut T, b: &mut T)
    ensures *final(a) == *old(b), *final(b) == *old(a)
{ unimplemented!() }

#[verifier::external_body]
pub fn m_string_with_capacity(n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty()
{ String::new() }
#[verifier::external_body]
pub fn m_any_string() -> (r: String) { unimplemented!() }

#[verifier::external_body]
pub fn m_str_to_string(s: &str) -> (r: String)
    ensures r@ == s@
{ s.to_string() }

/// `a == b` where an operand is a reference to a string
pub trait EqView {
    spec fn ev(&self) -> Seq<char>;
}
impl EqView for String {
    open spec fn ev(&self) -> Seq<char> { self@ }
}
impl EqView for str {
    open spec fn ev(&self) -> Seq<char> { self@ }
}
impl<'a, T: EqView + ?Sized> EqView for &'a T {
    open spec fn ev(&self) -> Seq<char> { (**self).ev() }
}
#[verifier::external_body]
pub fn m_eq<A: EqView + ?Sized, B: EqView + ?Sized>(a: &A, b: &B) -> (r: bool)
    ensures r == (a.ev() == b.ev())
{ unimplemented!() }

#[verifier::external_body]
pub fn m_enumerate<I: Iterator>(it: I) -> (r: Vec<(usize, I::Item)>)
    ensures
        r@.len() == it.remaining().len(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == it.remaining()[i],
{ it.enumerate().collect() }

#[verifier::external_body]
pub fn m_rev<I: DoubleEndedIterator>(it: I) -> (r: Vec<I::Item>)
    ensures r@ == it.remaining().reverse()
{ it.rev().collect() }
#[verifier::external_body]
pub fn m_take<I: Iterator>(it: I, n: usize) -> (r: Vec<I::Item>)
    ensures r@ == it.remaining().take(if n < it.remaining().len() { n as int } else { it.remaining().len() as int })
{ it.take(n).collect() }
#[verifier::external_body]
pub fn m_rev_list<T>(v: Vec<T>) -> (r: Vec<T>)
    ensures r@ == v@.reverse()
{ v.into_iter().rev().collect() }
#[verifier::external_body]
pub fn m_take_list<T>(v: Vec<T>, n: usize) -> (r: Vec<T>)
    ensures r@ == v@.take(if n < v@.len() { n as int } else { v@.len() as int })
{ v.into_iter().take(n).collect() }
#[verifier::external_body]
pub fn m_skip_list<T>(v: Vec<T>, n: usize) -> (r: Vec<T>)
    ensures r@ == v@.skip(if n < v@.len() { n as int } else { v@.len() as int })
{ v.into_iter().skip(n).collect() }
/// classes of characters (nothing is known of those that are not ASCII)
pub uninterp spec fn sp_alphabetic(c: char) -> bool;
pub uninterp spec fn sp_numeric(c: char) -> bool;
pub uninterp spec fn sp_control(c: char) -> bool;
pub uninterp spec fn sp_upper_char(c: char) -> bool;
pub uninterp spec fn sp_lower_char(c: char) -> bool;
pub open spec fn sp_alnum(c: char) -> bool { sp_alphabetic(c) || sp_numeric(c) }
pub open spec fn sp_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn sp_ascii_alpha(c: char) -> bool { 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }
pub open spec fn sp_ascii_alnum(c: char) -> bool { sp_digit(c) || sp_ascii_alpha(c) }
pub open spec fn sp_ascii_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\u{c}' }
pub open spec fn sp_ascii_punct(c: char) -> bool { '!' <= c && c <= '~' && !sp_ascii_alnum(c) }
//@rewrite path char::is_alphabetic => AlphaPat
//@rewrite path char::is_numeric => NumericPat
//@rewrite path char::is_alphanumeric => AlnumPat
//@rewrite path char::is_control => ControlPat
//@rewrite path char::is_uppercase => UpperPat
//@rewrite path char::is_lowercase => LowerPat
//@for P in AlphaPat:sp_alphabetic NumericPat:sp_numeric AlnumPat:sp_alnum ControlPat:sp_control UpperPat:sp_upper_char LowerPat:sp_lower_char
pub struct %P0;
impl PatArg for %P0 {
    open spec fn pat(&self) -> Seq<char> { Seq::empty() }
    open spec fn is_class(&self) -> bool { true }
    open spec fn class(&self, c: char) -> bool { %P1(c) }
}
//@endfor
pub trait CharArg { spec fn cc(&self) -> char; }
impl CharArg for char { open spec fn cc(&self) -> char { *self } }
impl<'a> CharArg for &'a char { open spec fn cc(&self) -> char { **self } }
//@for M in is_alphabetic:sp_alphabetic is_numeric:sp_numeric is_alphanumeric:sp_alnum is_control:sp_control is_uppercase:sp_upper_char is_lowercase:sp_lower_char is_ascii_digit:sp_digit is_ascii_alphabetic:sp_ascii_alpha is_ascii_alphanumeric:sp_ascii_alnum is_ascii_whitespace:sp_ascii_ws is_ascii_punctuation:sp_ascii_punct
//@rewrite method %M0 => m_%M0
#[verifier::external_body]
pub fn m_%M0<C: CharArg>(c: C) -> (r: bool) ensures r == %M1(c.cc()) { unimplemented!() }
//@endfor
#[verifier::external_body]
pub fn m_inc(n: usize) -> (r: usize)
    ensures r == n + 1
{ n + 1 }

/// machine addition of element counts, treated as mathematical addition
#[verifier::external_body]
pub fn m_add(a: usize, b: usize) -> (r: usize)
    ensures r == a + b
{ a + b }

