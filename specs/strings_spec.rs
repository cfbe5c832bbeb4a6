// ---------------------------------------------------------------------------
// What a plain text means to a reader without type hints, and where it can be
// written plainly (C02..C04, C13)
// ---------------------------------------------------------------------------
/// `s.parse::<T>()` (std): which texts it accepts
pub trait ParseT: Sized {
    spec fn parses(s: Seq<char>) -> bool;
    spec fn pval(s: Seq<char>) -> Self;
}
#[verifier::external_body]
pub struct ParseErr { _p: () }
pub uninterp spec fn int_text(s: Seq<char>) -> bool;
pub uninterp spec fn float_text(s: Seq<char>) -> bool;
pub uninterp spec fn int_value(s: Seq<char>) -> i64;
pub uninterp spec fn float_value(s: Seq<char>) -> f64;
/// the f32 it parses to (std accepts the same texts)
pub uninterp spec fn float32_value(s: Seq<char>) -> f32;
impl ParseT for i64 {
    open spec fn parses(s: Seq<char>) -> bool { int_text(s) }
    open spec fn pval(s: Seq<char>) -> i64 { int_value(s) }
}
impl ParseT for f64 {
    open spec fn parses(s: Seq<char>) -> bool { float_text(s) }
    open spec fn pval(s: Seq<char>) -> f64 { float_value(s) }
}
impl ParseT for f32 {
    open spec fn parses(s: Seq<char>) -> bool { float_text(s) }
    open spec fn pval(s: Seq<char>) -> f32 { float32_value(s) }
}
pub trait ParseShim {
    spec fn psv(&self) -> Seq<char>;
    fn m_parse<T: ParseT>(&self) -> (r: Result<T, ParseErr>)
        ensures r is Ok == T::parses(self.psv()), r is Ok ==> r->Ok_0 == T::pval(self.psv());
}
impl ParseShim for str {
    open spec fn psv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn m_parse<T: ParseT>(&self) -> (r: Result<T, ParseErr>) { unimplemented!() }
}
//@rewrite method parse => .m_parse

//@rewrite path super::can_be_unquoted_in_block => can_be_unquoted_in_block
//@rewrite path super::inline_breaking_chars => inline_breaking_chars

pub open spec fn null_text(s: Seq<char>) -> bool {
    s == seq!['~'] || s == seq!['n', 'u', 'l', 'l'] || s == seq!['N', 'u', 'l', 'l'] || s == seq!['N', 'U', 'L', 'L']
}
pub open spec fn true_text(s: Seq<char>) -> bool { s == seq!['t', 'r', 'u', 'e'] }
pub open spec fn false_text(s: Seq<char>) -> bool { s == seq!['f', 'a', 'l', 's', 'e'] }

/// the type a reader without type hints gives a scalar
pub enum Kind { Null, True, False, Int(i64), Float(f64), Str }
pub open spec fn plain_kind(s: Seq<char>) -> Kind {
    if null_text(s) { Kind::Null }
    else if true_text(s) { Kind::True }
    else if false_text(s) { Kind::False }
    else if int_text(s) { Kind::Int(int_value(s)) }
    else if float_text(s) { Kind::Float(float_value(s)) }
    else { Kind::Str }
}
pub open spec fn breaking_char(c: char) -> bool {
    c == ',' || c == '[' || c == ']' || c == '{' || c == '}' || c == '"' || c == '>' || c == '|'
}
/// contains a character that plain scalars in flow collections cannot have
pub open spec fn breaking(s: Seq<char>) -> bool {
    s.contains(',') || s.contains('[') || s.contains(']') || s.contains('{') || s.contains('}') || s.contains('"')
        || s.contains('>') || s.contains('|')
}
/// no number std parses contains one of those characters
#[verifier::external_body]
pub broadcast proof fn axiom_number_chars(s: Seq<char>)
    requires breaking(s)
    ensures !(#[trigger] int_text(s)), !(#[trigger] float_text(s))
{}
/// texts that stand for themselves when written plainly in a block collection
pub open spec fn block_plain(s: Seq<char>) -> bool {
    &&& s.len() > 0
    &&& forall|c: char| s.contains(c) && #[trigger] is_ws(c) ==> c == ' '
    &&& s[0] != ' ' && s.last() != ' '
    &&& s[0] != '[' && s[0] != ']' && s[0] != '{' && s[0] != '}' && s[0] != '"' && s[0] != '\''
    &&& s[0] != '>' && s[0] != '|' && s[0] != '&' && s[0] != '*'
    &&& s != seq!['-'] && !sp_starts(s, seq!['-', ' '])
    &&& s.last() != ':' && !sp_contains(s, seq![':', ' '])
    &&& !s.contains('#') && !s.contains('\n') && !s.contains('\r')
}
/// the same in a flow collection
pub open spec fn flow_plain(s: Seq<char>) -> bool { block_plain(s) && !breaking(s) }

/// part lists whose text can be written between quotes and read back part by part
pub open spec fn sq_ok(p: Seq<SingleQuotedStringPart>) -> bool {
    forall|i: int| 0 <= i < p.len() ==> match #[trigger] p[i] {
        SingleQuotedStringPart::String(s) => s@.len() > 0 && !s@.contains('\'') && !s@.contains('\n'),
        SingleQuotedStringPart::EscapedChar(_) => true,
        _ => false,
    }
}
pub open spec fn dq_ok(p: Seq<DoubleQuotedStringPart>) -> bool {
    forall|i: int| 0 <= i < p.len() ==> match #[trigger] p[i] {
        DoubleQuotedStringPart::String(s) => s@.len() > 0 && !s@.contains('"') && !s@.contains('\\') && !s@.contains('\n'),
        DoubleQuotedStringPart::EscapedChar(c) => !(c is RealNewline),
        _ => false,
    }
}
/// a scalar node made for a string that can be written anywhere in a document
pub open spec fn writable(y: Yaml) -> bool {
    match y {
        Yaml::UnquotedString(s) => flow_plain(s@),
        Yaml::SingleQuotedString(p) => sq_ok(p@),
        Yaml::DoubleQuotedString(p) => dq_ok(p@),
        _ => false,
    }
}
pub open spec fn node_kind(y: Yaml) -> Kind {
    match y { Yaml::UnquotedString(s) => plain_kind(s@), _ => Kind::Str }
}
