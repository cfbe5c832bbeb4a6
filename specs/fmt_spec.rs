// ---------------------------------------------------------------------------
// C16: the text of a tree
// ---------------------------------------------------------------------------
//@rewrite path std::fmt::Result => FmtResult
//@rewrite path std::fmt::Error => FmtError
//@rewrite call + => m_add
//@extract type yaml/aliased.rs Parent
impl Copy for Parent {}
impl Clone for Parent { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
//@extract type yaml/document.rs DocumentData
//@extract type yaml/document.rs Document
pub struct FmtError;
pub type FmtResult = Result<(), FmtError>;
/// writing to a string does not fail
pub fn w_ok() -> (r: FmtResult) ensures r is Ok { Ok(()) }
/// what `{}` writes
pub trait Disp {
    spec fn shown(&self) -> Seq<char>;
}
impl Disp for char { open spec fn shown(&self) -> Seq<char> { seq![*self] } }
impl Disp for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Disp for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<'a, T: Disp + ?Sized> Disp for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
pub trait WriteShim {
    spec fn written(&self) -> Seq<char>;
    fn w_ch(&mut self, c: char) ensures final(self).written() == old(self).written() + ch(c);
    fn w_disp<T: Disp + ?Sized>(&mut self, t: &T) ensures final(self).written() == old(self).written() + t.shown();
}
impl WriteShim for String {
    open spec fn written(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn w_ch(&mut self, c: char) { unimplemented!() }
    #[verifier::external_body]
    fn w_disp<T: Disp + ?Sized>(&mut self, t: &T) { unimplemented!() }
}
/// n spaces
pub open spec fn blanks(n: nat) -> Seq<char> { Seq::new(n, |i: int| ' ') }
pub open spec fn ch(c: char) -> Seq<char> { seq![c] }
pub open spec fn in_seq(p: Option<Parent>) -> bool { match p { Some(Parent::Array) => true, _ => false } }
/// t, and behind it the text of a node whose lines have indentation n; `dash`: it stands behind the dash of a sequence
pub open spec fn text(t: Seq<char>, y: Yaml, n: nat, dash: bool) -> Seq<char>
    decreases y
{
    match y {
        Yaml::UnquotedString(s) => t + ch(' ') + s@,
        Yaml::SingleQuotedString(p) => sq_text(t + ch(' ') + ch('\''), p@) + ch('\''),
        Yaml::DoubleQuotedString(p) => dq_text(t + ch(' ') + ch('"'), p@) + ch('"'),
        Yaml::LiteralString(l, c) => block_text(t, sv_strings(l@), spaced(sv_strings(l@)), '|', c, n),
        Yaml::FoldedString(l, c) => block_text(t, sv_strings(l@), spaced(sv_strings(l@)), '>', c, n),
        Yaml::Anchor(a) => t + ch(' ') + ch('*') + a@,
        Yaml::InlineArray(v) => if v@.len() == 0 { t + ch(' ') + ch('[') + ch(']') } else { flow_seq_text(t + ch(' ') + ch('['), v@) + ch(' ') + ch(']') },
        Yaml::InlineHash(v) => if v@.len() == 0 { t + ch(' ') + ch('{') + ch('}') } else { flow_map_text(t + ch(' ') + ch('{'), v@) + ch(' ') + ch('}') },
        Yaml::Array(v) => if v@.len() == 0 { t + ch(' ') + ch('[') + ch(']') } else { seq_text(t, v@, n, dash) },
        Yaml::Hash(v) => if v@.len() == 0 { t + ch(' ') + ch('{') + ch('}') } else { map_text(t, v@, n, dash) },
    }
}
pub open spec fn comma(t: Seq<char>, n: nat) -> Seq<char> { if n == 1 { t } else { t + ch(',') } }
pub open spec fn flow_seq_text(t: Seq<char>, v: Seq<Yaml>) -> Seq<char>
    decreases v
{ if v.len() == 0 { t } else { text(comma(flow_seq_text(t, v.drop_last()), v.len()), v.last(), 0, false) } }
pub open spec fn flow_map_text(t: Seq<char>, v: Seq<(String, Yaml)>) -> Seq<char>
    decreases v
{ if v.len() == 0 { t } else { text(comma(flow_map_text(t, v.drop_last()), v.len()) + ch(' ') + v.last().0@ + ch(':'), v.last().1, 0, false) } }
/// a value with its anchor
pub open spec fn anchored_text(t: Seq<char>, a: AliasedYaml, n: nat, dash: bool) -> Seq<char>
    decreases a
{ match a.alias { Some(s) => text(t + ch(' ') + ch('&') + s@, a.value, n + 2, false), None => text(t, a.value, n + 2, dash) } }
/// where an item starts: behind the dash, or on a line of its own
pub open spec fn starts(t: Seq<char>, first: bool, n: nat) -> Seq<char> { if first { t + ch(' ') } else { t + ch('\n') + blanks(n) } }
/// the text ends with a line of a block scalar
pub open spec fn block_end(y: Yaml) -> bool
    decreases y
{
    match y {
        Yaml::LiteralString(l, c) => true,
        Yaml::FoldedString(l, c) => true,
        Yaml::Hash(v) => v@.len() > 0 && block_end_m(v@.last()),
        Yaml::Array(v) => v@.len() > 0 && block_end_s(v@.last()),
        _ => false,
    }
}
pub open spec fn block_end_m(d: HashData) -> bool
    decreases d
{ match d { HashData::Element(e) => block_end(e.value.value), _ => false } }
pub open spec fn block_end_s(d: ArrayData) -> bool
    decreases d
{ match d { ArrayData::Element(e) => block_end(e.value), _ => false } }
/// a comment behind something: on a line of its own behind a block scalar
pub open spec fn behind(t: Seq<char>, c: Seq<char>, n: nat, own: bool) -> Seq<char> { if own { t + ch('\n') + blanks(n) + ch('#') + c } else { t + ch(' ') + ch('#') + c } }
pub open spec fn seq_item_text(t: Seq<char>, d: ArrayData, n: nat, first: bool, own: bool) -> Seq<char>
    decreases d
{
    match d {
        ArrayData::Element(e) => anchored_text(starts(t, first, n) + ch('-'), e, n, true),
        ArrayData::Comment(c) => t + ch('\n') + blanks(n) + ch('#') + c@,
        ArrayData::InlineComment(c) => behind(t, c@, n, own),
    }
}
pub open spec fn seq_text(t: Seq<char>, v: Seq<ArrayData>, n: nat, dash: bool) -> Seq<char>
    decreases v
{ if v.len() == 0 { t } else { seq_item_text(seq_text(t, v.drop_last(), n, dash), v.last(), n, dash && v.len() == 1, v.len() > 1 && block_end_s(v[v.len() - 2])) } }
pub open spec fn map_item_text(t: Seq<char>, d: HashData, n: nat, first: bool, own: bool) -> Seq<char>
    decreases d
{
    match d {
        HashData::Element(e) => anchored_text(starts(t, first, n) + e.key@ + ch(':'), e.value, n, false),
        HashData::Comment(c) => t + ch('\n') + blanks(n) + ch('#') + c@,
        HashData::InlineComment(c) => behind(t, c@, n, own),
    }
}
pub open spec fn map_text(t: Seq<char>, v: Seq<HashData>, n: nat, dash: bool) -> Seq<char>
    decreases v
{ if v.len() == 0 { t } else { map_item_text(map_text(t, v.drop_last(), n, dash), v.last(), n, dash && v.len() == 1, v.len() > 1 && block_end_m(v[v.len() - 2])) } }
pub open spec fn breaks(t: Seq<char>, n: nat) -> Seq<char>
    decreases n
{ if n == 0 { t } else { breaks(t, (n - 1) as nat) + ch('\n') } }
pub open spec fn sq_part_text(t: Seq<char>, p: SingleQuotedStringPart) -> Seq<char> {
    match p {
        SingleQuotedStringPart::String(s) => t + s@,
        SingleQuotedStringPart::EscapedChar(c) => t + ch('\'') + ch('\''),
        SingleQuotedStringPart::BlankLines(n) => breaks(t, (n + 1) as nat),
        SingleQuotedStringPart::RemovableNewline => t + ch('\n'),
    }
}
pub open spec fn sq_text(t: Seq<char>, p: Seq<SingleQuotedStringPart>) -> Seq<char>
    decreases p.len()
{ if p.len() == 0 { t } else { sq_part_text(sq_text(t, p.drop_last()), p.last()) } }
pub open spec fn escape_letter(c: DoubleQuotedStringEscapedChar) -> char {
    match c {
        DoubleQuotedStringEscapedChar::Quote => '"',
        DoubleQuotedStringEscapedChar::Backslash => '\\',
        DoubleQuotedStringEscapedChar::Tab => 't',
        DoubleQuotedStringEscapedChar::CarriageReturn => 'r',
        DoubleQuotedStringEscapedChar::Newline => 'n',
        DoubleQuotedStringEscapedChar::RealNewline => '\n',
    }
}
pub open spec fn dq_part_text(t: Seq<char>, p: DoubleQuotedStringPart) -> Seq<char> {
    match p {
        DoubleQuotedStringPart::String(s) => t + s@,
        DoubleQuotedStringPart::EscapedChar(c) => t + ch('\\') + ch(escape_letter(c)),
        DoubleQuotedStringPart::BlankLines(n) => breaks(t, (n + 1) as nat),
        DoubleQuotedStringPart::RemovableNewline => t + ch('\n'),
    }
}
pub open spec fn dq_text(t: Seq<char>, p: Seq<DoubleQuotedStringPart>) -> Seq<char>
    decreases p.len()
{ if p.len() == 0 { t } else { dq_part_text(dq_text(t, p.drop_last()), p.last()) } }
pub open spec fn chomp_sign(t: Seq<char>, c: BlockChomping) -> Seq<char> { match c { BlockChomping::Clip => t, BlockChomping::Strip => t + ch('-'), BlockChomping::Keep => t + ch('+') } }
/// the first line that is not empty starts with a space
pub open spec fn spaced(l: Seq<Seq<char>>) -> bool
    decreases l.len()
{ l.len() > 0 && (if l[0].len() == 0 { spaced(l.skip(1)) } else { l[0][0] == ' ' }) }
/// with an indentation indicator then
pub open spec fn indicator(t: Seq<char>, sp: bool) -> Seq<char> { if sp { t + ch('2') } else { t } }
pub open spec fn block_text(t: Seq<char>, l: Seq<Seq<char>>, sp: bool, style: char, c: BlockChomping, n: nat) -> Seq<char>
    decreases l.len()
{
    if l.len() == 0 { t }
    else if l.len() == 1 { indicator(chomp_sign(t + ch(' ') + ch(style), c), sp) + ch('\n') + blanks(n) + l[0] }
    else { block_text(t, l.drop_last(), sp, style, c, n) + ch('\n') + blanks(n) + l.last() }
}
pub open spec fn item_text(t: Seq<char>, d: DocumentData) -> Seq<char> { match d { DocumentData::Comment(c) => t + ch('\n') + ch('#') + c@, DocumentData::Yaml(y) => at_top(t, text(Seq::empty(), y, 0, false)) } }
/// a flow collection starts a line
pub open spec fn at_top(t: Seq<char>, s: Seq<char>) -> Seq<char> { if s.len() > 1 && s[0] == ' ' && (s[1] == '[' || s[1] == '{') { t + ch('\n') + s.skip(1) } else { t + s } }
pub open spec fn items_text(t: Seq<char>, d: Seq<DocumentData>) -> Seq<char>
    decreases d.len()
{ if d.len() == 0 { t } else { item_text(items_text(t, d.drop_last()), d.last()) } }
pub open spec fn comments_text(t: Seq<char>, d: Seq<String>) -> Seq<char>
    decreases d.len()
{ if d.len() == 0 { t } else { comments_text(t, d.drop_last()) + ch('#') + d.last()@ + ch('\n') } }
pub open spec fn document_text(d: Document) -> Seq<char> { items_text(comments_text(Seq::empty(), d.leading_comments@) + ch('-') + ch('-') + ch('-'), d.items@) }
/// n spaces, as a text or as a list of texts
pub trait Spaces { spec fn all_space(&self, n: int) -> bool; }
impl<'a> Spaces for Vec<&'a str> { open spec fn all_space(&self, n: int) -> bool { self@.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] self@[i])@ =~= ch(' ') } }
impl Spaces for Vec<String> { open spec fn all_space(&self, n: int) -> bool { self@.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] self@[i])@ =~= ch(' ') } }
impl Spaces for String { open spec fn all_space(&self, n: int) -> bool { self@ =~= blanks(n as nat) } }
//@rewrite method repeat/1 => .m_repeat
pub open spec fn sp_repeat(s: Seq<char>, n: nat) -> Seq<char>
    decreases n
{ if n == 0 { Seq::empty() } else { sp_repeat(s, (n - 1) as nat) + s } }
pub trait RepeatShim { fn m_repeat(&self, n: usize) -> String; }
impl RepeatShim for str {
    #[verifier::external_body]
    fn m_repeat(&self, n: usize) -> (r: String)
        ensures r@ == sp_repeat(self@, n as nat)
    { self.repeat(n) }
}
