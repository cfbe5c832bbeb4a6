// ---------------------------------------------------------------------------
// What each node of the parse tree of a document stands for
// ---------------------------------------------------------------------------
//@rewrite call YamlParser::parse => m_pest
//@rewrite call += => m_add
//@extract type yaml/document.rs DocumentData
//@extract type yaml/document.rs Document
pub struct YamlParser;
pub type InternalYamlResult<T> = Result<T, PErr>;
#[verifier::external_body]
pub struct YamlError { _p: () }
pub type YamlResult<T> = Result<T, YamlError>;
pub type DocumentResult = YamlResult<Document>;
pub type ArrayDash = (usize, Option<String>);
pub type ArrayRow = (Vec<ArrayDash>, Vec<ArrayData>);
pub type OpenArray = (usize, Option<String>, Vec<ArrayData>);
impl From<PErr> for YamlError { #[verifier::external_body] fn from(e: PErr) -> YamlError { unimplemented!() } }


// --- pest spans ---
#[verifier::external_body]
pub struct Span { _p: () }
impl Span {
    pub uninterp spec fn pre(&self) -> Seq<char>;
    pub uninterp spec fn post(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn start(&self) -> (r: usize) ensures r == bytes(self.pre()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_input(&self) -> (r: &'static str) ensures r@ == self.pre() + self.post() { unimplemented!() }
}
impl Node {
    #[verifier::external_body]
    pub fn as_span(&self) -> (r: Span) ensures r.pre() == self@.pre { unimplemented!() }
}

// --- comments, keys, names ---
pub open spec fn comment_of(t: Tree) -> String { str_of(t.kids[0].text) }
pub open spec fn comments_of(t: Tree) -> Seq<String> { Seq::new(t.kids.len(), |i: int| comment_of(t.kids[i])) }

// --- quoted strings ---
pub open spec fn dq_char(c: char) -> DoubleQuotedStringEscapedChar {
    if c == 'n' { DoubleQuotedStringEscapedChar::Newline }
    else if c == '\n' { DoubleQuotedStringEscapedChar::RealNewline }
    else if c == 'r' { DoubleQuotedStringEscapedChar::CarriageReturn }
    else if c == 't' { DoubleQuotedStringEscapedChar::Tab }
    else if c == '\\' { DoubleQuotedStringEscapedChar::Backslash }
    else { DoubleQuotedStringEscapedChar::Quote }
}
pub open spec fn dq_part_of(t: Tree) -> DoubleQuotedStringPart {
    let k = t.kids[0];
    match k.rule {
        Rule::escaped_double_quote_char_value => DoubleQuotedStringPart::EscapedChar(dq_char(k.text[0])),
        Rule::double_quote_text => DoubleQuotedStringPart::String(str_of(k.text)),
        Rule::blank_lines => DoubleQuotedStringPart::BlankLines((k.text.len() - 1) as usize),
        _ => DoubleQuotedStringPart::RemovableNewline,
    }
}
pub open spec fn sq_part_of(t: Tree) -> SingleQuotedStringPart {
    let k = t.kids[0];
    match k.rule {
        Rule::single_quote => SingleQuotedStringPart::EscapedChar(SingleQuotedStringEscapedChar::SingleQuote),
        Rule::single_quote_text => SingleQuotedStringPart::String(str_of(k.text)),
        Rule::blank_lines => SingleQuotedStringPart::BlankLines((k.text.len() - 1) as usize),
        _ => SingleQuotedStringPart::RemovableNewline,
    }
}

// --- block scalars: every line as written, blank lines included ---
pub open spec fn empties(n: nat) -> Seq<String> { Seq::new(n, |i: int| str_of(Seq::<char>::empty())) }
/// the lines of a node of a block scalar
pub open spec fn lines_of(t: Tree) -> Seq<String>
    decreases t
{
    match t.rule {
        Rule::block_string => seq![str_of(t.text)],
        Rule::block_leading_lines => empties(t.kids.len()),
        Rule::block_short_lines => empties(t.kids.len()),
        Rule::block_empty_lines => empties(breaks(t.text)),
        Rule::string_multiline_trailing => empties(breaks(t.text)),
        _ => lines_all(t.kids),
    }
}
pub open spec fn lines_all(k: Seq<Tree>) -> Seq<String>
    decreases k
{ if k.len() == 0 { Seq::empty() } else { lines_all(k.drop_last()) + lines_of(k.last()) } }
/// a line below `n` bytes of indentation: only white space is taken off
pub open spec fn strip_from(s: Seq<char>, j: int, n: int) -> int
    decreases s.len() - j
{ if j < 0 || j >= s.len() || bytes(s.take(j)) >= n || !is_ws(s[j]) { j } else { strip_from(s, j + 1, n) } }
pub open spec fn stripped(s: Seq<char>, n: int) -> Seq<char> { s.skip(strip_from(s, 0, n)) }
pub open spec fn all_stripped(v: Seq<String>, n: int) -> Seq<String> { Seq::new(v.len(), |i: int| str_of(stripped(v[i]@, n))) }
pub open spec fn chomping_of(t: Tree) -> BlockChomping {
    if t.kids[0].rule != Rule::string_block_chomping { BlockChomping::Clip }
    else if t.kids[0].text[0] == '+' { BlockChomping::Keep }
    else { BlockChomping::Strip }
}
/// invalid indentation indicators are errors
pub open spec fn bad_here(t: Tree) -> bool {
    t.rule == Rule::string_multiline_indent && match usize_of(t.text) { Some(n) => n == 0, None => true }
}
pub open spec fn block_lines_of(t: Tree) -> Seq<String> {
    let i = t.kids.len() - 2;
    if i >= 0 && t.kids[i].rule == Rule::string_multiline_indent {
        all_stripped(lines_of(t.kids.last()), usize_of(t.kids[i].text)->0 - 1)
    } else {
        lines_of(t.kids.last())
    }
}

// --- values ---
pub open spec fn yaml_of(t: Tree) -> Yaml
    decreases t, 0int
{
    match t.rule {
        Rule::unquoted_string => Yaml::UnquotedString(str_of(sp_trim_end(sp_trim_start(t.text, ' '), ' '))),
        Rule::unquoted_inline_string => Yaml::UnquotedString(str_of(sp_trim_end(t.text, ' '))),
        Rule::double_quoted_string => Yaml::DoubleQuotedString(vec_of(Seq::new(t.kids[0].kids.len(), |i: int| dq_part_of(t.kids[0].kids[i])))),
        Rule::single_quoted_string => Yaml::SingleQuotedString(vec_of(Seq::new(t.kids[0].kids.len(), |i: int| sq_part_of(t.kids[0].kids[i])))),
        Rule::anchor => Yaml::Anchor(str_of(t.kids[0].text)),
        Rule::string_multiline_literal => Yaml::LiteralString(vec_of(block_lines_of(t)), chomping_of(t)),
        Rule::string_multiline_folded => Yaml::FoldedString(vec_of(block_lines_of(t)), chomping_of(t)),
        Rule::inline_array => Yaml::InlineArray(vec_of(yamls_all(t.kids))),
        Rule::inline_hash => Yaml::InlineHash(vec_of(pairs_all(t.kids))),
        Rule::hash => Yaml::Hash(vec_of(hdata_all(t.kids))),
        Rule::alternative_hash => Yaml::Hash(vec_of(hdata_all(t.kids))),
        Rule::block_array => Yaml::Array(vec_of(adata_all(t.kids))),
        Rule::alternative_array => if t.kids.len() < 2 { arbitrary() } else {
            nested(row_of(t.kids[0]), rows_all(t.kids.subrange(1, t.kids.len() - 1)), comments_of(t.kids.last()))
        },
        _ => if t.kids.len() > 0 { yaml_of(t.kids[0]) } else { arbitrary() },
    }
}
/// the nodes one by one
pub open spec fn yamls_all(k: Seq<Tree>) -> Seq<Yaml>
    decreases k, 0int
{ if k.len() == 0 { Seq::empty() } else { yamls_all(k.drop_last()).push(yaml_of(k.last())) } }
pub open spec fn pairs_all(k: Seq<Tree>) -> Seq<(String, Yaml)>
    decreases k, 0int
{ if k.len() == 0 { Seq::empty() } else { pairs_all(k.drop_last()).push(pair_of(k.last())) } }
pub open spec fn rows_all(k: Seq<Tree>) -> Seq<(Seq<String>, Row)>
    decreases k, 0int
{ if k.len() == 0 { Seq::empty() } else { rows_all(k.drop_last()).push(comments_row_of(k.last())) } }
pub open spec fn pair_of(t: Tree) -> (String, Yaml)
    decreases t, 0int
{ if t.kids.len() < 2 { arbitrary() } else { (key_of(t.kids[0]), yaml_of(t.kids[1])) } }
pub open spec fn key_of(t: Tree) -> String { str_of(sp_trim_ws(t.text)) }
pub open spec fn aliased_of(t: Tree) -> AliasedYaml
    decreases t, 0int
{
    match t.rule {
        Rule::aliased_yaml_value | Rule::alternative_aliased_yaml_hash | Rule::alternative_aliased_yaml_array =>
            if t.kids.len() == 2 { AliasedYaml { alias: Some(str_of(t.kids[0].kids[0].text)), value: yaml_of(t.kids[1]) } }
            else if t.kids.len() == 1 { AliasedYaml { alias: None, value: yaml_of(t.kids[0]) } }
            else { arbitrary() },
        _ => if t.kids.len() > 0 { aliased_of(t.kids[0]) } else { arbitrary() },
    }
}
pub open spec fn helement_of(t: Tree) -> HashElement
    decreases t, 0int
{ if t.kids.len() < 2 { arbitrary() } else { HashElement { key: key_of(t.kids[0]), value: aliased_of(t.kids[1]) } } }
pub open spec fn hcomments(v: Seq<String>) -> Seq<HashData> { Seq::new(v.len(), |i: int| HashData::Comment(v[i])) }
pub open spec fn acomments(v: Seq<String>) -> Seq<ArrayData> { Seq::new(v.len(), |i: int| ArrayData::Comment(v[i])) }
pub open spec fn dcomments(v: Seq<String>) -> Seq<DocumentData> { Seq::new(v.len(), |i: int| DocumentData::Comment(v[i])) }
/// what a node below a block mapping puts into it: elements and comments in the order written
pub open spec fn hdata_of(t: Tree) -> Seq<HashData>
    decreases t, 1int
{
    match t.rule {
        Rule::commentnls => hcomments(comments_of(t)),
        Rule::comment => seq![HashData::InlineComment(comment_of(t))],
        Rule::hash_element => seq![HashData::Element(helement_of(t))],
        _ => hdata_all(t.kids),
    }
}
pub open spec fn hdata_all(k: Seq<Tree>) -> Seq<HashData>
    decreases k, 0int
{ if k.len() == 0 { Seq::empty() } else { hdata_all(k.drop_last()) + hdata_of(k.last()) } }
/// the same for a block sequence
pub open spec fn adata_of(t: Tree) -> Seq<ArrayData>
    decreases t, 0int
{
    match t.rule {
        Rule::commentnls => acomments(comments_of(t)),
        Rule::comment => seq![ArrayData::InlineComment(comment_of(t))],
        Rule::block_array_element => if t.kids.len() > 0 { seq![ArrayData::Element(aliased_of(t.kids[0]))] } else { Seq::empty() },
        _ => adata_all(t.kids),
    }
}
pub open spec fn adata_all(k: Seq<Tree>) -> Seq<ArrayData>
    decreases k, 0int
{ if k.len() == 0 { Seq::empty() } else { adata_all(k.drop_last()) + adata_of(k.last()) } }

// --- sequences in sequences, their dashes on one line ---
pub struct Row { pub dashes: Seq<ArrayDash>, pub data: Seq<ArrayData> }
/// characters since the last line feed
pub open spec fn column(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() == 0 || s.last() == '\n' || s.last() == '\r' { 0 } else { column(s.drop_last()) + 1 } }
pub open spec fn dash_of(t: Tree) -> ArrayDash {
    (column(t.pre) as usize, if t.kids.len() > 0 { Some(str_of(t.kids[0].kids[0].text)) } else { None })
}
pub open spec fn dashes_of(t: Tree) -> Seq<ArrayDash> { Seq::new(t.kids.len(), |i: int| dash_of(t.kids[i])) }
pub open spec fn row_of(t: Tree) -> Row
    decreases t, 0int
{
    if t.kids.len() < 2 { arbitrary() } else {
        let e = seq![ArrayData::Element(aliased_of(t.kids[1]))];
        Row { dashes: dashes_of(t.kids[0]), data: if t.kids.len() > 2 { e + seq![ArrayData::InlineComment(comment_of(t.kids[2]))] } else { e } }
    }
}
pub open spec fn comments_row_of(t: Tree) -> (Seq<String>, Row)
    decreases t, 0int
{ if t.kids.len() < 2 { arbitrary() } else { (comments_of(t.kids[0]), row_of(t.kids[1])) } }

pub open spec fn rows_view(v: Seq<(Vec<String>, ArrayRow)>) -> Seq<(Seq<String>, Row)> { Seq::new(v.len(), |i: int| (v[i].0@, row_view(v[i].1))) }
/// the arrays that can still be continued, the innermost one last
pub open spec fn opened(st: Seq<OpenArray>, alias: Option<String>, d: Seq<ArrayDash>) -> Seq<OpenArray>
    decreases d.len()
{ if d.len() == 0 { st } else { opened(st.push((d[0].0, alias, vec_of(Seq::<ArrayData>::empty()))), d[0].1, d.skip(1)) } }
pub open spec fn added(st: Seq<OpenArray>, data: Seq<ArrayData>) -> Seq<OpenArray> {
    if st.len() == 0 { st } else { st.drop_last().push((st.last().0, st.last().1, vec_of(st.last().2@ + data))) }
}
pub open spec fn closed(st: Seq<OpenArray>) -> Seq<OpenArray> {
    if st.len() == 0 { st } else { added(st.drop_last(), seq![ArrayData::Element(AliasedYaml { alias: st.last().1, value: Yaml::Array(st.last().2) })]) }
}
pub open spec fn closed_until(st: Seq<OpenArray>, col: usize) -> Seq<OpenArray>
    decreases st.len()
{ if st.len() == 0 || st.last().0 == col { st } else { closed_until(closed(st), col) } }
pub open spec fn closed_all(st: Seq<OpenArray>) -> Seq<OpenArray>
    decreases st.len()
{ if st.len() <= 1 { st } else { closed_all(closed(st)) } }
/// a row continues the array whose dashes are in the column of its first dash (the innermost one, if there is none);
/// its other dashes open arrays inside it
pub open spec fn continued(st: Seq<OpenArray>, r: (Seq<String>, Row)) -> Seq<OpenArray> {
    let d = r.1.dashes;
    let (col, alias) = if d.len() > 0 { d[0] } else { (0usize, None) };
    let st1 = if exists|i: int| 0 <= i < st.len() && (#[trigger] st[i]).0 == col { closed_until(st, col) } else { st };
    added(opened(added(st1, acomments(r.0)), alias, if d.len() > 0 { d.skip(1) } else { d }), r.1.data)
}
pub open spec fn continued_all(st: Seq<OpenArray>, rows: Seq<(Seq<String>, Row)>) -> Seq<OpenArray>
    decreases rows.len()
{ if rows.len() == 0 { st } else { continued(continued_all(st, rows.drop_last()), rows.last()) } }
pub open spec fn nested(first: Row, rows: Seq<(Seq<String>, Row)>, trailing: Seq<String>) -> Yaml {
    let st = added(opened(Seq::empty(), None, first.dashes), first.data);
    let st = closed_all(added(continued_all(st, rows), acomments(trailing)));
    Yaml::Array(if st.len() == 0 { vec_of(Seq::empty()) } else { st.last().2 })
}

// --- documents ---
pub open spec fn document_of(t: Tree) -> Document {
    let n = t.kids.len() as int;
    Document {
        leading_comments: vec_of(comments_of(t.kids[0])),
        items: vec_of(dcomments(comments_of(t.kids[1])) + seq![DocumentData::Yaml(yaml_of(t.kids[2]))]
            + dcomments(Seq::new((n - 4) as nat, |i: int| comment_of(t.kids[3 + i])))),
    }
}

// --- what the function for each rule returns ---
pub open spec fn ok_EOI(v: (), t: Tree) -> bool { true }
pub open spec fn ok_removable_newline(v: (), t: Tree) -> bool { true }
//@for N in comment_text alias_name double_quote_text single_quote_text block_string
pub open spec fn ok_%N(v: String, t: Tree) -> bool { v == str_of(t.text) }
//@endfor
//@for N in comment commentnl alias
pub open spec fn ok_%N(v: String, t: Tree) -> bool { v == str_of(t.kids[0].text) }
//@endfor
pub open spec fn ok_hash_key(v: String, t: Tree) -> bool { v == key_of(t) }
pub open spec fn ok_escaped_double_quote_char_value(v: DoubleQuotedStringEscapedChar, t: Tree) -> bool { v == dq_char(t.text[0]) }
pub open spec fn ok_single_quote(v: SingleQuotedStringEscapedChar, t: Tree) -> bool { v == SingleQuotedStringEscapedChar::SingleQuote }
pub open spec fn ok_blank_lines(v: usize, t: Tree) -> bool { v == t.text.len() - 1 }
pub open spec fn ok_double_quote_without_escape(v: DoubleQuotedStringPart, t: Tree) -> bool { v == dq_part_of(t) }
pub open spec fn ok_double_quote_content(v: Vec<DoubleQuotedStringPart>, t: Tree) -> bool { v@ =~= Seq::new(t.kids.len(), |i: int| dq_part_of(t.kids[i])) }
pub open spec fn ok_escaped_single_quote_char(v: SingleQuotedStringPart, t: Tree) -> bool { v == sq_part_of(t) }
pub open spec fn ok_single_quote_content(v: Vec<SingleQuotedStringPart>, t: Tree) -> bool { v@ =~= Seq::new(t.kids.len(), |i: int| sq_part_of(t.kids[i])) }
//@for N in anchor inline_hash unquoted_string unquoted_inline_string double_quoted_string single_quoted_string inline_array_string inline_array_value inline_array string inline_value string_multiline_folded string_multiline_literal yaml_value hash alternative_hash array block_array alternative_array document
pub open spec fn ok_%N(v: Yaml, t: Tree) -> bool { v == yaml_of(t) }
//@endfor
pub open spec fn ok_inline_hash_element(v: (String, Yaml), t: Tree) -> bool { v == pair_of(t) }
//@for N in block_empty_lines block_leading_lines block_short_lines string_multiline_content_part string_multiline_trailing string_multiline_content string_multiline_detected_part string_multiline_detected_content
pub open spec fn ok_%N(v: Vec<String>, t: Tree) -> bool { v@ =~= lines_of(t) }
//@endfor
pub open spec fn ok_block_blank_line(v: String, t: Tree) -> bool { v == str_of(Seq::empty()) }
pub open spec fn ok_string_block_chomping(v: BlockChomping, t: Tree) -> bool { v == (if t.text[0] == '+' { BlockChomping::Keep } else { BlockChomping::Strip }) }
pub open spec fn ok_string_multiline_indent(v: usize, t: Tree) -> bool { v == usize_of(t.text)->0 - 1 }
//@for N in aliased_yaml_value block_array_aliased_yaml_value own_line_aliased_yaml_value alternative_aliased_yaml_value alternative_aliased_yaml_hash alternative_aliased_yaml_array
pub open spec fn ok_%N(v: AliasedYaml, t: Tree) -> bool { v == aliased_of(t) }
//@endfor
pub open spec fn ok_hash_element(v: HashElement, t: Tree) -> bool { v == helement_of(t) }
//@for N in first_hash_element hash_element_data alternative_hash_continuation
pub open spec fn ok_%N(v: Vec<HashData>, t: Tree) -> bool { v@ =~= hdata_of(t) }
//@endfor
pub open spec fn ok_block_array_element(v: ArrayData, t: Tree) -> bool { seq![v] =~= adata_of(t) }
//@for N in first_block_array_element block_array_data
pub open spec fn ok_%N(v: Vec<ArrayData>, t: Tree) -> bool { v@ =~= adata_of(t) }
//@endfor
pub open spec fn ok_alternative_array_dash(v: ArrayDash, t: Tree) -> bool { v == dash_of(t) }
pub open spec fn ok_alternative_array_dashes(v: Vec<ArrayDash>, t: Tree) -> bool { v@ =~= dashes_of(t) }
pub open spec fn row_view(v: ArrayRow) -> Row { Row { dashes: v.0@, data: v.1@ } }
pub open spec fn ok_alternative_array_row(v: ArrayRow, t: Tree) -> bool { v.0@ =~= row_of(t).dashes && v.1@ =~= row_of(t).data }
pub open spec fn ok_alternative_array_data(v: (Vec<String>, ArrayRow), t: Tree) -> bool {
    v.0@ =~= comments_row_of(t).0 && v.1.0@ =~= comments_row_of(t).1.dashes && v.1.1@ =~= comments_row_of(t).1.data
}
//@for N in commentnls leading_comments
pub open spec fn ok_%N(v: Vec<String>, t: Tree) -> bool { v@ =~= comments_of(t) }
//@endfor
pub open spec fn ok_yaml(v: Document, t: Tree) -> bool { v == document_of(t) }
pub open spec fn ok_document_text(r: DocumentResult, s: Seq<char>) -> bool {
    match derivation(Rule::yaml, s) {
        Some(t) => match r { Ok(v) => ok_yaml(v, t) && !bad(t), Err(_) => bad(t) },
        None => r is Err,
    }
}
