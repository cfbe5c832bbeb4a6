// ---------------------------------------------------------------------------
// What a scalar node denotes (property statements C01..C04)
// ---------------------------------------------------------------------------
pub open spec fn newlines(n: nat) -> Seq<char> { Seq::new(n, |i: int| '\n') }

/// a block scalar body with its chomping indicator
pub open spec fn chomp(s: Seq<char>, c: BlockChomping) -> Seq<char> {
    match c {
        BlockChomping::Keep => s.push('\n'),
        BlockChomping::Clip => sp_trim_end(s, '\n').push('\n'),
        BlockChomping::Strip => sp_trim_end(s, '\n'),
    }
}
pub open spec fn literal_value(lines: Seq<Seq<char>>, c: BlockChomping) -> Seq<char> {
    chomp(sp_join(lines, seq!['\n']), c)
}
/// folding: state = (text so far, a line break has just been produced)
pub open spec fn fold_step(st: (Seq<char>, bool), l: Seq<char>) -> (Seq<char>, bool) {
    if l.len() == 0 {
        (st.0.push('\n'), true)
    } else if l[0] == ' ' {
        (st.0.push('\n') + l.push('\n'), true)
    } else if st.1 {
        (st.0 + l, false)
    } else {
        (st.0.push(' ') + l, false)
    }
}
pub open spec fn fold_state(lines: Seq<Seq<char>>) -> (Seq<char>, bool)
    decreases lines.len()
{
    if lines.len() == 0 {
        (Seq::empty(), false)
    } else if lines.len() == 1 {
        (lines[0], false)
    } else {
        fold_step(fold_state(lines.drop_last()), lines.last())
    }
}
pub open spec fn folded_value(lines: Seq<Seq<char>>, c: BlockChomping) -> Seq<char> {
    if lines.len() == 0 { Seq::empty() } else { chomp(fold_state(lines).0, c) }
}
pub open spec fn sq_part(p: SingleQuotedStringPart) -> Seq<char> {
    match p {
        SingleQuotedStringPart::String(s) => s@,
        SingleQuotedStringPart::EscapedChar(c) => match c {
            SingleQuotedStringEscapedChar::SingleQuote => seq!['\''],
        },
        SingleQuotedStringPart::BlankLines(n) => newlines(n as nat),
        SingleQuotedStringPart::RemovableNewline => Seq::empty(),
    }
}
pub open spec fn sq_value(p: Seq<SingleQuotedStringPart>) -> Seq<char>
    decreases p.len()
{
    if p.len() == 0 { Seq::empty() } else { sq_value(p.drop_last()) + sq_part(p.last()) }
}
pub open spec fn dq_escape(c: DoubleQuotedStringEscapedChar) -> char {
    match c {
        DoubleQuotedStringEscapedChar::Quote => '"',
        DoubleQuotedStringEscapedChar::Backslash => '\\',
        DoubleQuotedStringEscapedChar::Tab => '\t',
        DoubleQuotedStringEscapedChar::CarriageReturn => '\r',
        DoubleQuotedStringEscapedChar::Newline => '\n',
        DoubleQuotedStringEscapedChar::RealNewline => '\n',
    }
}
pub open spec fn dq_part(p: DoubleQuotedStringPart) -> Seq<char> {
    match p {
        DoubleQuotedStringPart::String(s) => s@,
        DoubleQuotedStringPart::EscapedChar(c) => seq![dq_escape(c)],
        DoubleQuotedStringPart::BlankLines(n) => newlines(n as nat),
        DoubleQuotedStringPart::RemovableNewline => Seq::empty(),
    }
}
pub open spec fn dq_value(p: Seq<DoubleQuotedStringPart>) -> Seq<char>
    decreases p.len()
{
    if p.len() == 0 { Seq::empty() } else { dq_value(p.drop_last()) + dq_part(p.last()) }
}
/// the string a node stands for, if it is a scalar
pub open spec fn scalar_value(y: Yaml) -> Option<Seq<char>> {
    match y {
        Yaml::UnquotedString(s) => Some(s@),
        Yaml::SingleQuotedString(p) => Some(sq_value(p@)),
        Yaml::DoubleQuotedString(p) => Some(dq_value(p@)),
        Yaml::FoldedString(l, c) => Some(folded_value(sv_strings(l@), c)),
        Yaml::LiteralString(l, c) => Some(literal_value(sv_strings(l@), c)),
        _ => None,
    }
}
pub open spec fn opt_view(o: Option<String>) -> Option<Seq<char>> {
    match o { Some(s) => Some(s@), None => None }
}
