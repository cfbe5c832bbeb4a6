//! Document texts written from random trees by an own writer (not by the library's `format`), with the tree
//! that parsing must give.
use crate::ctx::Rng;
use crate::gen::dict;
use yaml_subset::yaml::string::*;
use yaml_subset::yaml::*;

pub struct W<'a> {
    r: &'a mut Rng,
    pub out: String,
    /// quoted strings with line breaks: those are line feeds
    pub quoted_breaks: bool,
    /// the last line belongs to a block scalar: blank lines would, too
    after_block: bool,
    budget: usize,
}

const WORDS: &[&str] = &[
    "a",
    "b c",
    "x-y",
    "1",
    "-5",
    "0.1",
    "true",
    "~",
    "null",
    "a:b",
    "http://x.y/z?q=1",
    "it's",
    "a, b",
    "é",
    "日本 語",
    "(a)",
    "a=b",
    "+",
    "yes",
    "a;b",
    "a\tb",
    "50%",
    "a\u{a0}",
    "1 2 3",
    "a[0]",
    "a{b}",
    "say \"hi\"",
    "x > y",
    "a | b",
    "-",
    "--",
    "-a",
    ":a",
    "a&b",
    "a*b",
    "!t",
    "@a",
    "`b`",
    "a\\b",
    "\\",
    ",",
    "b}",
];
/// characters of words put together at random
const LETTERS: &[char] = &[
    'a', 'Z', '0', '9', '_', '-', '.', '/', '+', '(', ')', '=', '!', '?', '@', '~', '%', ';', '^',
    '$', '&', '*', '\\', '\'', 'é', '\u{a0}', '\t', ' ',
];

/// any characters, for texts that may hold anything
const ANY: &[char] = &[
    'a', 'b', 'Z', '0', '1', '9', ' ', ' ', ' ', '\t', ':', '#', '-', '-', ',', '.', '[', ']', '{',
    '}', '&', '*', '|', '>', '!', '%', '@', '`', '\\', '/', '~', '=', '?', '_', '\'', '"', '<', '+',
    '(', ')', '^', '$', ';', 'é', '日', '\u{a0}', '\u{3000}', '\u{feff}', '\u{85}', '\u{2028}', '\0',
    '\u{7f}', '😀', 'n', 't', 'r',
];
/// mostly less than `n`, seldom much more
pub fn count(r: &mut Rng, n: usize) -> usize {
    match r.n(200) {
        0 => r.n(40),
        1..=9 => r.n(12),
        _ => r.n(n),
    }
}
/// a text of one line without the characters in `not`
pub fn odd(r: &mut Rng, not: &str) -> String {
    let s: String = if r.chance(1, 4) {
        let a = r.pick(dict()).clone();
        match r.n(4) {
            0 => format!("{a}b"),
            1 => format!("a{a}"),
            2 => format!("{a}{a}"),
            _ => a,
        }
    } else if r.chance(1, 60) {
        "x y ".repeat(1 + r.n(60))
    } else {
        (0..1 + count(r, 6)).map(|_| *r.pick(ANY)).collect()
    };
    s.chars()
        .filter(|c| !"\n\r".contains(*c) && !not.contains(*c))
        .collect()
}

impl W<'_> {
    fn flow_ok(s: &str) -> bool {
        !s.contains(|c| ",[]{}\"#>|".contains(c))
    }
    fn plain(&mut self, flow: bool) -> String {
        let s = if self.r.chance(1, 2) {
            self.r.pick(WORDS).to_string()
        } else {
            let n = 1 + self.r.n(6);
            let s: String = (0..n).map(|_| *self.r.pick(LETTERS)).collect();
            s.trim_matches(' ').to_string()
        };
        let first = s.chars().next();
        let bad = match first {
            None => true,
            Some(c) => "&*'\"[]{}#>|,\u{a0}".contains(c) && !(c == ',' && !flow),
        };
        if bad
            || s.starts_with("- ") || s.starts_with("-\u{a0}")
            || s == "-"
            || s.ends_with(':')
            || (flow && !Self::flow_ok(&s))
        {
            return "v".into();
        }
        s
    }
    fn name(&mut self) -> String {
        if self.r.chance(1, 3) {
            let n = 1 + count(self.r, 4);
            return (0..n)
                .map(|_| *self.r.pick(&['a', 'Z', '0', '9', '_', 'é', 'ж', '日', '٣']))
                .collect();
        }
        self.r.pick(&["x", "y1", "_a", "é", "9"]).to_string()
    }
    fn key(&mut self) -> String {
        if self.r.chance(1, 20) {
            let w = self.r.pick(dict());
            if w.chars().all(|c| c.is_ascii_alphanumeric()) {
                return w.clone();
            }
        }
        if self.r.chance(1, 3) {
            let n = 1 + count(self.r, 5);
            let k: String = (0..n)
                .map(|_| {
                    *self
                        .r
                        .pick(&['a', 'Z', '0', '9', '_', 'é', 'ж', '日', '٣', '-', '-', ' ', ' '])
                })
                .collect();
            let k = k.trim_matches(' ').trim_start_matches(['-', ' ']);
            return if k.is_empty() { "a".into() } else { k.into() };
        }
        self.r
            .pick(&[
                "a", "b", "c", "key", "k-1", "a b", "_u", "é1", "42", "a-", "x_y z", "日本",
            ])
            .to_string()
    }
    fn sp(&mut self, n: usize) -> String {
        " ".repeat(self.r.n(n + 1))
    }
    fn sp1(&mut self) -> String {
        " ".repeat(if self.r.chance(3, 4) {
            1
        } else {
            1 + self.r.n(3)
        })
    }
    fn comment_text(&mut self) -> String {
        if self.r.chance(1, 4) {
            return odd(self.r, "");
        }
        self.r
            .pick(&[
                "",
                " c",
                "c",
                "  two words ",
                "#",
                " a: b",
                " - x",
                "é",
                " 'q\"",
                "\tz",
                " [",
                "!",
            ])
            .to_string()
    }
    fn double(&mut self) -> (String, Yaml) {
        use DoubleQuotedStringPart as P;
        let mut t = String::from("\"");
        let mut v = vec![];
        for _ in 0..count(self.r, 5) {
            let p = match self.r.n(4) {
                0 => P::EscapedChar(*self.r.pick(&[
                    DoubleQuotedStringEscapedChar::Newline,
                    DoubleQuotedStringEscapedChar::Backslash,
                    DoubleQuotedStringEscapedChar::CarriageReturn,
                    DoubleQuotedStringEscapedChar::Tab,
                    DoubleQuotedStringEscapedChar::Quote,
                    DoubleQuotedStringEscapedChar::RealNewline,
                ])),
                1 => P::RemovableNewline,
                2 if self.r.chance(1, 2) => P::BlankLines(1 + count(self.r, 3)),
                _ if self.r.chance(1, 3) => {
                    let s = odd(self.r, "\"\\");
                    if s.is_empty() {
                        continue;
                    }
                    P::String(s)
                }
                _ => P::String(
                    self.r
                        .pick(&[
                            "a", " ", "x y", "'", "# c", ": ", "é", "  b  ", "- [", "''", ", ",
                            "\t", "}",
                        ])
                        .to_string(),
                ),
            };
            let clash = match (v.last(), &p) {
                (Some(P::String(_)), P::String(_)) => true,
                (
                    Some(P::RemovableNewline | P::BlankLines(_)),
                    P::RemovableNewline | P::BlankLines(_),
                ) => true,
                _ => false,
            };
            if clash {
                continue;
            }
            match &p {
                P::String(s) => t += s,
                P::RemovableNewline => {
                    t.push('\n');
                    self.quoted_breaks = true
                }
                P::BlankLines(n) => {
                    t += &"\n".repeat(n + 1);
                    self.quoted_breaks = true
                }
                P::EscapedChar(c) => {
                    t.push('\\');
                    t.push(match c {
                        DoubleQuotedStringEscapedChar::Newline => 'n',
                        DoubleQuotedStringEscapedChar::Backslash => '\\',
                        DoubleQuotedStringEscapedChar::CarriageReturn => 'r',
                        DoubleQuotedStringEscapedChar::Tab => 't',
                        DoubleQuotedStringEscapedChar::Quote => '"',
                        DoubleQuotedStringEscapedChar::RealNewline => {
                            self.quoted_breaks = true;
                            '\n'
                        }
                    });
                }
            }
            v.push(p);
        }
        (t + "\"", Yaml::DoubleQuotedString(v))
    }
    fn single(&mut self) -> (String, Yaml) {
        use SingleQuotedStringPart as P;
        let mut t = String::from("'");
        let mut v = vec![];
        for _ in 0..count(self.r, 5) {
            let p = match self.r.n(4) {
                0 => P::EscapedChar(SingleQuotedStringEscapedChar::SingleQuote),
                1 => P::RemovableNewline,
                2 if self.r.chance(1, 2) => P::BlankLines(1 + count(self.r, 3)),
                _ if self.r.chance(1, 3) => {
                    let s = odd(self.r, "'");
                    if s.is_empty() {
                        continue;
                    }
                    P::String(s)
                }
                _ => P::String(
                    self.r
                        .pick(&[
                            "a", " ", "x y", "\"", "# c", ": ", "é", "  b  ", "\\", "\\n", ", ",
                            "\t", "]",
                        ])
                        .to_string(),
                ),
            };
            let clash = match (v.last(), &p) {
                (Some(P::String(_)), P::String(_)) => true,
                (
                    Some(P::RemovableNewline | P::BlankLines(_)),
                    P::RemovableNewline | P::BlankLines(_),
                ) => true,
                _ => false,
            };
            if clash {
                continue;
            }
            match &p {
                P::String(s) => t += s,
                P::RemovableNewline => {
                    t.push('\n');
                    self.quoted_breaks = true
                }
                P::BlankLines(n) => {
                    t += &"\n".repeat(n + 1);
                    self.quoted_breaks = true
                }
                P::EscapedChar(_) => t += "''",
            }
            v.push(p);
        }
        (t + "'", Yaml::SingleQuotedString(v))
    }
    fn gap(&mut self) -> String {
        self.r.pick(&["", "", " ", "  ", "\n", " \n  "]).to_string()
    }
    fn flow(&mut self, depth: usize) -> (String, Yaml) {
        let n = self.r.n(4);
        if self.r.chance(1, 2) {
            let mut v = vec![];
            let mut t = String::from("[");
            for i in 0..n {
                let (s, y) = self.flow_value(depth);
                t += &format!(
                    "{}{}{s}{}",
                    if i > 0 { "," } else { "" },
                    self.gap(),
                    self.gap()
                );
                v.push(y);
            }
            t += &self.gap();
            (t + "]", Yaml::InlineArray(v))
        } else {
            let mut v = vec![];
            let mut t = String::from("{");
            for i in 0..n {
                let (s, y) = self.flow_value(depth);
                let k = self.key();
                t += &format!(
                    "{}{}{k}{}:{}{s}{}",
                    if i > 0 { "," } else { "" },
                    self.gap(),
                    self.gap(),
                    self.gap(),
                    self.gap()
                );
                v.push((k, y));
            }
            t += &self.gap();
            (t + "}", Yaml::InlineHash(v))
        }
    }
    fn flow_value(&mut self, depth: usize) -> (String, Yaml) {
        match self.r.n(6) {
            0 if depth > 0 => self.flow(depth - 1),
            1 => self.double(),
            2 => self.single(),
            3 => {
                let n = self.name();
                (format!("*{n}"), Yaml::Anchor(n))
            }
            _ => {
                let s = self.plain(true);
                (s.clone(), Yaml::UnquotedString(s))
            }
        }
    }
    /// a value that ends on its line
    fn leaf(&mut self, depth: usize) -> (String, Yaml) {
        match self.r.n(8) {
            0 | 1 => self.flow(depth.min(2)),
            2 => self.double(),
            3 => self.single(),
            4 => {
                let n = self.name();
                (format!("*{n}"), Yaml::Anchor(n))
            }
            _ => {
                let s = self.plain(false);
                (s.clone(), Yaml::UnquotedString(s))
            }
        }
    }
    /// header and lines of a block scalar, deeper than column `col`; with an indicator relative to `base` if there is one
    fn block(&mut self, col: usize, base: Option<usize>) -> Yaml {
        let literal = self.r.chance(1, 2);
        let chomp = *self.r.pick(&[
            BlockChomping::Clip,
            BlockChomping::Strip,
            BlockChomping::Keep,
        ]);
        self.out.push(if literal { '|' } else { '>' });
        self.out += match chomp {
            BlockChomping::Clip => "",
            BlockChomping::Strip => "-",
            BlockChomping::Keep => "+",
        };
        let extra = 1 + self.r.n(4);
        let explicit = match base {
            Some(b) if self.r.chance(1, 4) => {
                self.out += &format!("{}", col - b + extra);
                true
            }
            _ => false,
        };
        {
            let t = self.sp(2);
            self.out += &t;
        }
        self.out.push('\n');
        let ind = col + extra;
        let mut lines = vec![];
        if self.r.chance(1, 4) {
            for _ in 0..1 + self.r.n(3) {
                let k = self.r.n(if explicit { col + 1 } else { ind + 1 });
                self.out += &" ".repeat(if self.r.chance(1, 3) { k } else { 0 });
                self.out.push('\n');
                lines.push(String::new());
            }
        }
        let n = 1 + count(self.r, 4);
        for i in 0..n {
            let mut l = self
                .r
                .pick(&[
                    "a", "b c ", "# no", "- x", "k: v", "  in", " ", "é", "\tt", "", "", "'", "\"",
                    "[", "&a *b", "...",
                ])
                .to_string();
            if self.r.chance(1, 3) {
                l = odd(self.r, "");
            }
            if i == 0
                && (l.trim().is_empty()
                    || (!explicit && l.starts_with(|c: char| c.is_whitespace())))
            {
                l = "first".into();
            }
            if i + 1 == n && l.trim().is_empty() {
                l = "last".into();
            }
            if l.is_empty() {
                let k = if explicit { 0 } else { self.r.n(ind + 1) };
                self.out += &" ".repeat(if self.r.chance(1, 3) { k } else { 0 });
            } else {
                self.out += &" ".repeat(ind);
                self.out += &l;
            }
            self.out.push('\n');
            lines.push(l);
        }
        for _ in 0..[0, 0, 0, 1, 2][self.r.n(5)] {
            self.out.push('\n');
            lines.push(String::new());
        }
        self.after_block = true;
        if literal {
            Yaml::LiteralString(lines, chomp)
        } else {
            Yaml::FoldedString(lines, chomp)
        }
    }
    fn blanks(&mut self) {
        if !self.after_block && self.r.chance(1, 5) {
            for _ in 0..1 + self.r.n(2) {
                {
                    let t = self.sp(3);
                    self.out += &t;
                }
                self.out.push('\n');
            }
        }
    }
    /// lines between two elements: blank ones and comments
    fn between(&mut self, col: usize) -> Vec<String> {
        let mut cs = vec![];
        self.blanks();
        while self.r.chance(1, 6) {
            let c = self.comment_text();
            let k = if self.after_block {
                self.r.n(col + 1)
            } else {
                self.r.n(col + 3)
            };
            // below a block scalar, a deeper comment would be text
            let k = if self.after_block { k.min(col) } else { k };
            self.out += &format!("{}#{c}\n", " ".repeat(k));
            cs.push(c);
            self.after_block = false;
            self.blanks();
        }
        self.after_block = false;
        cs
    }
    /// the end of a line, maybe with a comment
    fn eol(&mut self) -> Option<String> {
        let c = if self.r.chance(1, 6) {
            let c = self.comment_text();
            let t = self.sp1();
            self.out += &format!("{t}#{c}");
            Some(c)
        } else {
            {
                let t = self.sp(1);
                self.out += &t;
            }
            None
        };
        self.out.push('\n');
        c
    }
    fn alias(&mut self) -> Option<String> {
        if self.r.chance(1, 6) {
            let n = self.name();
            self.out += &format!("&{n}");
            Some(n)
        } else {
            None
        }
    }
    fn column(&self) -> usize {
        self.out.rsplit('\n').next().unwrap().chars().count()
    }
    /// a block mapping with its keys in column `col`. `first`: the cursor is where the first key goes;
    /// `comments`: comments can stand before the first key. Block scalars of the first entry can have
    /// an indicator only if the parser knows the column.
    fn hash(
        &mut self,
        depth: usize,
        col: usize,
        first: bool,
        comments: bool,
        known: bool,
    ) -> Vec<HashData> {
        let mut v = vec![];
        let n = 1 + self.r.n(3);
        for i in 0..n {
            if i > 0 || !first {
                if i > 0 || comments {
                    v.extend(self.between(col).into_iter().map(HashData::Comment));
                }
                self.out += &" ".repeat(col);
            }
            let key = self.key();
            self.out += &key;
            {
                let t = self.sp(1);
                self.out += &t;
            }
            self.out.push(':');
            let base = if i > 0 || known { Some(col) } else { None };
            self.budget = self.budget.saturating_sub(1);
            let deep = depth > 0 && self.budget > 0;
            let mut inline = None;
            let (alias, value) = match self.r.n(9) {
                0 | 1 if deep => {
                    let sp = self.sp1();
                    let mark = self.out.len();
                    self.out += &sp;
                    let alias = self.alias();
                    if alias.is_none() {
                        self.out.truncate(mark);
                    }
                    self.out.push('\n');
                    self.blanks();
                    let free = alias.is_none();
                    let c = col + 1 + self.r.n(3);
                                        (
                        alias,
                        Yaml::Hash(self.hash(depth - 1, c, false, free, true)),
                    )
                }
                2 | 3 if deep => {
                    let sp = self.sp1();
                    let mark = self.out.len();
                    self.out += &sp;
                    let alias = self.alias();
                    if alias.is_none() {
                        self.out.truncate(mark);
                    }
                    self.out.push('\n');
                    let c = col + self.r.n(3);
                    let free = alias.is_none();
                    (
                        alias,
                        Yaml::Array(self.array(depth - 1, c, false, free, false)),
                    )
                }
                4 => {
                    {
                        let t = self.sp1();
                        self.out += &t;
                    }
                    let alias = self.alias();
                    if alias.is_some() {
                        {
                            let t = self.sp1();
                            self.out += &t;
                        }
                    }
                    (alias, self.block(col, base))
                }
                5 => {
                    // on a line of its own
                    self.out.push('\n');
                    self.blanks();
                    self.out += &" ".repeat(col + 1 + self.r.n(3));
                    let alias = self.alias();
                    if alias.is_some() {
                        {
                            let t = self.sp1();
                            self.out += &t;
                        }
                    }
                    let (t, y) = self.leaf(depth);
                    self.out += &t;
                    inline = self.eol();
                    (alias, y)
                }
                _ => {
                    {
                        let t = self.sp1();
                        self.out += &t;
                    }
                    let alias = self.alias();
                    if alias.is_some() {
                        {
                            let t = self.sp1();
                            self.out += &t;
                        }
                    }
                    let (t, y) = self.leaf(depth);
                    self.out += &t;
                    inline = self.eol();
                    (alias, y)
                }
            };
            v.push(HashData::Element(HashElement {
                key,
                value: AliasedYaml { alias, value },
            }));
            v.extend(inline.map(HashData::InlineComment));
        }
        v
    }
    /// a block sequence with its dashes in column `col`; `nested`: it started on the line of another dash
    fn array(
        &mut self,
        depth: usize,
        col: usize,
        first: bool,
        comments: bool,
        nested: bool,
    ) -> Vec<ArrayData> {
        let mut v = vec![];
        let n = 1 + self.r.n(3);
        for i in 0..n {
            if i > 0 || !first {
                if i > 0 || comments {
                    v.extend(self.between(col).into_iter().map(ArrayData::Comment));
                }
                self.out += &" ".repeat(col);
            }
            self.out.push('-');
            {
                let t = self.sp1();
                self.out += &t;
            }
            self.budget = self.budget.saturating_sub(1);
            let deep = depth > 0 && self.budget > 0;
            let mut inline = None;
            let alias = self.alias();
            if alias.is_some() {
                {
                    let t = self.sp1();
                    self.out += &t;
                }
            }
            let value = match self.r.n(8) {
                0 | 1 if deep => {
                    if alias.is_some() && self.r.chance(1, 3) {
                        // below its dash
                        self.out.push('\n');
                        self.blanks();
                        let c = col + 1 + self.r.n(3);
                        let h = self.hash(depth - 1, c, false, false, true);
                        v.push(ArrayData::Element(AliasedYaml { alias, value: Yaml::Hash(h) }));
                        continue;
                    }
                    let c = self.column();
                    Yaml::Hash(self.hash(depth - 1, c, true, false, false))
                }
                2 | 3 if deep => {
                    let c = self.column();
                    Yaml::Array(self.array(depth - 1, c, true, false, true))
                }
                4 => self.block(col, if nested { None } else { Some(col) }),
                _ => {
                    let (t, y) = self.leaf(depth);
                    self.out += &t;
                    inline = self.eol();
                    y
                }
            };
            v.push(ArrayData::Element(AliasedYaml { alias, value }));
            v.extend(inline.map(ArrayData::InlineComment));
        }
        v
    }
}

/// a text and the document that parsing it must give
pub fn written(r: &mut Rng, size: usize) -> (String, Document) {
    let mut w = W {
        r,
        out: String::new(),
        quoted_breaks: false,
        after_block: false,
        budget: size * size,
    };
    let mut leading_comments = vec![];
    while w.r.chance(1, 4) {
        w.blanks();
        let c = w.comment_text();
        let t = w.sp(2);
        w.out += &format!("{t}#{c}\n");
        w.blanks();
        leading_comments.push(c);
    }
    w.out += "---";
    {
        let t = w.sp(1);
        w.out += &t;
    }
    w.out.push('\n');
    let mut items: Vec<DocumentData> = w
        .between(2)
        .into_iter()
        .map(DocumentData::Comment)
        .collect();
    let col = [0, 0, 0, 2][w.r.n(4)];
    let y = match w.r.n(8) {
        0 => {
            // a flow sequence
            let (t, y) = loop {
                let f = w.flow(size.min(3));
                if matches!(f.1, Yaml::InlineArray(_)) {
                    break f;
                }
            };
            w.out += &t;
            w.out.push('\n');
            y
        }
        1 | 2 => Yaml::Array(w.array(size, col, false, false, false)),
        _ => Yaml::Hash(w.hash(size, col, false, false, true)),
    };
    items.push(DocumentData::Yaml(y));
    items.extend(w.between(0).into_iter().map(DocumentData::Comment));
    if w.r.chance(1, 4) && w.out.ends_with('\n') && !w.out.ends_with("\n\n") {
        w.out.pop();
    }
    let mut out = w.out;
    if !w.quoted_breaks {
        match w.r.n(6) {
            0 => out = out.replace('\n', "\r\n"),
            1 => out = out.replace('\n', "\r"),
            _ => {}
        }
    }
    (
        out,
        Document {
            leading_comments,
            items,
        },
    )
}
