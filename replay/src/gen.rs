//! Generators. Everything is derived from the seed.
use crate::ctx::Rng;
use yaml_subset::yaml::string::*;
use yaml_subset::yaml::*;

pub const TRICKY: &[&str] = &[
    "a",
    "b",
    "foo",
    "x y",
    "1",
    "-1",
    "+1",
    "0",
    "1.5",
    "1e3",
    ".5",
    "inf",
    "nan",
    "NaN",
    "-inf",
    "0x1",
    "1_0",
    "18446744073709551615",
    "9223372036854775807",
    "9223372036854775808",
    "-9223372036854775808",
    "-9223372036854775809",
    "340282366920938463463374607431768211456",
    "true",
    "false",
    "True",
    "FALSE",
    "yes",
    "No",
    "on",
    "OFF",
    "null",
    "Null",
    "NULL",
    "nULL",
    "~",
    "",
    " ",
    "  ",
    "-",
    "- a",
    "-a",
    "--",
    "a:",
    "a: b",
    ":",
    ": ",
    ":a",
    "a:b",
    "#",
    "a#b",
    "a #b",
    "'",
    "''",
    "it's",
    "\"",
    "\\",
    "\\n",
    "\n",
    "\n\n",
    "a\nb",
    "a\n",
    "\na",
    "a\n\nb\n\n",
    " a",
    "a ",
    "a  b",
    "\t",
    "a\tb",
    "\r",
    "a\r\nb",
    "&x",
    "*x",
    "&",
    "*",
    ",",
    "a,b",
    "[",
    "]",
    "[a]",
    "{",
    "}",
    "{a: b}",
    ">",
    "|",
    "a>b",
    "a|b",
    "!t",
    "%",
    "@",
    "`",
    "?",
    "? a",
    "é",
    "日本",
    "\u{a0}",
    "a\u{a0}",
    "\u{a0}a",
    "-\u{a0}a",
    "a:\u{a0}b",
    "\u{2028}",
    "\u{feff}",
    "😀",
    "---",
    "...",
    "=",
    "<<",
    "a'b\"c\\d\ne",
    "'\\",
    "'\"",
    "0.1.2",
    "12 ",
    "1 2",
    "Null ",
    "e",
    "-0",
    "00",
    "1.",
    "1e400",
    "infinity",
    "+",
    "+.5",
    "1e",
    "\u{85}",
    "\u{0}",
    "\u{7f}",
    "a\n b",
    "a\n\n b\nc",
];
pub const KEYS: &[&str] = &["a", "b", "c", "key", "k1", "x-y", "a b", "_u", "é1", "42"];

/// the short string and char literals of the code as it is now (outside its tests): what it compares with is worth trying
pub fn dict() -> &'static Vec<String> {
    static D: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut out = std::collections::BTreeSet::new();
        let mut dirs =
            vec![
                std::path::PathBuf::from(std::env::var("VERIF_REPO").unwrap_or("/repo".into()))
                    .join("src"),
            ];
        while let Some(d) = dirs.pop() {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    dirs.push(p);
                } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                    let t = std::fs::read_to_string(&p).unwrap_or_default();
                    literals(t.split("#[cfg(test)]").next().unwrap_or(""), &mut out);
                }
            }
        }
        out.insert("a".into());
        out.into_iter().collect()
    })
}
fn literals(t: &str, out: &mut std::collections::BTreeSet<String>) {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            q @ ('"' | '\'') => {
                let mut s = String::new();
                let mut j = i + 1;
                while j < c.len() && c[j] != q && j - i < 400 {
                    if c[j] == '\\' {
                        j += 1;
                        match c.get(j) {
                            Some('n') => s.push('\n'),
                            Some('t') => s.push('\t'),
                            Some('r') => s.push('\r'),
                            Some('0') => s.push('\0'),
                            Some(x) => s.push(*x),
                            None => {}
                        }
                    } else {
                        s.push(c[j]);
                    }
                    j += 1;
                }
                if q == '"' || s.chars().count() == 1 {
                    if s.chars().count() <= 12 && !s.is_empty() && !s.contains("{}") {
                        out.insert(s);
                    }
                    i = j;
                }
            }
            _ => {}
        }
        i += 1;
    }
}
fn word(s: &str) -> bool {
    s.chars().all(|c| c.is_alphanumeric() || c == '_') && s.chars().any(|c| c.is_alphabetic())
}
fn dict_word(r: &mut Rng) -> String {
    for _ in 0..8 {
        let w = r.pick(dict());
        if word(w) {
            return w.clone();
        }
    }
    "a".into()
}
pub fn gstr(r: &mut Rng) -> String {
    if r.chance(1, 10) {
        let w = r.pick(dict()).clone();
        return match r.n(6) {
            0 => format!("{w}{}", r.pick(TRICKY)),
            1 => format!("{}{w}", r.pick(TRICKY)),
            2 => format!("a{w}b"),
            3 => format!("{w}{}", r.pick(dict())),
            _ => w,
        };
    }
    match r.n(12) {
        0..=5 => r.pick(TRICKY).to_string(),
        6 | 7 => format!("{}{}", r.pick(TRICKY), r.pick(TRICKY)),
        8 => format!("{} {}", r.pick(TRICKY), r.pick(TRICKY)),
        9 => {
            let n = r.n(6);
            let al = [
                "a", " ", "\n", "'", "\"", "\\", ":", "#", "-", ",", "\t", "\r", "é", "1", ".",
            ];
            (0..n).map(|_| *r.pick(&al)).collect()
        }
        10 => {
            // long text, to reach the folding code
            let words = 10 + r.n(25);
            let mut s = String::new();
            for i in 0..words {
                if i > 0 {
                    s.push_str(*r.pick(&[
                        " ", " ", " ", " ", " ", " ", " ", "  ", "\n", " \n", "\n\n", ", ",
                    ]));
                }
                match r.n(30) {
                    0 => s.push_str(&"x".repeat(80 + r.n(25))),
                    1 => s.push_str(r.pick(TRICKY)),
                    _ => s.push_str(*r.pick(&["word", "some", "lorem", "i", "ipsum'", "dolor"])),
                }
            }
            s
        }
        _ => {
            let n = 84 + r.n(14);
            let mut s: String = (0..n).map(|i| if i % 7 == 6 { ' ' } else { 'w' }).collect();
            if r.chance(1, 3) {
                s.push_str(r.pick(TRICKY));
            }
            if r.chance(1, 4) {
                s = format!("{}{}", r.pick(TRICKY), s);
            }
            s
        }
    }
}
pub fn gline(r: &mut Rng) -> String {
    match r.n(8) {
        0 | 1 => String::new(),
        2 => format!(" {}", r.pick(&["a", "", " b", "c d"])),
        3 => r
            .pick(&["\u{a0}x", "\tx", "x ", " ", "  ", "#", "- a", "a: b", "é"])
            .to_string(),
        4 => gstr(r),
        _ => r.pick(&["a", "b c", "word", "x'y", "d"]).to_string(),
    }
}
pub fn gchomp(r: &mut Rng) -> BlockChomping {
    match r.n(3) {
        0 => BlockChomping::Clip,
        1 => BlockChomping::Strip,
        _ => BlockChomping::Keep,
    }
}
pub fn gsq(r: &mut Rng) -> Vec<SingleQuotedStringPart> {
    (0..r.n(5))
        .map(|_| match r.n(6) {
            0 | 1 | 2 => SingleQuotedStringPart::String(gstr(r)),
            3 => SingleQuotedStringPart::EscapedChar(SingleQuotedStringEscapedChar::SingleQuote),
            4 => SingleQuotedStringPart::BlankLines(r.n(4)),
            _ => SingleQuotedStringPart::RemovableNewline,
        })
        .collect()
}
pub fn gdq(r: &mut Rng) -> Vec<DoubleQuotedStringPart> {
    use DoubleQuotedStringEscapedChar::*;
    (0..r.n(5))
        .map(|_| match r.n(6) {
            0 | 1 | 2 => DoubleQuotedStringPart::String(gstr(r)),
            3 => DoubleQuotedStringPart::EscapedChar(*r.pick(&[
                Quote,
                Backslash,
                Tab,
                CarriageReturn,
                Newline,
                RealNewline,
            ])),
            4 => DoubleQuotedStringPart::BlankLines(r.n(4)),
            _ => DoubleQuotedStringPart::RemovableNewline,
        })
        .collect()
}
pub fn gscalar(r: &mut Rng) -> Yaml {
    match r.n(10) {
        0..=3 => Yaml::UnquotedString(gstr(r)),
        4 | 5 => Yaml::SingleQuotedString(gsq(r)),
        6 | 7 => Yaml::DoubleQuotedString(gdq(r)),
        8 => Yaml::FoldedString((0..r.n(6)).map(|_| gline(r)).collect(), gchomp(r)),
        _ => Yaml::LiteralString((0..r.n(6)).map(|_| gline(r)).collect(), gchomp(r)),
    }
}
#[derive(Clone, Copy)]
pub struct Opts {
    pub comments: bool,
    pub alias: bool,
    pub anchors: bool,
    /// block nodes inside flow collections
    pub mixed: bool,
    /// only short scalars
    pub plain: bool,
}
pub const ALL: Opts = Opts {
    comments: true,
    alias: true,
    anchors: true,
    mixed: true,
    plain: false,
};
pub const SIMPLE: Opts = Opts {
    comments: true,
    alias: true,
    anchors: true,
    mixed: false,
    plain: true,
};

pub fn gleaf(r: &mut Rng, o: Opts) -> Yaml {
    if o.anchors && r.chance(1, 12) {
        return Yaml::Anchor(ganchor(r));
    }
    if o.plain {
        if r.chance(3, 4) {
            Yaml::UnquotedString(r.pick(&["v", "w", "1", "true", "a", "", "z z"]).to_string())
        } else if r.chance(1, 2) {
            Yaml::SingleQuotedString(vec![SingleQuotedStringPart::String(
                r.pick(&["v", "w", "1"]).to_string(),
            )])
        } else {
            gscalar(r)
        }
    } else {
        gscalar(r)
    }
}
/// an anchor name; now and then one that is also a key, a value or a word of the code
fn ganchor(r: &mut Rng) -> String {
    match r.n(8) {
        0 => r.pick(&KEYS[..3]).to_string(),
        1 => r.pick(&["v", "w"]).to_string(),
        2 if r.chance(1, 3) => dict_word(r),
        _ => r.pick(&["x", "y", "n1"]).to_string(),
    }
}
pub fn galias(r: &mut Rng, o: Opts) -> Option<String> {
    if o.alias && r.chance(1, 6) {
        Some(ganchor(r))
    } else {
        None
    }
}
pub fn gkey(r: &mut Rng) -> String {
    if r.chance(4, 5) {
        r.pick(&KEYS[..4]).to_string()
    } else if r.chance(1, 4) {
        dict_word(r)
    } else {
        r.pick(KEYS).to_string()
    }
}
pub fn gyaml(r: &mut Rng, depth: usize, flow: bool, o: Opts) -> Yaml {
    if depth == 0 || r.chance(1, 5) {
        return gleaf(r, o);
    }
    let n = if r.chance(1, 10) { 0 } else { 1 + r.n(4) };
    let mut kind = r.n(10);
    if flow && !o.mixed {
        kind = 8 + r.n(2);
    }
    match kind {
        0..=4 => Yaml::Hash(
            (0..n)
                .map(|_| {
                    if o.comments && r.chance(1, 6) {
                        if r.chance(1, 2) {
                            HashData::Comment(" c".into())
                        } else {
                            HashData::InlineComment(" i".into())
                        }
                    } else {
                        HashData::Element(HashElement {
                            key: gkey(r),
                            value: AliasedYaml {
                                alias: galias(r, o),
                                value: gyaml(r, depth - 1, flow, o),
                            },
                        })
                    }
                })
                .collect(),
        ),
        5..=7 => Yaml::Array(
            (0..n)
                .map(|_| {
                    if o.comments && r.chance(1, 6) {
                        if r.chance(1, 2) {
                            ArrayData::Comment(" c".into())
                        } else {
                            ArrayData::InlineComment(" i".into())
                        }
                    } else {
                        ArrayData::Element(AliasedYaml {
                            alias: galias(r, o),
                            value: gyaml(r, depth - 1, flow, o),
                        })
                    }
                })
                .collect(),
        ),
        8 => Yaml::InlineHash(
            (0..n)
                .map(|_| (gkey(r), gyaml(r, depth - 1, true, o)))
                .collect(),
        ),
        _ => Yaml::InlineArray((0..n).map(|_| gyaml(r, depth - 1, true, o)).collect()),
    }
}
/// all strings over `al` of at most `n` letters
pub fn strings(al: &[&str], n: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut cur = vec![String::new()];
    for _ in 0..n {
        let mut nx = vec![];
        for c in &cur {
            for a in al {
                nx.push(format!("{c}{a}"));
            }
        }
        out.extend(nx.iter().cloned());
        cur = nx;
    }
    out
}
/// all sequences over `al` of at most `n` items
pub fn seqs<T: Clone>(al: &[T], n: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    let mut cur: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..n {
        let mut nx = vec![];
        for c in &cur {
            for a in al {
                let mut v = c.clone();
                v.push(a.clone());
                nx.push(v);
            }
        }
        out.extend(nx.iter().cloned());
        cur = nx;
    }
    out
}
