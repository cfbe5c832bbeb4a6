//! Independent executable statements of what the properties demand.
use yaml_subset::yaml::string::*;
use yaml_subset::yaml::*;
use yaml_subset::YamlPath;

fn chomp(mut s: String, c: BlockChomping) -> String {
    match c {
        BlockChomping::Keep => {}
        BlockChomping::Clip | BlockChomping::Strip => {
            while s.ends_with('\n') {
                s.pop();
            }
        }
    }
    if !matches!(c, BlockChomping::Strip) {
        s.push('\n');
    }
    s
}
pub fn literal(lines: &[String], c: BlockChomping) -> String {
    let mut s = String::new();
    for (i, l) in lines.iter().enumerate() {
        if i > 0 {
            s.push('\n');
        }
        s += l;
    }
    chomp(s, c)
}
pub fn folded(lines: &[String], c: BlockChomping) -> String {
    if lines.is_empty() {
        return String::new();
    }
    let mut s = lines[0].clone();
    let mut fresh = false;
    for l in &lines[1..] {
        if l.is_empty() {
            s.push('\n');
            fresh = true;
        } else if l.starts_with(' ') {
            s = s + "\n" + l + "\n";
            fresh = true;
        } else {
            if !fresh {
                s.push(' ');
            }
            s += l;
            fresh = false;
        }
    }
    chomp(s, c)
}
pub fn scalar(y: &Yaml) -> Option<String> {
    match y {
        Yaml::UnquotedString(s) => Some(s.clone()),
        Yaml::SingleQuotedString(p) => Some(
            p.iter()
                .map(|p| match p {
                    SingleQuotedStringPart::String(s) => s.clone(),
                    SingleQuotedStringPart::EscapedChar(
                        SingleQuotedStringEscapedChar::SingleQuote,
                    ) => "'".into(),
                    SingleQuotedStringPart::BlankLines(n) => "\n".repeat(*n),
                    SingleQuotedStringPart::RemovableNewline => String::new(),
                })
                .collect(),
        ),
        Yaml::DoubleQuotedString(p) => Some(
            p.iter()
                .map(|p| match p {
                    DoubleQuotedStringPart::String(s) => s.clone(),
                    DoubleQuotedStringPart::EscapedChar(c) => match c {
                        DoubleQuotedStringEscapedChar::Quote => "\"",
                        DoubleQuotedStringEscapedChar::Backslash => "\\",
                        DoubleQuotedStringEscapedChar::Tab => "\t",
                        DoubleQuotedStringEscapedChar::CarriageReturn => "\r",
                        DoubleQuotedStringEscapedChar::Newline
                        | DoubleQuotedStringEscapedChar::RealNewline => "\n",
                    }
                    .into(),
                    DoubleQuotedStringPart::BlankLines(n) => "\n".repeat(*n),
                    DoubleQuotedStringPart::RemovableNewline => String::new(),
                })
                .collect(),
        ),
        Yaml::FoldedString(l, c) => Some(folded(l, *c)),
        Yaml::LiteralString(l, c) => Some(literal(l, *c)),
        _ => None,
    }
}

/// what a reader without a type in mind takes a scalar for
#[derive(Debug, Clone, PartialEq)]
pub enum Kind {
    Null,
    Bool(bool),
    I(i64),
    U(u64),
    F(u64),
    Str(String),
}
pub fn kind(y: &Yaml) -> Option<Kind> {
    Some(match y {
        Yaml::UnquotedString(s) => match &s[..] {
            "~" | "null" | "Null" | "NULL" => Kind::Null,
            "true" => Kind::Bool(true),
            "false" => Kind::Bool(false),
            _ => {
                if let Ok(i) = s.parse::<i64>() {
                    Kind::I(i)
                } else if let Ok(u) = s.parse::<u64>() {
                    Kind::U(u)
                } else if let Ok(f) = s.parse::<f64>() {
                    Kind::F(f.to_bits())
                } else {
                    Kind::Str(s.clone())
                }
            }
        },
        y => Kind::Str(scalar(y)?),
    })
}

/// the data of a document, without the layout
#[derive(Debug, Clone, PartialEq)]
pub enum V {
    S(Kind),
    Alias(String),
    Seq(Vec<Item>),
    Map(Vec<Item>),
}
#[derive(Debug, Clone, PartialEq)]
pub enum Item {
    Comment(String),
    Inline(String),
    El(String, Option<String>, V),
}
/// `flow`: inside a flow collection comments and anchors cannot be kept
pub fn view(y: &Yaml, flow: bool) -> V {
    match y {
        Yaml::Anchor(a) => V::Alias(a.clone()),
        Yaml::Hash(v) => V::Map(
            v.iter()
                .filter_map(|d| match d {
                    HashData::Element(e) => Some(Item::El(
                        e.key.clone(),
                        if flow { None } else { e.value.alias.clone() },
                        view(&e.value.value, flow),
                    )),
                    HashData::Comment(c) if !flow => Some(Item::Comment(c.clone())),
                    HashData::InlineComment(c) if !flow => Some(Item::Inline(c.clone())),
                    _ => None,
                })
                .collect(),
        ),
        Yaml::Array(v) => V::Seq(
            v.iter()
                .filter_map(|d| match d {
                    ArrayData::Element(e) => Some(Item::El(
                        String::new(),
                        if flow { None } else { e.alias.clone() },
                        view(&e.value, flow),
                    )),
                    ArrayData::Comment(c) if !flow => Some(Item::Comment(c.clone())),
                    ArrayData::InlineComment(c) if !flow => Some(Item::Inline(c.clone())),
                    _ => None,
                })
                .collect(),
        ),
        Yaml::InlineHash(v) => V::Map(
            v.iter()
                .map(|(k, v)| Item::El(k.clone(), None, view(v, true)))
                .collect(),
        ),
        Yaml::InlineArray(v) => V::Seq(
            v.iter()
                .map(|v| Item::El(String::new(), None, view(v, true)))
                .collect(),
        ),
        y => V::S(kind(y).unwrap()),
    }
}

// ---- paths ----------------------------------------------------------------
type Conds = Vec<(String, String)>;
#[derive(Debug, Clone, PartialEq)]
pub enum Step {
    Root(Conds),
    Key(String, Conds),
    All(Conds),
    Idx(Vec<usize>, Conds),
}
/// The steps of a path, read from its debug output (its conditions have no public type).
pub fn get<'a>(y: &'a Yaml, key: &str) -> Option<&'a AliasedYaml> {
    match y {
        Yaml::Hash(v) => v.iter().find_map(|d| match d {
            HashData::Element(e) if e.key == key => Some(&e.value),
            _ => None,
        }),
        _ => None,
    }
}
pub fn fits(y: &Yaml, c: &Conds) -> bool {
    c.iter()
        .all(|(f, v)| get(y, f).and_then(|a| scalar(&a.value)).as_deref() == Some(v))
}
fn elements(y: &Yaml) -> Option<Vec<&Yaml>> {
    match y {
        Yaml::InlineArray(v) => Some(v.iter().collect()),
        Yaml::Array(v) => Some(
            v.iter()
                .filter_map(|d| match d {
                    ArrayData::Element(e) => Some(&e.value),
                    _ => None,
                })
                .collect(),
        ),
        _ => None,
    }
}
fn elements_mut(y: &mut Yaml) -> Option<Vec<&mut Yaml>> {
    match y {
        Yaml::InlineArray(v) => Some(v.iter_mut().collect()),
        Yaml::Array(v) => Some(
            v.iter_mut()
                .filter_map(|d| match d {
                    ArrayData::Element(e) => Some(&mut e.value),
                    _ => None,
                })
                .collect(),
        ),
        _ => None,
    }
}
pub fn find(y: &Yaml, p: &[Step]) -> Vec<Yaml> {
    if p.is_empty() {
        return vec![y.clone()];
    }
    match &p[0] {
        Step::Root(c) => {
            if fits(y, c) {
                vec![y.clone()]
            } else {
                vec![]
            }
        }
        Step::Key(k, c) => {
            if !fits(y, c) {
                return vec![];
            }
            match get(y, k) {
                Some(a) => find(&a.value, &p[1..]),
                None => vec![],
            }
        }
        Step::All(c) => elements(y)
            .unwrap_or_default()
            .into_iter()
            .filter(|e| fits(e, c))
            .flat_map(|e| find(e, &p[1..]))
            .collect(),
        Step::Idx(ix, c) => {
            let es = elements(y).unwrap_or_default();
            ix.iter()
                .filter_map(|i| es.get(*i))
                .filter(|e| fits(e, c))
                .flat_map(|e| find(e, &p[1..]))
                .collect()
        }
    }
}
fn first_index(d: &[HashData], k: &str) -> Option<usize> {
    d.iter()
        .position(|d| matches!(d, HashData::Element(e) if e.key == k))
}
/// structural edit at the parent mapping of the last key; `op(entries, key, position)`
pub fn edit(
    y: &mut Yaml,
    p: &[Step],
    op: &dyn Fn(&mut Vec<HashData>, &str, Option<usize>) -> usize,
) -> usize {
    match &p[0] {
        Step::Root(_) => 0,
        Step::Key(k, c) => {
            if !fits(y, c) {
                return 0;
            }
            match y {
                Yaml::Hash(d) => {
                    let i = first_index(d, k);
                    if p.len() == 1 {
                        op(d, k, i)
                    } else {
                        match i.map(|i| &mut d[i]) {
                            Some(HashData::Element(e)) => edit(&mut e.value.value, &p[1..], op),
                            _ => 0,
                        }
                    }
                }
                _ => 0,
            }
        }
        Step::All(c) => {
            if p.len() == 1 {
                return 0;
            }
            elements_mut(y)
                .unwrap_or_default()
                .into_iter()
                .map(|e| if fits(e, c) { edit(e, &p[1..], op) } else { 0 })
                .sum()
        }
        Step::Idx(ix, c) => {
            if p.len() == 1 {
                return 0;
            }
            let mut es = elements_mut(y).unwrap_or_default();
            let mut n = 0;
            for i in ix {
                if let Some(e) = es.get_mut(*i) {
                    if fits(e, c) {
                        n += edit(e, &p[1..], op);
                    }
                }
            }
            n
        }
    }
}
/// applies `f` to the mapping entries a path ends at, `r` to the other nodes it ends at
pub fn at_ends(
    y: &mut Yaml,
    p: &[Step],
    f: &dyn Fn(&mut HashElement) -> usize,
    r: &dyn Fn(&mut Yaml) -> usize,
) -> usize {
    if p.is_empty() {
        return r(y);
    }
    match &p[0] {
        Step::Root(c) => {
            if fits(y, c) {
                r(y)
            } else {
                0
            }
        }
        Step::Key(k, c) => {
            if !fits(y, c) {
                return 0;
            }
            match y {
                Yaml::Hash(d) => match first_index(d, k).map(|i| &mut d[i]) {
                    Some(HashData::Element(e)) => {
                        if p.len() == 1 {
                            f(e)
                        } else {
                            at_ends(&mut e.value.value, &p[1..], f, r)
                        }
                    }
                    _ => 0,
                },
                _ => 0,
            }
        }
        Step::All(c) => elements_mut(y)
            .unwrap_or_default()
            .into_iter()
            .map(|e| {
                if fits(e, c) {
                    at_ends(e, &p[1..], f, r)
                } else {
                    0
                }
            })
            .sum(),
        Step::Idx(ix, c) => {
            let mut es = elements_mut(y).unwrap_or_default();
            let mut n = 0;
            for i in ix {
                if let Some(e) = es.get_mut(*i) {
                    if fits(e, c) {
                        n += at_ends(e, &p[1..], f, r);
                    }
                }
            }
            n
        }
    }
}
pub fn el(k: &str, v: AliasedYaml) -> HashData {
    HashData::Element(HashElement {
        key: k.to_string(),
        value: v,
    })
}
pub fn plain(value: Yaml) -> AliasedYaml {
    AliasedYaml { alias: None, value }
}

fn conds_text(c: &Conds) -> String {
    c.iter().map(|(f, v)| format!("|{f}={v}")).collect()
}
/// the textual form of a path (single indexes only)
pub fn path_text(p: &[Step]) -> String {
    let mut s = String::new();
    for (i, st) in p.iter().enumerate() {
        match st {
            Step::Root(c) => s += &conds_text(c),
            Step::Key(k, c) => {
                if i > 0 {
                    s.push('.');
                }
                s += k;
                s += &conds_text(c);
            }
            Step::All(c) => {
                s += "[*]";
                s += &conds_text(c);
            }
            Step::Idx(ix, c) => {
                s += &format!("[{}]", ix[0]);
                s += &conds_text(c);
            }
        }
    }
    s
}
/// the debug form that `YamlPath` must have for these steps
pub fn path_debug(p: &[Step]) -> String {
    fn conds(c: &Conds) -> String {
        format!(
            "[{}]",
            c.iter()
                .map(|(f, v)| format!("Condition {{ field: {f:?}, value: {v:?} }}"))
                .collect::<Vec<_>>()
                .join(", ")
        )
    }
    let rest = |p: &[Step]| {
        if p.len() > 1 {
            format!("Some({})", path_debug(&p[1..]))
        } else {
            "None".to_string()
        }
    };
    match &p[0] {
        Step::Root(c) => format!("Root({})", conds(c)),
        Step::Key(k, c) => format!("Key({k:?}, {}, {})", conds(c), rest(p)),
        Step::All(c) => format!("AllIndexes({}, {})", conds(c), rest(p)),
        Step::Idx(i, c) => format!("Indexes({i:?}, {}, {})", conds(c), rest(p)),
    }
}
/// builds the real path object. `Condition` is not nameable outside the crate, so conditions
/// come from the path parser; indexes lists of other lengths than one are built directly.
pub fn build(p: &[Step]) -> YamlPath {
    fn one(s: &Step, nested: bool) -> YamlPath {
        match s {
            Step::Root(_) => path_text(std::slice::from_ref(s)).parse().unwrap(),
            Step::Key(..) => path_text(std::slice::from_ref(s)).parse().unwrap(),
            Step::All(c) | Step::Idx(_, c) => {
                let _ = nested;
                // take the conditions from a parsed path, the rest from the step
                let t = format!("k[*]{}", conds_text(c));
                match t.parse::<YamlPath>().unwrap() {
                    YamlPath::Key(_, _, Some(b)) => match (*b, s) {
                        (YamlPath::AllIndexes(c, _), Step::All(_)) => YamlPath::AllIndexes(c, None),
                        (YamlPath::AllIndexes(c, _), Step::Idx(i, _)) => {
                            YamlPath::Indexes(i.clone(), c, None)
                        }
                        _ => unreachable!(),
                    },
                    _ => unreachable!(),
                }
            }
        }
    }
    let mut acc: Option<YamlPath> = None;
    for s in p.iter().rev() {
        let o = one(s, true);
        acc = Some(match (o, acc) {
            (o, None) => o,
            (YamlPath::Key(k, c, _), n) => YamlPath::Key(k, c, n.map(Box::new)),
            (YamlPath::AllIndexes(c, _), n) => YamlPath::AllIndexes(c, n.map(Box::new)),
            (YamlPath::Indexes(i, c, _), n) => YamlPath::Indexes(i, c, n.map(Box::new)),
            (o @ YamlPath::Root(_), _) => o,
        });
    }
    acc.unwrap()
}

/// the layout of a document, written down independently of the formatter
pub fn layout(d: &Document) -> String {
    let mut s = String::new();
    for c in &d.leading_comments {
        s += &format!("#{c}\n");
    }
    s += "---";
    for i in &d.items {
        match i {
            DocumentData::Comment(c) => s += &format!("\n#{c}"),
            DocumentData::Yaml(y) => {
                let t = node(y, 0, false);
                let flow = t.starts_with(" [") || t.starts_with(" {");
                s += &if flow { t.replacen(' ', "\n", 1) } else { t };
            }
        }
    }
    s
}
/// what stands behind the `:` or `-` of a node whose lines have indentation n
fn node(y: &Yaml, n: usize, dash: bool) -> String {
    let pad = " ".repeat(n);
    let block = |style: &str, l: &[String], c: BlockChomping| {
        if l.is_empty() {
            return String::new();
        }
        let sign = match c {
            BlockChomping::Clip => "",
            BlockChomping::Strip => "-",
            BlockChomping::Keep => "+",
        };
        let spaced = l.iter().find(|l| !l.is_empty()).is_some_and(|l| l.starts_with(' '));
        let body: Vec<String> = l.iter().map(|l| format!("\n{pad}{l}")).collect();
        format!(" {style}{sign}{}{}", if spaced { "2" } else { "" }, body.concat())
    };
    match y {
        Yaml::UnquotedString(s) => format!(" {s}"),
        Yaml::Anchor(a) => format!(" *{a}"),
        Yaml::SingleQuotedString(p) => {
            let p: Vec<String> = p
                .iter()
                .map(|p| match p {
                    SingleQuotedStringPart::String(s) => s.clone(),
                    SingleQuotedStringPart::EscapedChar(_) => "''".into(),
                    SingleQuotedStringPart::BlankLines(n) => "\n".repeat(n + 1),
                    SingleQuotedStringPart::RemovableNewline => "\n".into(),
                })
                .collect();
            format!(" '{}'", p.concat())
        }
        Yaml::DoubleQuotedString(p) => {
            let p: Vec<String> = p
                .iter()
                .map(|p| match p {
                    DoubleQuotedStringPart::String(s) => s.clone(),
                    DoubleQuotedStringPart::EscapedChar(c) => format!(
                        "\\{}",
                        match c {
                            DoubleQuotedStringEscapedChar::Quote => '"',
                            DoubleQuotedStringEscapedChar::Backslash => '\\',
                            DoubleQuotedStringEscapedChar::Tab => 't',
                            DoubleQuotedStringEscapedChar::CarriageReturn => 'r',
                            DoubleQuotedStringEscapedChar::Newline => 'n',
                            DoubleQuotedStringEscapedChar::RealNewline => '\n',
                        }
                    ),
                    DoubleQuotedStringPart::BlankLines(n) => "\n".repeat(n + 1),
                    DoubleQuotedStringPart::RemovableNewline => "\n".into(),
                })
                .collect();
            format!(" \"{}\"", p.concat())
        }
        Yaml::LiteralString(l, c) => block("|", l, *c),
        Yaml::FoldedString(l, c) => block(">", l, *c),
        Yaml::InlineArray(v) if v.is_empty() => " []".into(),
        Yaml::Array(v) if v.is_empty() => " []".into(),
        Yaml::InlineHash(v) if v.is_empty() => " {}".into(),
        Yaml::Hash(v) if v.is_empty() => " {}".into(),
        Yaml::InlineArray(v) => {
            let v: Vec<String> = v.iter().map(|y| node(y, 0, false)).collect();
            format!(" [{} ]", v.join(","))
        }
        Yaml::InlineHash(v) => {
            let v: Vec<String> = v.iter().map(|(k, y)| format!(" {k}:{}", node(y, 0, false))).collect();
            format!(" {{{} }}", v.join(","))
        }
        Yaml::Array(v) => lines(
            n,
            dash,
            v.iter().map(|d| match d {
                ArrayData::Comment(c) => Line::Comment(c),
                ArrayData::InlineComment(c) => Line::Inline(c),
                ArrayData::Element(e) => Line::Entry("-".into(), e, true),
            }),
        ),
        Yaml::Hash(v) => lines(
            n,
            dash,
            v.iter().map(|d| match d {
                HashData::Comment(c) => Line::Comment(c),
                HashData::InlineComment(c) => Line::Inline(c),
                HashData::Element(e) => Line::Entry(format!("{}:", e.key), &e.value, false),
            }),
        ),
    }
}
enum Line<'a> {
    Comment(&'a str),
    Inline(&'a str),
    Entry(String, &'a AliasedYaml, bool),
}
fn lines<'a>(n: usize, dash: bool, v: impl Iterator<Item = Line<'a>>) -> String {
    let pad = format!("\n{}", " ".repeat(n));
    let mut s = String::new();
    let mut block = false;
    for (i, l) in v.enumerate() {
        match l {
            Line::Comment(c) => s += &format!("{pad}#{c}"),
            Line::Inline(c) => s += &format!("{}#{c}", if block { &pad } else { " " }),
            Line::Entry(head, e, seq) => {
                s += if i == 0 && dash { " " } else { &pad };
                s += &head;
                s += &match &e.alias {
                    Some(a) => format!(" &{a}{}", node(&e.value, n + 2, false)),
                    None => node(&e.value, n + 2, seq),
                };
                block = ends_in_block(&e.value);
                continue;
            }
        }
        block = false;
    }
    s
}
fn ends_in_block(y: &Yaml) -> bool {
    match y {
        Yaml::LiteralString(..) | Yaml::FoldedString(..) => true,
        Yaml::Array(v) => matches!(v.last(), Some(ArrayData::Element(e)) if ends_in_block(&e.value)),
        Yaml::Hash(v) => matches!(v.last(), Some(HashData::Element(e)) if ends_in_block(&e.value.value)),
        _ => false,
    }
}
