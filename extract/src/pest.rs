//! The grammar files of /repo  ->  what the children and the text of a parse-tree node can be.
//!
//! pest generates the parser from the grammar; a node of the tree it returns has as children exactly the non-silent
//! rules matched inside (lookaheads, literals and atomic rules give none).  This reads the same file and writes
//! that down as a predicate over trees.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum E {
    Lit(String),
    ILit(String),
    Range(char, char),
    Id(String),
    Push(Box<E>),
    Peek,
    Look,
    Seq(Vec<E>),
    Alt(Vec<E>),
    Opt(Box<E>),
    Star(Box<E>),
    Plus(Box<E>),
}

#[derive(Clone, Debug)]
pub struct RuleDef {
    pub name: String,
    pub kind: char,
    pub e: E,
}

struct P<'a> {
    c: Vec<char>,
    i: usize,
    f: &'a str,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn ws(&mut self) {
        loop {
            while self.i < self.c.len() && self.c[self.i].is_whitespace() {
                self.i += 1;
            }
            if self.c[self.i..].starts_with(&['/', '/']) {
                while self.i < self.c.len() && self.c[self.i] != '\n' {
                    self.i += 1;
                }
            } else if self.c[self.i..].starts_with(&['/', '*']) {
                while self.i < self.c.len() && !self.c[self.i..].starts_with(&['*', '/']) {
                    self.i += 1;
                }
                self.i = (self.i + 2).min(self.c.len());
            } else {
                return;
            }
        }
    }
    fn eat(&mut self, s: &str) -> bool {
        self.ws();
        let t: Vec<char> = s.chars().collect();
        if self.c[self.i..].starts_with(&t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn need(&mut self, s: &str) -> R<()> {
        if self.eat(s) {
            Ok(())
        } else {
            Err(format!("{}: expected `{s}` at {}", self.f, self.c[self.i..].iter().take(20).collect::<String>()))
        }
    }
    fn ident(&mut self) -> Option<String> {
        self.ws();
        let s = self.i;
        while self.i < self.c.len() && (self.c[self.i].is_alphanumeric() || self.c[self.i] == '_') {
            self.i += 1;
        }
        if s == self.i {
            None
        } else {
            Some(self.c[s..self.i].iter().collect())
        }
    }
    fn escape(&mut self) -> R<char> {
        // after the backslash
        let k = self.c[self.i];
        self.i += 1;
        Ok(match k {
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            '0' => '\0',
            '\\' => '\\',
            '"' => '"',
            '\'' => '\'',
            'x' => {
                let h: String = self.c[self.i..self.i + 2].iter().collect();
                self.i += 2;
                u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("bad \\x")?
            }
            'u' => {
                let e = self.c[self.i..].iter().position(|c| *c == '}').ok_or("bad \\u")?;
                let h: String = self.c[self.i + 1..self.i + e].iter().collect();
                self.i += e + 1;
                u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("bad \\u")?
            }
            k => return Err(format!("{}: escape \\{k}", self.f)),
        })
    }
    fn string(&mut self) -> R<String> {
        let mut s = String::new();
        while self.i < self.c.len() {
            let k = self.c[self.i];
            self.i += 1;
            match k {
                '"' => return Ok(s),
                '\\' => s.push(self.escape()?),
                k => s.push(k),
            }
        }
        Err("unterminated string".into())
    }
    fn chr(&mut self) -> R<char> {
        self.need("'")?;
        let k = self.c[self.i];
        self.i += 1;
        let r = if k == '\\' { self.escape()? } else { k };
        self.need("'")?;
        Ok(r)
    }
    fn expr(&mut self) -> R<E> {
        self.eat("|");
        let mut alts = vec![self.seq()?];
        while self.eat("|") {
            alts.push(self.seq()?);
        }
        Ok(if alts.len() == 1 { alts.pop().unwrap() } else { E::Alt(alts) })
    }
    fn seq(&mut self) -> R<E> {
        let mut v = vec![self.term()?];
        while self.eat("~") {
            v.push(self.term()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { E::Seq(v) })
    }
    fn term(&mut self) -> R<E> {
        if self.eat("&") || self.eat("!") {
            self.term()?;
            return Ok(E::Look);
        }
        let mut e = self.atom()?;
        loop {
            if self.eat("?") {
                e = E::Opt(Box::new(e));
            } else if self.eat("*") {
                e = E::Star(Box::new(e));
            } else if self.eat("+") {
                e = E::Plus(Box::new(e));
            } else if self.eat("{") {
                let a = self.ident();
                let comma = self.eat(",");
                let b = if comma { self.ident() } else { None };
                self.need("}")?;
                let lo: usize = a.as_ref().and_then(|x| x.parse().ok()).unwrap_or(0);
                let mut v: Vec<E> = vec![e.clone(); lo];
                match (comma, b.and_then(|x| x.parse::<usize>().ok())) {
                    (false, _) => {}
                    (true, None) => v.push(E::Star(Box::new(e.clone()))),
                    (true, Some(hi)) => v.extend((lo..hi).map(|_| E::Opt(Box::new(e.clone())))),
                }
                e = E::Seq(v);
            } else {
                return Ok(e);
            }
        }
    }
    fn atom(&mut self) -> R<E> {
        self.ws();
        if self.i >= self.c.len() {
            return Err(format!("{}: unexpected end", self.f));
        }
        if self.eat("(") {
            let e = self.expr()?;
            self.need(")")?;
            return Ok(e);
        }
        if self.eat("^") {
            self.need("\"")?;
            return Ok(E::ILit(self.string()?));
        }
        if self.eat("\"") {
            return Ok(E::Lit(self.string()?));
        }
        if self.c[self.i] == '\'' {
            let a = self.chr()?;
            self.need("..")?;
            let b = self.chr()?;
            return Ok(E::Range(a, b));
        }
        match self.ident() {
            Some(n) if n == "PUSH" => {
                self.need("(")?;
                let e = self.expr()?;
                self.need(")")?;
                Ok(E::Push(Box::new(e)))
            }
            Some(n) if n == "PEEK" => {
                if self.eat("[") {
                    while self.i < self.c.len() && self.c[self.i] != ']' {
                        self.i += 1;
                    }
                    self.need("]")?;
                }
                Ok(E::Peek)
            }
            Some(n) if ["POP", "PEEK_ALL", "POP_ALL"].contains(&n.as_str()) => Ok(E::Peek),
            Some(n) if n == "DROP" => Ok(E::Look),
            Some(n) => Ok(E::Id(n)),
            None => Err(format!("{}: unexpected `{}`", self.f, self.c[self.i])),
        }
    }
}

pub struct Grammar {
    pub rules: Vec<RuleDef>,
    by: BTreeMap<String, usize>,
}

/// alphabet (None: any character), shortest length
type Abc = (Option<BTreeSet<char>>, usize);

#[derive(Clone, Debug, PartialEq)]
enum K {
    One(String),
    Many(String),
}

pub fn parse(file: &str, text: &str) -> R<Grammar> {
    let mut p = P { c: text.chars().collect(), i: 0, f: file };
    let mut rules: Vec<RuleDef> = vec![];
    loop {
        p.ws();
        if p.i >= p.c.len() {
            break;
        }
        let name = p.ident().ok_or_else(|| format!("{file}: rule name expected"))?;
        p.need("=")?;
        p.ws();
        let mut kind = ' ';
        for k in ['_', '@', '$', '!'] {
            if p.eat(&k.to_string()) {
                kind = k;
                break;
            }
        }
        p.need("{")?;
        let e = p.expr()?;
        p.need("}")?;
        rules.push(RuleDef { name, kind, e });
    }
    let by = rules.iter().enumerate().map(|(i, r)| (r.name.clone(), i)).collect();
    Ok(Grammar { rules, by })
}

impl Grammar {
    fn get(&self, n: &str) -> Option<&RuleDef> {
        self.by.get(n).map(|i| &self.rules[*i])
    }

    /// the possible sequences of children of an expression
    fn words(&self, e: &E, depth: usize) -> R<Vec<Vec<K>>> {
        if depth > 40 {
            return Err("silent rules nest too deeply".into());
        }
        let none = vec![vec![]];
        Ok(match e {
            E::Lit(_) | E::ILit(_) | E::Range(..) | E::Peek | E::Look => none,
            E::Id(n) => match self.get(n) {
                Some(r) if r.kind == '_' => self.words(&r.e, depth + 1)?,
                Some(_) => vec![vec![K::One(n.clone())]],
                None if n == "EOI" => vec![vec![K::One(n.clone())]],
                None => none,
            },
            E::Push(e) => self.words(e, depth + 1)?,
            E::Seq(v) => {
                let mut out: Vec<Vec<K>> = none;
                for x in v {
                    let w = self.words(x, depth + 1)?;
                    let mut n = vec![];
                    for a in &out {
                        for b in &w {
                            let mut c = a.clone();
                            c.extend(b.iter().cloned());
                            if !n.contains(&c) {
                                n.push(c);
                            }
                        }
                    }
                    out = n;
                }
                out
            }
            E::Alt(v) => {
                let mut out: Vec<Vec<K>> = vec![];
                for x in v {
                    for w in self.words(x, depth + 1)? {
                        if !out.contains(&w) {
                            out.push(w);
                        }
                    }
                }
                out
            }
            E::Opt(x) => {
                let mut out = self.words(x, depth + 1)?;
                if !out.contains(&vec![]) {
                    out.push(vec![]);
                }
                out
            }
            E::Star(x) => {
                let w = self.words(x, depth + 1)?;
                let mut one: Vec<&Vec<K>> = w.iter().filter(|w| !w.is_empty()).collect();
                match one.len() {
                    0 => none,
                    1 => match &one.pop().unwrap()[..] {
                        [K::One(n)] | [K::Many(n)] => vec![vec![K::Many(n.clone())]],
                        _ => return Err("a repetition of several children".into()),
                    },
                    _ => return Err("a repetition of different children".into()),
                }
            }
            E::Plus(x) => {
                let st = E::Star(x.clone());
                let w = self.words(x, depth + 1)?;
                if w.iter().all(|w| w.is_empty()) {
                    none
                } else {
                    self.words(&E::Seq(vec![(**x).clone(), st]), depth + 1)?
                }
            }
        })
    }

    /// exact set of texts, when the expression is a choice of literals
    fn texts(&self, e: &E) -> Option<BTreeSet<String>> {
        match e {
            E::Lit(s) => Some([s.clone()].into()),
            E::Alt(v) => {
                let mut o = BTreeSet::new();
                for x in v {
                    o.extend(self.texts(x)?);
                }
                Some(o)
            }
            _ => None,
        }
    }

    fn abc(&self, e: &E, gaps: &BTreeSet<char>, depth: usize) -> Abc {
        if depth > 40 {
            return (None, 0);
        }
        let join = |a: Option<BTreeSet<char>>, b: Option<BTreeSet<char>>| match (a, b) {
            (Some(a), Some(b)) => Some(a.union(&b).cloned().collect()),
            _ => None,
        };
        match e {
            E::Lit(s) => (Some(s.chars().collect()), s.chars().count()),
            E::ILit(s) => (Some(s.chars().flat_map(|c| [c.to_ascii_lowercase(), c.to_ascii_uppercase()]).collect()), s.chars().count()),
            E::Range(a, b) if (*b as u32) - (*a as u32) < 100 => (Some((*a..=*b).collect()), 1),
            E::Range(..) => (None, 1),
            E::Look => (Some(BTreeSet::new()), 0),
            E::Peek => (None, 0),
            E::Push(x) => self.abc(x, gaps, depth + 1),
            E::Id(n) => match self.get(n) {
                Some(r) => self.abc(&r.e, if r.kind == '@' || r.kind == '$' { &gaps } else { gaps }, depth + 1),
                None => match n.as_str() {
                    "NEWLINE" => (Some(['\n', '\r'].into()), 1),
                    "ASCII_DIGIT" => (Some(('0'..='9').collect()), 1),
                    "ASCII_NONZERO_DIGIT" => (Some(('1'..='9').collect()), 1),
                    "SOI" | "EOI" => (Some(BTreeSet::new()), 0),
                    _ => (None, 0),
                },
            },
            E::Seq(v) => {
                let mut a = (Some(BTreeSet::new()), 0);
                for x in v {
                    let b = self.abc(x, gaps, depth + 1);
                    a = (join(a.0, b.0), a.1 + b.1);
                }
                if v.len() > 1 {
                    a.0 = join(a.0, Some(gaps.clone()));
                }
                a
            }
            E::Alt(v) => {
                let mut a: Option<Abc> = None;
                for x in v {
                    let b = self.abc(x, gaps, depth + 1);
                    a = Some(match a {
                        None => b,
                        Some(a) => (join(a.0, b.0), a.1.min(b.1)),
                    });
                }
                a.unwrap_or((Some(BTreeSet::new()), 0))
            }
            E::Opt(x) => (self.abc(x, gaps, depth + 1).0, 0),
            E::Star(x) => (join(self.abc(x, gaps, depth + 1).0, Some(gaps.clone())), 0),
            E::Plus(x) => {
                let a = self.abc(x, gaps, depth + 1);
                (join(a.0, Some(gaps.clone())), a.1)
            }
        }
    }

    /// spaces pest skips by itself inside the sequences and repetitions of non-atomic rules
    fn gaps(&self) -> Option<BTreeSet<char>> {
        let mut o = BTreeSet::new();
        for n in ["WHITESPACE", "COMMENT"] {
            if let Some(r) = self.get(n) {
                o.extend(self.abc(&r.e, &BTreeSet::new(), 0).0?);
            }
        }
        Some(o)
    }

    pub fn emit(&self) -> R<String> {
        let mut o = String::new();
        let vis: Vec<&RuleDef> = self.rules.iter().filter(|r| r.kind != '_').collect();
        let _ = writeln!(o, "pub enum Rule {{ EOI, {} }}", vis.iter().map(|r| r.name.as_str()).collect::<Vec<_>>().join(", "));
        let ch = |c: char| format!("{:?}", c);
        let mut kids = String::new();
        let mut text = String::new();
        let gaps = self.gaps();
        for r in &vis {
            let ws = if r.kind == '@' { vec![vec![]] } else { self.words(&r.e, 0).map_err(|e| format!("rule {}: {e}", r.name))? };
            let mut alts = vec![];
            for w in &ws {
                let many: Vec<usize> = w.iter().enumerate().filter(|(_, k)| matches!(k, K::Many(_))).map(|x| x.0).collect();
                let nm = |k: &K| match k {
                    K::One(n) | K::Many(n) => n.clone(),
                };
                if many.len() > 1 {
                    return Err(format!("rule {}: two repetitions of children", r.name));
                }
                let mut c = vec![];
                match many.first() {
                    None => {
                        c.push(format!("k.len() == {}", w.len()));
                        c.extend(w.iter().enumerate().map(|(i, k)| format!("k[{i}].rule == Rule::{}", nm(k))));
                    }
                    Some(m) => {
                        let after = w.len() - m - 1;
                        c.push(format!("k.len() >= {}", w.len() - 1));
                        c.extend(w[..*m].iter().enumerate().map(|(i, k)| format!("k[{i}].rule == Rule::{}", nm(k))));
                        c.extend(w[m + 1..].iter().enumerate().map(|(i, k)| format!("k[k.len() - {}].rule == Rule::{}", after - i, nm(k))));
                        c.push(format!("(forall|i: int| {m} <= i < k.len() - {after} ==> (#[trigger] k[i]).rule == Rule::{})", nm(&w[*m])));
                    }
                }
                alts.push(format!("({})", c.join(" && ")));
            }
            let _ = writeln!(kids, "        Rule::{} => {},", r.name, alts.join(" || "));
            if let Some(ts) = self.texts(&r.e) {
                let v: Vec<String> = ts
                    .iter()
                    .map(|s| {
                        if s.is_empty() {
                            "s == Seq::<char>::empty()".to_string()
                        } else {
                            format!("s == seq![{}]", s.chars().map(ch).collect::<Vec<_>>().join(", "))
                        }
                    })
                    .collect();
                let _ = writeln!(text, "        Rule::{} => {},", r.name, v.join(" || "));
            } else if let Some(g) = &gaps {
                let none = BTreeSet::new();
                let (a, n) = self.abc(&r.e, if r.kind == '@' || r.kind == '$' { &none } else { g }, 0);
                if let Some(a) = a {
                    if a.len() <= 40 {
                        if a.is_empty() {
                            let _ = writeln!(text, "        Rule::{} => s.len() == 0,", r.name);
                        } else {
                            let cs: Vec<String> = a.iter().enumerate().map(|(j, c)| format!("{} == {}", if j == 0 { "(#[trigger] s[i])" } else { "s[i]" }, ch(*c))).collect();
                            let _ = writeln!(text, "        Rule::{} => s.len() >= {n} && (forall|i: int| 0 <= i < s.len() ==> ({})),", r.name, cs.join(" || "));
                        }
                    }
                }
            }
        }
        let _ = writeln!(o, "/// the children a node of this rule has (generated from the grammar)\npub open spec fn kids_ok(r: Rule, k: Seq<Tree>) -> bool {{\n    match r {{\n        Rule::EOI => k.len() == 0,\n{kids}    }}\n}}");
        let _ = writeln!(o, "/// the texts a node of this rule has, as far as its alphabet goes (generated from the grammar)\npub open spec fn text_ok(r: Rule, s: Seq<char>) -> bool {{\n    match r {{\n{}        _ => true,\n    }}\n}}", text);
        Ok(o)
    }
}
