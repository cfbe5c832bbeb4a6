//! One search per property: exhaustive over a small space, then random until the time is up.
use crate::ctx::*;
use crate::gen::*;
use crate::oracle::*;
use serde::{Deserialize, Serialize};
use yaml_subset::yaml::string::*;
use yaml_subset::yaml::*;
use yaml_subset::YamlPath;

type R2 = Result<(), (String, String)>;

pub const ALL_PROPS: &[(&str, fn(&mut Ctx) -> Res, &str)] = &[
    ("C01", c01, "scalar nodes of every style over small alphabets of parts/lines and chomping modes, then random ones; non-trivial: has content"),
    ("C02", c02, "all strings of at most 3 characters over 24 tricky characters, a list of tricky strings and their pairs, then random and long ones; non-trivial: not empty"),
    ("C03", c03, "random trees with comments, anchors, aliases, all scalar styles and flow/block mixes; non-trivial: contains a scalar"),
    ("C04", c04, "random trees whose flow collections contain any node; non-trivial: has a flow collection"),
    ("C05", c05, "random trees and paths with conditions; non-trivial: the path finds something"),
    ("C06", c06, "random trees, paths and insert/overwrite/remove operations; non-trivial: the tree changes"),
    ("C07", c07, "random trees, paths and rename/wrap operations; non-trivial: the tree changes"),
    ("C08", c08, "random trees, paths, target names and lists of distinct field names; non-trivial: the tree changes"),
    ("C09", c09, "random maps of records with comments, selectors and keep lists; non-trivial: something moves"),
    ("C10", c10, "path texts generated from steps, mutated texts and raw strings; appends of step lists; non-trivial: more than one step or rejected text"),
    ("C11", c11, "random trees and lists; non-trivial: more than one visited node"),
    ("C12", c12, "random trees with a stateful rewriting closure; non-trivial: more than one node"),
    ("C13", c13, "every scalar style and tricky text read at every scalar type; non-trivial: not empty"),
    ("C14", c14, "random trees with anchors and aliases read untyped; non-trivial: contains a collection"),
    ("C15", c15, "random values of structs, maps, tuples, options and all enum forms, written and read back as trees; non-trivial: always"),
    ("C16", c16, "random values written as text (pretty and raw) and read back; non-trivial: always"),
    ("C17", c17, "generated, mutated and raw texts through the parser and the untyped reader; block scalar texts compared line by line; non-trivial: parses or has block scalars"),
    ("C18", c18, "texts written from random trees (own writer: all node kinds, layouts, comments, aliases, line break styles) parsed and compared with the tree; non-trivial: always"),
];

fn each<T, F: FnMut(&mut Ctx, T) -> Res>(c: &mut Ctx, items: Vec<T>, mut f: F) -> Res {
    for i in items {
        f(c, i)?;
    }
    Ok(())
}
fn random<F: FnMut(&mut Ctx, &mut Rng) -> Res>(c: &mut Ctx, mut f: F) -> Res {
    let mut i = 0;
    while c.time_left() {
        for _ in 0..64 {
            let mut r = Rng::new(c.seed, i);
            i += 1;
            f(c, &mut r)?;
        }
    }
    Ok(())
}

// ---- C01 -------------------------------------------------------------------
fn check_scalar(c: &mut Ctx, y: Yaml) -> Res {
    c.case(format!("{y:?}"), format!("{y:?}").len() > 24, || {
        let want = scalar(&y);
        eq(&want, &y.as_string())?;
        eq(
            &want,
            &AliasedYaml {
                alias: None,
                value: y.clone(),
            }
            .as_string(),
        )?;
        match &y {
            Yaml::LiteralString(l, ch) => eq(
                &want.clone().unwrap(),
                &parse_literal(l.iter().map(|s| &s[..]).collect(), *ch),
            )?,
            Yaml::FoldedString(l, ch) => eq(
                &want.clone().unwrap(),
                &parse_folded(l.iter().map(|s| &s[..]).collect(), *ch),
            )?,
            Yaml::SingleQuotedString(p) => {
                eq(&want.clone().unwrap(), &parse_single_quoted_string(p))?
            }
            Yaml::DoubleQuotedString(p) => {
                eq(&want.clone().unwrap(), &parse_double_quoted_string(p))?
            }
            _ => {}
        }
        // reading the node as a string gives the same text
        let got: Result<String, _> = from_yaml(y.clone());
        match (want, y) {
            (_, Yaml::Anchor(_)) => Ok(()),
            (Some(w), _) => eq(&Some(w), &got.ok()),
            (None, _) => eq(&None, &got.ok()),
        }
    })
}
fn c01(c: &mut Ctx) -> Res {
    let chomps = [
        BlockChomping::Clip,
        BlockChomping::Strip,
        BlockChomping::Keep,
    ];
    let lines: Vec<String> = [
        "", "a", " b", "\n", "c d", " ", "\u{a0}e", "-", "f\n", "\n\n",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for l in seqs(&lines, 4) {
        for ch in chomps {
            check_scalar(c, Yaml::LiteralString(l.clone(), ch))?;
            check_scalar(c, Yaml::FoldedString(l.clone(), ch))?;
        }
    }
    use DoubleQuotedStringEscapedChar::*;
    let mut dq: Vec<DoubleQuotedStringPart> = vec![];
    for e in [Quote, Backslash, Tab, CarriageReturn, Newline, RealNewline] {
        dq.push(DoubleQuotedStringPart::EscapedChar(e));
    }
    for n in 0..4 {
        dq.push(DoubleQuotedStringPart::BlankLines(n));
    }
    for s in ["", "a", "é b", "\n"] {
        dq.push(DoubleQuotedStringPart::String(s.into()));
    }
    dq.push(DoubleQuotedStringPart::RemovableNewline);
    each(c, seqs(&dq, 3), |c, p| {
        check_scalar(c, Yaml::DoubleQuotedString(p))
    })?;
    let mut sq = vec![
        SingleQuotedStringPart::EscapedChar(SingleQuotedStringEscapedChar::SingleQuote),
        SingleQuotedStringPart::RemovableNewline,
    ];
    for n in 0..4 {
        sq.push(SingleQuotedStringPart::BlankLines(n));
    }
    for s in ["", "a", "é b", "\n"] {
        sq.push(SingleQuotedStringPart::String(s.into()));
    }
    each(c, seqs(&sq, 3), |c, p| {
        check_scalar(c, Yaml::SingleQuotedString(p))
    })?;
    each(c, TRICKY.to_vec(), |c, s| {
        check_scalar(c, Yaml::UnquotedString(s.into()))
    })?;
    for y in [
        Yaml::Hash(vec![]),
        Yaml::Array(vec![]),
        Yaml::InlineHash(vec![]),
        Yaml::InlineArray(vec![]),
        Yaml::Anchor("x".into()),
    ] {
        check_scalar(c, y)?;
    }
    random(c, |c, r| {
        let y = gscalar(r);
        check_scalar(c, y)
    })
}

// ---- C02 -------------------------------------------------------------------
fn doc(y: Yaml) -> Document {
    Document {
        leading_comments: vec![],
        items: vec![DocumentData::Yaml(y)],
    }
}
fn hash(v: Vec<(&str, Yaml)>) -> Yaml {
    Yaml::Hash(v.into_iter().map(|(k, y)| el(k, plain(y))).collect())
}
fn array(v: Vec<Yaml>) -> Yaml {
    Yaml::Array(
        v.into_iter()
            .map(|y| ArrayData::Element(plain(y)))
            .collect(),
    )
}
fn values_of(d: &Document) -> Vec<V> {
    d.items
        .iter()
        .filter_map(|i| match i {
            DocumentData::Yaml(y) => Some(view(y, true)),
            _ => None,
        })
        .collect()
}
/// formatting and parsing gives a document with the same data
fn text_keeps(y: &Yaml, want: &V) -> R2 {
    let text = doc(y.clone())
        .format()
        .map_err(|e| ("text".to_string(), format!("{e:?}")))?;
    match parse_yaml_file(&text) {
        Ok(d) => eq(&vec![want.clone()], &values_of(&d))
            .map_err(|(e, a)| (e, format!("{a} (text {text:?})"))),
        Err(e) => Err((
            format!("{want:?}"),
            format!("does not parse: {:?} (text {text:?})", e.location()),
        )),
    }
}
fn u(s: &str) -> Yaml {
    Yaml::UnquotedString(s.into())
}
/// a scalar in the places where scalars occur
fn contexts(y: &Yaml) -> Vec<Yaml> {
    let y = || y.clone();
    vec![
        hash(vec![("k", y())]),
        hash(vec![("k", y()), ("z", u("q"))]),
        hash(vec![
            ("k", hash(vec![("k", y()), ("z", u("q"))])),
            ("y", u("p")),
        ]),
        array(vec![y(), u("q")]),
        array(vec![array(vec![y(), u("q")])]),
        array(vec![array(vec![u("q"), y()]), u("q")]),
        array(vec![hash(vec![("k", y()), ("z", u("q"))])]),
        array(vec![hash(vec![("z", u("q")), ("k", y())]), u("r")]),
        hash(vec![
            ("k", array(vec![hash(vec![("k", y()), ("z", u("q"))])])),
            ("z", u("q")),
        ]),
    ]
}
fn flow_contexts(y: &Yaml) -> Vec<Yaml> {
    vec![
        hash(vec![
            ("k", Yaml::InlineArray(vec![y.clone(), u("q")])),
            ("z", u("q")),
        ]),
        hash(vec![(
            "k",
            Yaml::InlineHash(vec![("k".into(), y.clone()), ("z".into(), u("q"))]),
        )]),
        array(vec![Yaml::InlineArray(vec![Yaml::InlineArray(vec![
            y.clone()
        ])])]),
    ]
}
fn check_string(c: &mut Ctx, s: &str, text: bool) -> Res {
    c.case(format!("{s:?}"), !s.is_empty(), || {
        let y = s
            .serialize(YamlSerializer)
            .map_err(|e| ("Ok".to_string(), format!("{e:?}")))?;
        // the node denotes the string, and an untyped reader takes it for a string
        eq(&Some(s.to_string()), &scalar(&y))?;
        eq(&Some(s.to_string()), &y.as_string())?;
        eq(&Some(Kind::Str(s.to_string())), &kind(&y))
            .map_err(|(a, b)| (a, format!("{b} node {y:?}")))?;
        eq(
            &Ok(s.to_string()),
            &from_yaml::<String>(y.clone()).map_err(|e| e.0),
        )?;
        if text {
            for x in contexts(&y).into_iter().chain(flow_contexts(&y)) {
                let want = view(&x, true);
                text_keeps(&x, &want)?;
                let p = x.pretty();
                text_keeps(&p, &want)?;
            }
        }
        Ok(())
    })
}
fn c02(c: &mut Ctx) -> Res {
    let al = [
        "a", " ", "\n", "'", "\"", "\\", ":", "#", "-", ",", "[", "]", "{", "}", ">", "|", "&",
        "*", "\t", "\r", "1", ".", "\u{a0}", "~",
    ];
    each(c, strings(&al, 3), |c, s| {
        check_string(c, &s, s.chars().count() <= 2)
    })?;
    each(c, TRICKY.to_vec(), |c, s| check_string(c, s, true))?;
    for a in TRICKY {
        for b in TRICKY {
            check_string(c, &format!("{a}{b}"), false)?;
        }
    }
    random(c, |c, r| {
        let s = gstr(r);
        let t = r.chance(1, 3);
        check_string(c, &s, t)
    })
}

// ---- C03 / C04 ---------------------------------------------------------------
fn big(y: &Yaml) -> bool {
    matches!(y, Yaml::Hash(v) if !v.is_empty()) || matches!(y, Yaml::Array(v) if !v.is_empty())
}
fn c03(c: &mut Ctx) -> Res {
    let mut check = |c: &mut Ctx, y: Yaml| -> Res {
        c.case(format!("{y:?}"), big(&y) || scalar(&y).is_some(), || {
            let want = view(&y, false);
            eq(&want, &view(&y.clone().pretty(), false))?;
            let d = Document {
                leading_comments: vec![" l".into()],
                items: vec![
                    DocumentData::Comment(" d".into()),
                    DocumentData::Yaml(y.clone()),
                ],
            };
            let p = d.clone().pretty();
            eq(&d.leading_comments, &p.leading_comments)?;
            match &p.items[..] {
                [DocumentData::Comment(x), DocumentData::Yaml(q)] if x == " d" => {
                    eq(&want, &view(q, false))
                }
                o => Err(("comment and document".into(), format!("{o:?}"))),
            }
        })
    };
    for s in TRICKY {
        for y in [
            Yaml::SingleQuotedString(vec![SingleQuotedStringPart::String(s.to_string())]),
            Yaml::DoubleQuotedString(vec![DoubleQuotedStringPart::String(s.to_string())]),
            Yaml::UnquotedString(s.to_string()),
            s.serialize(YamlSerializer).unwrap(),
        ] {
            check(c, y.clone())?;
            for x in contexts(&y) {
                check(c, x)?;
            }
        }
    }
    // every short two-level tree of a few scalars
    let leaves = [
        u("v"),
        u("a, b"),
        Yaml::SingleQuotedString(vec![SingleQuotedStringPart::String("1".into())]),
        Yaml::Anchor("x".into()),
        Yaml::InlineArray(vec![]),
        Yaml::Hash(vec![]),
        Yaml::Array(vec![]),
    ];
    let mut inner: Vec<Yaml> = leaves.to_vec();
    for s in seqs(&leaves, 2) {
        inner.push(array(s.clone()));
        inner.push(Yaml::InlineArray(s.clone()));
        inner.push(Yaml::Hash(
            s.iter()
                .map(|y| {
                    el(
                        "k",
                        AliasedYaml {
                            alias: Some("x".into()),
                            value: y.clone(),
                        },
                    )
                })
                .collect(),
        ));
    }
    for s in seqs(&inner, 2) {
        check(c, array(s.clone()))?;
        check(
            c,
            Yaml::Hash(s.iter().map(|y| el("k", plain(y.clone()))).collect()),
        )?;
        check(c, Yaml::InlineArray(s))?;
    }
    random(c, |c, r| {
        let d = 1 + r.n(4);
        let y = gyaml(r, d, false, ALL);
        check(c, y)
    })
}
fn breaking(s: &str) -> bool {
    s.contains([',', '[', ']', '{', '}', '"', '>', '|'])
}
fn has_block_scalar(y: &Yaml, flow: bool) -> bool {
    match y {
        Yaml::LiteralString(..) | Yaml::FoldedString(..) => flow,
        Yaml::Hash(v) => v
            .iter()
            .any(|d| matches!(d, HashData::Element(e) if has_block_scalar(&e.value.value, flow))),
        Yaml::Array(v) => v
            .iter()
            .any(|d| matches!(d, ArrayData::Element(e) if has_block_scalar(&e.value, flow))),
        Yaml::InlineHash(v) => v.iter().any(|(_, y)| has_block_scalar(y, true)),
        Yaml::InlineArray(v) => v.iter().any(|y| has_block_scalar(y, true)),
        _ => false,
    }
}
fn has_flow(y: &Yaml) -> bool {
    match y {
        Yaml::Hash(v) => v
            .iter()
            .any(|d| matches!(d, HashData::Element(e) if has_flow(&e.value.value))),
        Yaml::Array(v) => v
            .iter()
            .any(|d| matches!(d, ArrayData::Element(e) if has_flow(&e.value))),
        Yaml::InlineHash(_) | Yaml::InlineArray(_) => true,
        _ => false,
    }
}
/// what is wrong with the use of flow collections
fn flow_ok(y: &Yaml, flow: bool) -> Result<(), String> {
    match y {
        Yaml::Hash(v) => {
            if flow || v.is_empty() {
                return Err(format!("block mapping {y:?}"));
            }
            v.iter().try_for_each(|d| match d {
                HashData::Element(e) => flow_ok(&e.value.value, false),
                _ => Ok(()),
            })
        }
        Yaml::Array(v) => {
            if flow || v.is_empty() {
                return Err(format!("block sequence {y:?}"));
            }
            v.iter().try_for_each(|d| match d {
                ArrayData::Element(e) => flow_ok(&e.value, false),
                _ => Ok(()),
            })
        }
        Yaml::InlineHash(v) => v.iter().try_for_each(|(_, y)| flow_ok(y, true)),
        Yaml::InlineArray(v) => v.iter().try_for_each(|y| flow_ok(y, true)),
        Yaml::UnquotedString(s) if flow && breaking(s) => Err(format!("plain scalar {s:?}")),
        Yaml::LiteralString(..) | Yaml::FoldedString(..) if flow => {
            Err(format!("block scalar {y:?}"))
        }
        _ => Ok(()),
    }
}
fn c04(c: &mut Ctx) -> Res {
    let mut check = |c: &mut Ctx, y: Yaml| -> Res {
        if has_block_scalar(&y, false) {
            return Ok(());
        }
        c.case(format!("{y:?}"), has_flow(&y), || {
            let p = y.clone().pretty();
            flow_ok(&p, false).map_err(|e| {
                (
                    "flow collections that can be written".to_string(),
                    format!("{e} in {p:?}"),
                )
            })
        })
    };
    let leaves = [
        u("v"),
        u("a, b"),
        u("{x"),
        u("p|q"),
        Yaml::DoubleQuotedString(vec![DoubleQuotedStringPart::EscapedChar(
            DoubleQuotedStringEscapedChar::Newline,
        )]),
        Yaml::SingleQuotedString(vec![SingleQuotedStringPart::BlankLines(1)]),
        Yaml::Hash(vec![]),
        Yaml::Array(vec![]),
        Yaml::SingleQuotedString(vec![SingleQuotedStringPart::String("x".repeat(95))]),
    ];
    let mut inner: Vec<Yaml> = leaves.to_vec();
    for s in seqs(&leaves, 2) {
        inner.push(array(s.clone()));
        inner.push(Yaml::InlineArray(s.clone()));
        inner.push(Yaml::Hash(
            s.iter().map(|y| el("k", plain(y.clone()))).collect(),
        ));
        inner.push(Yaml::InlineHash(
            s.iter().map(|y| ("k".to_string(), y.clone())).collect(),
        ));
    }
    for s in seqs(&inner, 2) {
        check(c, array(s.clone()))?;
        check(c, Yaml::InlineArray(s.clone()))?;
        if s.len() < 2 {
            check(
                c,
                Yaml::InlineHash(s.iter().map(|y| ("k".to_string(), y.clone())).collect()),
            )?;
            check(c, Yaml::InlineArray(vec![array(s.clone())]))?;
            check(c, array(vec![array(s.clone())]))?;
            check(
                c,
                Yaml::Hash(s.iter().map(|y| el("k", plain(y.clone()))).collect()),
            )?;
        }
    }
    random(c, |c, r| {
        let d = 1 + r.n(4);
        let y = gyaml(r, d, r.0 & 64 == 0, ALL);
        check(c, y)
    })
}

// ---- paths -------------------------------------------------------------------
fn gconds(r: &mut Rng) -> Vec<(String, String)> {
    if r.chance(3, 4) {
        return vec![];
    }
    (0..1 + r.n(2))
        .map(|_| {
            (
                gkey(r),
                r.pick(&["v", "w", "1", "a", "true", "zz"]).to_string(),
            )
        })
        .collect()
}
fn gpath(r: &mut Rng) -> Vec<Step> {
    if r.chance(1, 14) {
        return vec![Step::Root(gconds(r))];
    }
    let n = 1 + r.n(4);
    (0..n)
        .map(|_| match r.n(6) {
            0 | 1 | 2 => Step::Key(gkey(r), gconds(r)),
            3 => Step::All(gconds(r)),
            _ => Step::Idx(
                (0..if r.chance(3, 4) { 1 } else { r.n(4) })
                    .map(|_| r.n(4))
                    .collect(),
                gconds(r),
            ),
        })
        .collect()
}
/// a path that follows the tree for a while
fn gpath_in(r: &mut Rng, y: &Yaml) -> Vec<Step> {
    if r.chance(1, 10) {
        return gpath(r);
    }
    let mut p = vec![];
    let mut y = y;
    for _ in 0..4 {
        let c = |r: &mut Rng, of: &Yaml| -> Vec<(String, String)> {
            if r.chance(2, 3) {
                return vec![];
            }
            if let Yaml::Hash(v) = of {
                for d in v {
                    if let HashData::Element(e) = d {
                        if let Some(s) = scalar(&e.value.value) {
                            let s = s.trim().to_string();
                            if !s.is_empty() && !s.contains(['.', '|', '=']) {
                                return vec![(
                                    e.key.clone(),
                                    if r.chance(1, 5) { "no".into() } else { s },
                                )];
                            }
                        }
                    }
                }
            }
            gconds(r)
        };
        match y {
            Yaml::Hash(v) => {
                let es: Vec<_> = v
                    .iter()
                    .filter_map(|d| match d {
                        HashData::Element(e) => Some(e),
                        _ => None,
                    })
                    .collect();
                if es.is_empty() {
                    break;
                }
                let e = r.pick(&es);
                p.push(Step::Key(
                    if r.chance(1, 8) {
                        gkey(r)
                    } else {
                        e.key.clone()
                    },
                    c(r, y),
                ));
                y = &e.value.value;
            }
            Yaml::Array(_) | Yaml::InlineArray(_) => {
                let es: Vec<&Yaml> = match y {
                    Yaml::Array(v) => v
                        .iter()
                        .filter_map(|d| match d {
                            ArrayData::Element(e) => Some(&e.value),
                            _ => None,
                        })
                        .collect(),
                    Yaml::InlineArray(v) => v.iter().collect(),
                    _ => vec![],
                };
                if es.is_empty() {
                    break;
                }
                let i = r.n(es.len());
                let cs = c(r, es[i]);
                if r.chance(1, 2) {
                    p.push(Step::All(cs));
                } else if r.chance(1, 5) {
                    p.push(Step::Idx((0..r.n(4)).map(|_| r.n(4)).collect(), cs));
                } else {
                    p.push(Step::Idx(vec![i], cs));
                }
                y = es[i];
            }
            _ => break,
        }
        if r.chance(1, 4) {
            break;
        }
    }
    if p.is_empty() {
        gpath(r)
    } else {
        if r.chance(1, 5) {
            p.push(Step::Key(gkey(r), vec![]));
        }
        p
    }
}
fn gtree(r: &mut Rng) -> Yaml {
    let d = 1 + r.n(4);
    let mut y = gyaml(r, d, false, SIMPLE);
    let mut k = 0;
    while !big(&y) && k < 4 {
        y = gyaml(r, d, false, SIMPLE);
        k += 1;
    }
    y
}
/// small trees and paths, exhaustively
fn small_trees() -> Vec<Yaml> {
    let leaves = [u("v"), u("1"), Yaml::Anchor("x".into())];
    let mut one: Vec<Yaml> = leaves.to_vec();
    let mk = |s: &[Yaml]| -> Vec<Yaml> {
        let mut o = vec![array(s.to_vec()), Yaml::InlineArray(s.to_vec())];
        let mut h = vec![];
        let mut h2 = vec![HashData::Comment(" c".into())];
        let mut a2 = vec![ArrayData::Comment(" c".into())];
        for (i, y) in s.iter().enumerate() {
            h.push(el(
                ["a", "b"][i % 2],
                AliasedYaml {
                    alias: Some("x".into()),
                    value: y.clone(),
                },
            ));
            h2.push(el("a", plain(y.clone())));
            h2.push(HashData::InlineComment(" i".into()));
            a2.push(ArrayData::Element(AliasedYaml {
                alias: Some("y".into()),
                value: y.clone(),
            }));
            a2.push(ArrayData::InlineComment(" i".into()));
        }
        o.push(Yaml::Hash(h));
        o.push(Yaml::Hash(h2));
        o.push(Yaml::Array(a2));
        o.push(Yaml::InlineHash(
            s.iter().map(|y| ("a".to_string(), y.clone())).collect(),
        ));
        o
    };
    for s in seqs(&leaves[..2], 2) {
        one.extend(mk(&s));
    }
    let mut two = one.clone();
    for s in seqs(&one, 2) {
        two.extend(mk(&s));
    }
    two
}
fn small_paths() -> Vec<Vec<Step>> {
    let c = vec![("a".to_string(), "v".to_string())];
    let steps = [
        Step::Key("a".into(), vec![]),
        Step::Key("b".into(), c.clone()),
        Step::All(vec![]),
        Step::All(c.clone()),
        Step::Idx(vec![1], vec![]),
        Step::Idx(vec![0], c.clone()),
        Step::Idx(vec![1, 0, 5], vec![]),
    ];
    let mut p: Vec<_> = seqs(&steps, 3)
        .into_iter()
        .filter(|p| !p.is_empty())
        .collect();
    p.push(vec![Step::Root(vec![])]);
    p.push(vec![Step::Root(c)]);
    p
}
/// runs `check` on small cases (a sample in the quick tier) and then random ones
fn on_trees(c: &mut Ctx, mut check: impl FnMut(&mut Ctx, &mut Rng, &Yaml, &[Step]) -> Res) -> Res {
    let trees = small_trees();
    let paths = small_paths();
    let mut r = Rng::new(c.seed, 77);
    let half = c.deadline - (c.deadline - std::time::Instant::now()) / 2;
    for i in 0..trees.len() * 3 {
        if std::time::Instant::now() > half {
            break;
        }
        let t = &trees[(i * 7919) % trees.len()];
        for _ in 0..6 {
            let p = r.pick(&paths).clone();
            check(c, &mut r, t, &p)?;
        }
        let p = gpath_in(&mut r, t);
        check(c, &mut r, t, &p)?;
    }
    random(c, |c, r| {
        let t = gtree(r);
        let p = gpath_in(r, &t);
        check(c, r, &t, &p)
    })
}

// ---- C05 -------------------------------------------------------------------
fn c05(c: &mut Ctx) -> Res {
    on_trees(c, |c, r, t, p| {
        let want = find(t, p);
        let t2 = if r.chance(1, 2) { t.clone() } else { gtree(r) };
        c.case(format!("{t:?} path {p:?}"), !want.is_empty(), || {
            let path = build(p);
            let mut y = t.clone();
            let got = y.find_values(&path);
            eq(&want, &got.0)?;
            eq(t, &y)?;
            // the wrappers give the same answers
            let mut a = plain(t.clone());
            eq(&want, &a.find_values(&path).0)?;
            let mut d = Document {
                leading_comments: vec![],
                items: vec![
                    DocumentData::Comment(" c".into()),
                    DocumentData::Yaml(t.clone()),
                    DocumentData::Yaml(t2.clone()),
                ],
            };
            let mut w2 = want.clone();
            w2.extend(find(&t2, p));
            eq(&w2, &d.find_values(&path).0)?;
            eq(
                &vec![
                    DocumentData::Comment(" c".into()),
                    DocumentData::Yaml(t.clone()),
                    DocumentData::Yaml(t2.clone()),
                ],
                &d.items,
            )
        })
    })
}

// ---- C06 -------------------------------------------------------------------
fn c06(c: &mut Ctx) -> Res {
    on_trees(c, |c, r, t, p| {
        let new = AliasedYaml {
            alias: galias(r, ALL),
            value: gyaml(r, 1, false, SIMPLE),
        };
        let op = r.n(4);
        let overwrite = r.chance(1, 2);
        let mut want = t.clone();
        let n = match op {
            0 | 1 => edit(&mut want, p, &|d, k, i| match i {
                None => {
                    d.push(el(k, new.clone()));
                    1
                }
                Some(i) if overwrite => {
                    d[i] = el(k, new.clone());
                    1
                }
                Some(_) => 0,
            }),
            _ => edit(&mut want, p, &|d, _, i| match i {
                Some(i) => {
                    d.remove(i);
                    1
                }
                None => 0,
            }),
        };
        let nt = want != *t;
        c.case(
            format!(
                "{t:?} path {p:?} op {} overwrite {overwrite} new {new:?}",
                ["insert", "insert_by_call", "remove", "remove"][op]
            ),
            nt,
            || {
                let path = build(p);
                let mut y = t.clone();
                let m = match op {
                    0 => y.insert_into_hash(&path, &new, overwrite),
                    1 => y.insert_into_hash_by_call(&path, || new.clone(), overwrite),
                    _ => y.remove_from_hash(&path),
                };
                eq(&(n, want.clone()), &(m, y))?;
                let mut d = Document {
                    leading_comments: vec![],
                    items: vec![
                        DocumentData::Comment(" c".into()),
                        DocumentData::Yaml(t.clone()),
                    ],
                };
                let m = match op {
                    0 => d.insert_into_hash(&path, &new, overwrite),
                    1 => d.insert_into_hash_by_call(&path, || new.clone(), overwrite),
                    _ => d.remove_from_hash(&path),
                };
                eq(
                    &(
                        n,
                        vec![
                            DocumentData::Comment(" c".into()),
                            DocumentData::Yaml(want.clone()),
                        ],
                    ),
                    &(m, d.items),
                )?;
                // inserted values are found again
                if let (0 | 1, true, [Step::Key(k, cs)]) = (op, overwrite, p) {
                    if cs.is_empty() && n == 1 {
                        let mut w = want.clone();
                        eq(
                            &vec![new.value.clone()],
                            &w.find_values(&build(&[Step::Key(k.clone(), vec![])])).0,
                        )?;
                    }
                }
                Ok(())
            },
        )
    })
}

// ---- C07 -------------------------------------------------------------------
fn c07(c: &mut Ctx) -> Res {
    on_trees(c, |c, r, t, p| {
        let name = r.pick(&["new", "a", "b", "", "x.y"]).to_string();
        let wrap = r.chance(1, 2);
        let mut want = t.clone();
        let n = at_ends(
            &mut want,
            p,
            &|e| {
                if wrap {
                    let old = std::mem::replace(&mut e.value, plain(Yaml::Hash(vec![])));
                    e.value = plain(Yaml::Hash(vec![el(&name, old)]));
                } else {
                    e.key = name.clone();
                }
                1
            },
            &|_| 0,
        );
        let nt = want != *t;
        c.case(
            format!(
                "{t:?} path {p:?} {} {name:?}",
                if wrap { "to_object" } else { "rename_field" }
            ),
            nt,
            || {
                let path = build(p);
                let mut y = t.clone();
                let m = if wrap {
                    y.to_object(&path, name.clone())
                } else {
                    y.rename_field(&path, name.clone())
                };
                eq(&(n, want), &(m, y))
            },
        )
    })
}

// ---- C08 -------------------------------------------------------------------
fn move_oracle(h: &mut Yaml, sub: &str, names: &[String]) -> usize {
    let Yaml::Hash(d) = h else { return 0 };
    let moved: Vec<(String, AliasedYaml)> = names
        .iter()
        .enumerate()
        .filter(|(i, n)| *n != sub && !names[..*i].contains(n))
        .filter_map(|(_, n)| {
            d.iter().find_map(|x| match x {
                HashData::Element(e) if e.key == *n => Some((n.clone(), e.value.clone())),
                _ => None,
            })
        })
        .collect();
    if moved.is_empty() {
        return 0;
    }
    let pos = |d: &[HashData], k: &str| {
        d.iter()
            .position(|x| matches!(x, HashData::Element(e) if e.key == k))
    };
    match pos(d, sub) {
        Some(i) => {
            let HashData::Element(e) = &mut d[i] else {
                unreachable!()
            };
            let Yaml::Hash(s) = &mut e.value.value else {
                return 0;
            };
            for (k, v) in &moved {
                match pos(s, k) {
                    Some(j) => s[j] = el(k, v.clone()),
                    None => s.push(el(k, v.clone())),
                }
            }
        }
        None => d.push(el(
            sub,
            plain(Yaml::Hash(
                moved.iter().map(|(k, v)| el(k, v.clone())).collect(),
            )),
        )),
    }
    for (k, _) in &moved {
        if let Some(i) = pos(d, k) {
            d.remove(i);
        }
    }
    1
}
fn c08(c: &mut Ctx) -> Res {
    on_trees(c, |c, r, t, p| {
        let sub = if r.chance(1, 8) {
            "x.y[".to_string()
        } else {
            gkey(r)
        };
        let mut names: Vec<String> = vec![];
        for _ in 0..r.n(4) {
            let k = if r.chance(1, 10) {
                "n.o".to_string()
            } else {
                gkey(r)
            };
            names.push(k);
        }
        let mut want = t.clone();
        let n = at_ends(
            &mut want,
            p,
            &|e| move_oracle(&mut e.value.value, &sub, &names),
            &|h| move_oracle(h, &sub, &names),
        );
        let nt = want != *t;
        c.case(
            format!("{t:?} path {p:?} move {names:?} to {sub:?}"),
            nt,
            || {
                let path = build(p);
                let mut y = t.clone();
                let m = y.move_to_subfield(&path, sub.clone(), names.clone());
                eq(&(n, want), &(m, y))
            },
        )
    })
}

// ---- C09 -------------------------------------------------------------------
fn strip_field(y: &Yaml, k: &str) -> Yaml {
    let mut y = y.clone();
    if let Yaml::Hash(d) = &mut y {
        if let Some(i) = d
            .iter()
            .position(|x| matches!(x, HashData::Element(e) if e.key == k))
        {
            d.remove(i);
        }
    }
    y
}
fn regroup_oracle(h: &mut Yaml, old: &str, selector: &str, new: &str, keeps: &[String]) -> usize {
    let Yaml::Hash(d) = h else { return 0 };
    let pos = |d: &[HashData], k: &str| {
        d.iter()
            .position(|x| matches!(x, HashData::Element(e) if e.key == k))
    };
    if pos(d, new).is_some() {
        return 0;
    }
    let Some(oi) = pos(d, old) else { return 0 };
    let HashData::Element(oe) = d[oi].clone() else {
        unreachable!()
    };
    let Yaml::Hash(entries) = oe.value.value else {
        return 0;
    };
    // destination of every element: None = stays, Some(group)
    let mut dest: Vec<Option<Option<String>>> = vec![];
    let mut content: Vec<HashData> = vec![];
    for e in &entries {
        match e {
            HashData::Element(e) => {
                let sel = get(&e.value.value, selector).and_then(|a| scalar(&a.value));
                match sel {
                    Some(s) => {
                        dest.push(Some(if keeps.contains(&s) || s.is_empty() {
                            None
                        } else {
                            Some(s)
                        }));
                        content.push(HashData::Element(HashElement {
                            key: e.key.clone(),
                            value: AliasedYaml {
                                alias: e.value.alias.clone(),
                                value: strip_field(&e.value.value, selector),
                            },
                        }));
                    }
                    None => {
                        dest.push(Some(None));
                        content.push(HashData::Element(e.clone()));
                    }
                }
            }
            cm => {
                dest.push(None);
                content.push(cm.clone());
            }
        }
    }
    // comments go with the next element, trailing ones with the last element
    let last = dest.iter().rev().find_map(|d| d.clone()).unwrap_or(None);
    let mut groups: std::collections::BTreeMap<String, Vec<HashData>> = Default::default();
    let mut stay = vec![];
    for i in 0..dest.len() {
        let to = dest[i..]
            .iter()
            .find_map(|d| d.clone())
            .unwrap_or_else(|| last.clone());
        match to {
            Some(g) => groups.entry(g).or_default().push(content[i].clone()),
            None => stay.push(content[i].clone()),
        }
    }
    if groups.is_empty() {
        return 0;
    }
    d.push(el(
        new,
        AliasedYaml {
            alias: oe.value.alias.clone(),
            value: Yaml::Hash(
                groups
                    .into_iter()
                    .map(|(k, v)| el(&k, plain(Yaml::Hash(v))))
                    .collect(),
            ),
        },
    ));
    d[oi] = el(
        old,
        AliasedYaml {
            alias: oe.value.alias,
            value: Yaml::Hash(stay),
        },
    );
    1
}
fn c09(c: &mut Ctx) -> Res {
    random(c, |c, r| {
        let sel = r.pick(&["t", "sel"]).to_string();
        let n = r.n(6);
        let mut recs = vec![];
        for _ in 0..n {
            match r.n(6) {
                0 => recs.push(if r.chance(1, 2) {
                    HashData::Comment(" c".into())
                } else {
                    HashData::InlineComment(" i".into())
                }),
                1 => recs.push(el(&gkey(r), plain(gyaml(r, 1, false, SIMPLE)))),
                _ => {
                    let mut f = vec![];
                    for _ in 0..r.n(3) {
                        f.push(el(&gkey(r), plain(gleaf(r, SIMPLE))));
                    }
                    let v = match r.n(8) {
                        0 => array(vec![]),
                        1 => Yaml::SingleQuotedString(vec![SingleQuotedStringPart::String(
                            "g1".into(),
                        )]),
                        _ => u(r.pick(&["g1", "g2", "g0", "", "k", "a.b"])),
                    };
                    let at = r.n(f.len() + 1);
                    f.insert(at, el(&sel, plain(v)));
                    if r.chance(1, 8) {
                        f.push(el(&sel, plain(u("g2"))));
                    }
                    recs.push(el(
                        &gkey(r),
                        AliasedYaml {
                            alias: galias(r, ALL),
                            value: Yaml::Hash(f),
                        },
                    ));
                }
            }
        }
        let mut top = vec![];
        for _ in 0..r.n(3) {
            top.push(el(&gkey(r), plain(gleaf(r, SIMPLE))));
        }
        let at = r.n(top.len() + 1);
        top.insert(
            at,
            el(
                "old",
                AliasedYaml {
                    alias: galias(r, ALL),
                    value: if r.chance(1, 12) {
                        gyaml(r, 1, false, SIMPLE)
                    } else {
                        Yaml::Hash(recs)
                    },
                },
            ),
        );
        let inner = Yaml::Hash(top);
        let (t, p) = match r.n(4) {
            0 => (
                hash(vec![("a", inner)]),
                vec![Step::Key("a".into(), vec![])],
            ),
            1 => (
                array(vec![inner.clone(), u("v"), inner]),
                vec![Step::All(vec![])],
            ),
            _ => (inner, vec![Step::Root(vec![])]),
        };
        let new = r
            .pick(&["new", "new", "new", "a", "old", "x.y"])
            .to_string();
        let keeps: Vec<String> = (0..r.n(3))
            .map(|_| r.pick(&["k", "g1", "zz"]).to_string())
            .collect();
        let mut want = t.clone();
        let k = at_ends(
            &mut want,
            &p,
            &|e| regroup_oracle(&mut e.value.value, "old", &sel, &new, &keeps),
            &|h| regroup_oracle(h, "old", &sel, &new, &keeps),
        );
        let nt = want != t;
        c.case(
            format!("{t:?} path {p:?} old \"old\" selector {sel:?} new {new:?} keeps {keeps:?}"),
            nt,
            || {
                let path = build(&p);
                let mut y = t.clone();
                let m = y.move_to_map_with_field_as_key(
                    &path,
                    "old".into(),
                    sel.clone(),
                    new.clone(),
                    keeps.clone(),
                );
                eq(&(k, want), &(m, y))
            },
        )
    })
}

// ---- C10 -------------------------------------------------------------------
/// a word of a path text without the separators `not`, and without spaces at its ends
fn path_word(r: &mut Rng, fixed: &[&str], not: &str) -> String {
    if r.chance(1, 2) {
        return r.pick(fixed).to_string();
    }
    let al = [
        'a', 'B', '0', '9', ' ', '"', '\'', '-', '_', '+', '*', '~', '\\', '/', ':', '#', '<', '>',
        '{', '}', '(', ',', '&', '!', '?', '\t', 'é', '\u{a0}', '[', ']', '.', '|', '=',
    ];
    let mut s = String::new();
    for _ in 0..1 + r.n(5) {
        let ch = *r.pick(&al);
        if !not.contains(ch) {
            s.push(ch);
        }
    }
    let s = s.trim_matches(' ').to_string();
    if s.is_empty() {
        "k".into()
    } else {
        s
    }
}
fn gtext_steps(r: &mut Rng) -> Vec<Step> {
    let cs = |r: &mut Rng| -> Vec<(String, String)> {
        (0..if r.chance(2, 3) { 0 } else { 1 + r.n(2) })
            .map(|_| {
                (
                    path_word(r, &["f", "name", "é"], "="),
                    path_word(r, &["1", "x y", "ü", "v=w"], ".|"),
                )
            })
            .collect()
    };
    if r.chance(1, 12) {
        return vec![Step::Root(cs(r))];
    }
    let key = |r: &mut Rng| {
        path_word(
            r,
            &["a", "b", "key-1", "x y", "é", "*", "0", "a=b", "'"],
            "[].|",
        )
    };
    let mut p = vec![Step::Key(key(r), cs(r))];
    for _ in 0..r.n(5) {
        // a condition value extends to the next '.' or '|', so no index directly after one
        let after_cond = match p.last().unwrap() {
            Step::Key(_, c) | Step::All(c) | Step::Idx(_, c) | Step::Root(c) => !c.is_empty(),
        };
        let s = match r.n(3) {
            0 if !after_cond => Step::All(cs(r)),
            1 if !after_cond => Step::Idx(
                vec![*r.pick(&[
                    0,
                    1,
                    10,
                    255,
                    256,
                    65536,
                    4294967296,
                    12345678901234567890usize,
                    usize::MAX,
                ])],
                cs(r),
            ),
            _ => Step::Key(key(r), cs(r)),
        };
        p.push(s);
    }
    p
}
/// the text of the path with spaces around its separators
fn spaced_path(r: &mut Rng, p: &[Step]) -> String {
    let mut s = String::new();
    let sp = |r: &mut Rng| " ".repeat([0, 0, 1, 2][r.n(4)]);
    for (i, st) in p.iter().enumerate() {
        let conds = match st {
            Step::Key(k, c) => {
                if i > 0 {
                    s = format!("{s}{}.{}", sp(r), sp(r));
                }
                s += k;
                c
            }
            Step::All(c) => {
                s = format!("{s}{}[{}*{}]", sp(r), sp(r), sp(r));
                c
            }
            Step::Idx(n, c) => {
                s = format!(
                    "{s}{}[{}{}{}{}]",
                    sp(r),
                    sp(r),
                    "0".repeat(r.n(3)),
                    n[0],
                    sp(r)
                );
                c
            }
            Step::Root(c) => c,
        };
        for (f, v) in conds {
            s = format!(
                "{s}{}|{}{f}{}={}{v}",
                if s.is_empty() { String::new() } else { sp(r) },
                sp(r),
                sp(r),
                sp(r)
            );
        }
    }
    s + &sp(r)
}
fn c10(c: &mut Ctx) -> Res {
    let al = ["a", ".", "[", "]", "|", "=", "*", "0", " ", "9"];
    each(c, strings(&al, 4), |c, s| {
        c.case(format!("text {s:?}"), true, || {
            let _ = s.parse::<YamlPath>();
            Ok(())
        })
    })?;
    random(c, |c, r| {
        let p = gtext_steps(r);
        let text = path_text(&p);
        c.case(format!("text {text:?}"), p.len() > 1, || {
            let got = text
                .parse::<YamlPath>()
                .map_err(|e| ("path".to_string(), e.to_string()))?;
            eq(&path_debug(&p), &format!("{got:?}"))?;
            // appending the steps one by one gives the same path
            let mut acc = match (&p[0], build(&p[..1])) {
                (_, b) => b,
            };
            for s in &p[1..] {
                acc.insert(build(std::slice::from_ref(s)));
            }
            if !matches!(p[0], Step::Root(_)) {
                eq(&path_debug(&p), &format!("{acc:?}"))?;
            }
            // appending a whole path puts it at the end
            if p.len() > 1 && !matches!(p[0], Step::Root(_)) {
                let k = p.len() / 2;
                let mut acc = build(&p[..k.max(1)]);
                acc.insert(build(&p[k.max(1)..]));
                eq(&path_debug(&p), &format!("{acc:?}"))?;
            }
            let spaced = spaced_path(r, &p);
            match spaced.parse::<YamlPath>() {
                Ok(g) if g == got => {}
                o => return Err((path_debug(&p), format!("{spaced:?} gives {o:?}"))),
            }
            let mut root: YamlPath = "".parse().unwrap();
            root.insert(got.clone());
            eq(&got, &root)
        })?;
        // arbitrary texts are accepted or rejected, never a crash
        let mut t: Vec<char> = text.chars().collect();
        for _ in 0..1 + r.n(4) {
            let i = r.n(t.len() + 1);
            let ch = *r.pick(&['.', '[', ']', '|', '=', '*', '9', ' ', 'a', '\n', 'é', '"']);
            if r.chance(1, 2) && i < t.len() {
                t[i] = ch;
            } else {
                t.insert(i, ch);
            }
        }
        if r.chance(1, 6) {
            t = format!("a[{}]", "9".repeat(1 + r.n(40))).chars().collect();
        }
        let t: String = t.into_iter().collect();
        c.case(format!("text {t:?}"), true, || {
            let _ = t.parse::<YamlPath>();
            Ok(())
        })
    })
}

// ---- C11 -------------------------------------------------------------------
fn visit_oracle(y: &Yaml, out: &mut Vec<AliasedYaml>) {
    match y {
        Yaml::Hash(v) => v.iter().for_each(|d| {
            if let HashData::Element(e) = d {
                out.push(e.value.clone());
                visit_oracle(&e.value.value, out);
            }
        }),
        Yaml::Array(v) => v.iter().for_each(|d| {
            if let ArrayData::Element(e) = d {
                out.push(e.clone());
                visit_oracle(&e.value, out);
            }
        }),
        Yaml::InlineHash(v) => v.iter().for_each(|(_, y)| visit_oracle(y, out)),
        Yaml::InlineArray(v) => v.iter().for_each(|y| visit_oracle(y, out)),
        _ => {}
    }
}
fn c11(c: &mut Ctx) -> Res {
    let check = |c: &mut Ctx, y: Yaml| {
        let mut want = vec![];
        visit_oracle(&y, &mut want);
        c.case(format!("{y:?}"), want.len() > 1, || {
            let mut got = vec![];
            y.visit_yaml(&mut |a| got.push(a.clone()));
            eq(&want, &got)?;
            let a = AliasedYaml {
                alias: Some("q".into()),
                value: y.clone(),
            };
            let mut w2 = vec![a.clone()];
            w2.extend(want.clone());
            let mut got = vec![];
            a.visit_yaml(&mut |a| got.push(a.clone()));
            eq(&w2, &got)?;
            let list = vec![y.clone(), u("v"), y.clone()];
            let mut w3 = want.clone();
            w3.extend(want.clone());
            let mut got = vec![];
            list.visit_yaml(&mut |a| got.push(a.clone()));
            eq(&w3, &got)
        })
    };
    for y in small_trees().into_iter().step_by(3) {
        check(c, y)?;
    }
    random(c, |c, r| {
        let d = 1 + r.n(5);
        let y = gyaml(
            r,
            d,
            false,
            Opts {
                mixed: true,
                ..SIMPLE
            },
        );
        check(c, y)
    })
}

// ---- C12 -------------------------------------------------------------------
fn map_oracle(y: &Yaml, f: &mut dyn FnMut(Yaml) -> Yaml) -> Yaml {
    let d = match y {
        Yaml::Hash(v) => Yaml::Hash(
            v.iter()
                .map(|d| match d {
                    HashData::Element(e) => HashData::Element(HashElement {
                        key: e.key.clone(),
                        value: AliasedYaml {
                            alias: e.value.alias.clone(),
                            value: map_oracle(&e.value.value, f),
                        },
                    }),
                    o => o.clone(),
                })
                .collect(),
        ),
        Yaml::Array(v) => Yaml::Array(
            v.iter()
                .map(|d| match d {
                    ArrayData::Element(e) => ArrayData::Element(AliasedYaml {
                        alias: e.alias.clone(),
                        value: map_oracle(&e.value, f),
                    }),
                    o => o.clone(),
                })
                .collect(),
        ),
        Yaml::InlineHash(v) => Yaml::InlineHash(
            v.iter()
                .map(|(k, y)| (k.clone(), map_oracle(y, f)))
                .collect(),
        ),
        Yaml::InlineArray(v) => Yaml::InlineArray(v.iter().map(|y| map_oracle(y, f)).collect()),
        l => l.clone(),
    };
    f(d)
}
fn c12(c: &mut Ctx) -> Res {
    let check = |c: &mut Ctx, y: Yaml, mode: usize| {
        let run = |whole: &dyn Fn(&mut dyn FnMut(Yaml) -> Yaml) -> Yaml| {
            let mut trace = vec![];
            let mut k = 0usize;
            let out = {
                let mut f = |y: Yaml| {
                    trace.push(y.clone());
                    k += 1;
                    match (mode, y) {
                        (0, y) => y,
                        (1, Yaml::UnquotedString(s)) => Yaml::UnquotedString(format!("{s}{k}")),
                        (2, Yaml::Anchor(a)) => hash(vec![("a", Yaml::Anchor(format!("{a}{k}")))]),
                        (2, Yaml::Array(v)) => {
                            if v.len() > 1 {
                                u("gone")
                            } else {
                                Yaml::Array(v)
                            }
                        }
                        (3, y) => Yaml::InlineArray(vec![u(&k.to_string()), y]),
                        (_, y) => y,
                    }
                };
                whole(&mut f)
            };
            (out, trace)
        };
        let want = run(&|f| map_oracle(&y, f));
        c.case(format!("{y:?} mode {mode}"), want.1.len() > 1, || {
            let got = run(&|mut f| y.clone().map_yaml(&mut f));
            eq(&want, &got)?;
            let list = vec![y.clone(), y.clone()];
            let want = run(&|f| Yaml::InlineArray(list.iter().map(|y| map_oracle(y, f)).collect()));
            let got = run(&|mut f| Yaml::InlineArray(list.clone().map_yaml(&mut f)));
            eq(&want, &got)
        })
    };
    for (i, y) in small_trees().into_iter().step_by(3).enumerate() {
        check(c, y, i % 4)?;
    }
    random(c, |c, r| {
        let d = 1 + r.n(4);
        let y = gyaml(
            r,
            d,
            false,
            Opts {
                mixed: true,
                ..SIMPLE
            },
        );
        let m = r.n(4);
        check(c, y, m)
    })
}

// ---- C13 / C14 -----------------------------------------------------------------
/// what an untyped reader is given
#[derive(Debug, Clone, PartialEq)]
pub enum Probe {
    S(Kind),
    Seq(Vec<Probe>),
    Map(Vec<(String, Probe)>),
}
impl<'de> Deserialize<'de> for Probe {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis;
        impl<'de> serde::de::Visitor<'de> for Vis {
            type Value = Probe;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "anything")
            }
            fn visit_unit<E>(self) -> Result<Probe, E> {
                Ok(Probe::S(Kind::Null))
            }
            fn visit_bool<E>(self, b: bool) -> Result<Probe, E> {
                Ok(Probe::S(Kind::Bool(b)))
            }
            fn visit_i64<E>(self, b: i64) -> Result<Probe, E> {
                Ok(Probe::S(Kind::I(b)))
            }
            fn visit_u64<E>(self, b: u64) -> Result<Probe, E> {
                Ok(Probe::S(Kind::U(b)))
            }
            fn visit_f64<E>(self, b: f64) -> Result<Probe, E> {
                Ok(Probe::S(Kind::F(b.to_bits())))
            }
            fn visit_str<E>(self, b: &str) -> Result<Probe, E> {
                Ok(Probe::S(Kind::Str(b.into())))
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Probe, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(Probe::Seq(v))
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Probe, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_entry::<String, Probe>()? {
                    v.push(x);
                }
                Ok(Probe::Map(v))
            }
        }
        d.deserialize_any(Vis)
    }
}
fn rd<T: for<'de> Deserialize<'de>>(y: &Yaml) -> Result<T, ()> {
    from_yaml::<T>(y.clone()).map_err(|_| ())
}
#[derive(Debug, PartialEq, Deserialize)]
struct Unit;
#[derive(Debug, PartialEq, Deserialize)]
struct Wrap(String);
fn check_typed(c: &mut Ctx, y: Yaml) -> Res {
    let s = scalar(&y);
    c.case(format!("{y:?}"), s.as_deref() != Some(""), || {
        macro_rules! num {
            ($t:ty) => {
                eq(
                    &s.as_ref()
                        .map_or(Err(()), |s| s.parse::<$t>().map_err(|_| ())),
                    &rd::<$t>(&y),
                )
                .map_err(|(e, a)| (format!("{} as {}", e, stringify!($t)), a))?;
            };
        }
        num!(i8);
        num!(i16);
        num!(i32);
        num!(i64);
        num!(u8);
        num!(u16);
        num!(u32);
        num!(u64);
        eq(
            &s.as_ref().map_or(Err(()), |s| {
                s.parse::<f64>().map(|f| f.to_bits()).map_err(|_| ())
            }),
            &rd::<f64>(&y).map(f64::to_bits),
        )?;
        eq(
            &s.as_ref().map_or(Err(()), |s| {
                s.parse::<f32>().map(|f| f.to_bits()).map_err(|_| ())
            }),
            &rd::<f32>(&y).map(f32::to_bits),
        )?;
        eq(&s.clone().ok_or(()), &rd::<String>(&y))?;
        eq(
            &s.as_ref()
                .and_then(|s| {
                    let mut i = s.chars();
                    match (i.next(), i.next()) {
                        (Some(c), None) => Some(c),
                        _ => None,
                    }
                })
                .ok_or(()),
            &rd::<char>(&y),
        )?;
        let b = match &y {
            Yaml::UnquotedString(s) => match &s.to_lowercase()[..] {
                "true" | "yes" | "on" if cased(s) => Ok(true),
                "false" | "no" | "off" if cased(s) => Ok(false),
                _ => Err(()),
            },
            _ => Err(()),
        };
        eq(&b, &rd::<bool>(&y))?;
        let null = matches!(kind(&y), Some(Kind::Null));
        eq(
            &if null {
                Ok(None)
            } else {
                s.clone().ok_or(()).map(Some)
            },
            &rd::<Option<String>>(&y),
        )?;
        eq(
            &if null { Ok(None) } else { b.map(Some) },
            &rd::<Option<bool>>(&y),
        )?;
        eq(
            &kind(&y).map(Probe::S),
            &rd::<Probe>(&y).ok().filter(|_| s.is_some()),
        )?;
        eq(&s.clone().ok_or(()).map(Wrap), &rd::<Wrap>(&y))?;
        eq(&Ok(()), &rd::<()>(&y))?;
        eq(&Ok(Unit), &rd::<Unit>(&y))
    })
}
fn cased(s: &str) -> bool {
    let l = s.to_lowercase();
    let mut t = l.clone();
    t[..1].make_ascii_uppercase();
    s == l || s == t || s == l.to_uppercase()
}
fn c13(c: &mut Ctx) -> Res {
    for s in TRICKY {
        for y in [
            Yaml::UnquotedString(s.to_string()),
            Yaml::SingleQuotedString(vec![SingleQuotedStringPart::String(s.to_string())]),
            Yaml::DoubleQuotedString(vec![DoubleQuotedStringPart::String(s.to_string())]),
            Yaml::LiteralString(vec![s.to_string()], BlockChomping::Strip),
            Yaml::FoldedString(vec![s.to_string()], BlockChomping::Strip),
        ] {
            check_typed(c, y)?;
        }
    }
    for w in [
        "true", "false", "yes", "no", "on", "off", "null", "~", "y", "n", "t", "f", "none", "nil",
    ] {
        for m in 0..(1 << w.len().min(5)) {
            let s: String = w
                .chars()
                .enumerate()
                .map(|(i, ch)| {
                    if m >> i & 1 == 1 {
                        ch.to_ascii_uppercase()
                    } else {
                        ch
                    }
                })
                .collect();
            check_typed(c, Yaml::UnquotedString(s))?;
        }
    }
    for i in [
        0i128,
        1,
        -1,
        127,
        128,
        -128,
        -129,
        255,
        256,
        32767,
        32768,
        -32768,
        -32769,
        65535,
        65536,
        2147483647,
        2147483648,
        -2147483648,
        -2147483649,
        4294967295,
        4294967296,
        i64::MAX as i128,
        i64::MAX as i128 + 1,
        i64::MIN as i128,
        i64::MIN as i128 - 1,
        u64::MAX as i128,
        u64::MAX as i128 + 1,
    ] {
        for s in [
            format!("{i}"),
            format!("+{i}"),
            format!("0{i}"),
            format!("{i}.0"),
            format!(" {i}"),
            format!("{i} "),
        ] {
            check_typed(c, Yaml::UnquotedString(s.clone()))?;
            check_typed(
                c,
                Yaml::SingleQuotedString(vec![SingleQuotedStringPart::String(s)]),
            )?;
        }
    }
    each(
        c,
        strings(
            &["1", "-", "+", ".", "e", "0", "_", "i", "n", "f", "a", "x"],
            4,
        ),
        |c, s| check_typed(c, Yaml::UnquotedString(s)),
    )?;
    for y in [
        Yaml::Hash(vec![]),
        Yaml::Array(vec![]),
        Yaml::InlineHash(vec![]),
        Yaml::InlineArray(vec![]),
    ] {
        check_typed(c, y)?;
    }
    random(c, |c, r| {
        let y = gscalar(r);
        check_typed(c, y)
    })
}

/// All anchors of a tree, and whether names are unique.
fn anchors(y: &Yaml, out: &mut Vec<(String, Yaml)>) {
    let mut v = vec![];
    visit_oracle(y, &mut v);
    for a in v {
        if let Some(n) = a.alias {
            out.push((n, a.value));
        }
    }
}
fn probe_oracle(y: &Yaml, env: &[(String, Yaml)], seen: &[String]) -> Result<Probe, ()> {
    Ok(match y {
        Yaml::Anchor(n) => {
            let v = env.iter().find(|(k, _)| k == n).ok_or(())?;
            if seen.contains(n) {
                return Err(());
            }
            let mut seen = seen.to_vec();
            seen.push(n.clone());
            return probe_oracle(&v.1, env, &seen);
        }
        Yaml::Hash(v) => Probe::Map(
            v.iter()
                .filter_map(|d| match d {
                    HashData::Element(e) => {
                        Some(probe_oracle(&e.value.value, env, seen).map(|p| (e.key.clone(), p)))
                    }
                    _ => None,
                })
                .collect::<Result<_, _>>()?,
        ),
        Yaml::Array(v) => Probe::Seq(
            v.iter()
                .filter_map(|d| match d {
                    ArrayData::Element(e) => Some(probe_oracle(&e.value, env, seen)),
                    _ => None,
                })
                .collect::<Result<_, _>>()?,
        ),
        Yaml::InlineHash(v) => Probe::Map(
            v.iter()
                .map(|(k, y)| probe_oracle(y, env, seen).map(|p| (k.clone(), p)))
                .collect::<Result<_, _>>()?,
        ),
        Yaml::InlineArray(v) => Probe::Seq(
            v.iter()
                .map(|y| probe_oracle(y, env, seen))
                .collect::<Result<_, _>>()?,
        ),
        y => Probe::S(kind(y).unwrap()),
    })
}
/// gives every anchor its own name; aliases point anywhere or nowhere
fn rename_anchors(y: &mut Yaml, k: &mut usize) {
    let mut one = |a: &mut AliasedYaml, k: &mut usize| {
        if a.alias.is_some() {
            a.alias = Some(format!("n{k}"));
            *k += 1;
        }
        rename_anchors(&mut a.value, k);
    };
    match y {
        Yaml::Hash(v) => v.iter_mut().for_each(|d| {
            if let HashData::Element(e) = d {
                one(&mut e.value, k)
            }
        }),
        Yaml::Array(v) => v.iter_mut().for_each(|d| {
            if let ArrayData::Element(e) = d {
                one(e, k)
            }
        }),
        Yaml::InlineHash(v) => v.iter_mut().for_each(|(_, y)| rename_anchors(y, k)),
        Yaml::InlineArray(v) => v.iter_mut().for_each(|y| rename_anchors(y, k)),
        _ => {}
    }
}
fn set_aliases(y: &mut Yaml, r: &mut Rng, n: usize) {
    let names = |r: &mut Rng| {
        if r.chance(1, 30) {
            "nowhere".to_string()
        } else {
            format!("n{}", r.n(n.max(1)))
        }
    };
    match y {
        Yaml::Anchor(a) => *a = names(r),
        Yaml::Hash(v) => v.iter_mut().for_each(|d| {
            if let HashData::Element(e) = d {
                set_aliases(&mut e.value.value, r, n)
            }
        }),
        Yaml::Array(v) => v.iter_mut().for_each(|d| {
            if let ArrayData::Element(e) = d {
                set_aliases(&mut e.value, r, n)
            }
        }),
        Yaml::InlineHash(v) => v.iter_mut().for_each(|(_, y)| set_aliases(y, r, n)),
        Yaml::InlineArray(v) => v.iter_mut().for_each(|y| set_aliases(y, r, n)),
        _ => {}
    }
}
fn c14(c: &mut Ctx) -> Res {
    // pure alias chains and cycles end in a value or an error
    for (n, m) in [("a", "a"), ("a", "b")] {
        for typed in 0..3 {
            let y = hash(vec![("p", u("q"))]);
            let y = match y {
                Yaml::Hash(mut d) => {
                    d.push(el(
                        "x",
                        AliasedYaml {
                            alias: Some(n.into()),
                            value: Yaml::Anchor(m.into()),
                        },
                    ));
                    d.push(el(
                        "y",
                        AliasedYaml {
                            alias: Some("b".into()),
                            value: Yaml::Anchor("a".into()),
                        },
                    ));
                    Yaml::Hash(d)
                }
                o => o,
            };
            c.case(format!("{y:?} typed {typed}"), true, || {
                let ok = match typed {
                    0 => rd::<Probe>(&y).is_ok(),
                    1 => rd::<std::collections::BTreeMap<String, String>>(&y).is_ok(),
                    _ => rd::<std::collections::BTreeMap<String, Option<Vec<bool>>>>(&y).is_ok(),
                };
                eq(&false, &ok)
            })?;
        }
    }
    random(c, |c, r| {
        let d = 1 + r.n(4);
        let mut y = gyaml(
            r,
            d,
            false,
            Opts {
                mixed: true,
                ..SIMPLE
            },
        );
        let mut k = 0;
        rename_anchors(&mut y, &mut k);
        set_aliases(&mut y, r, k);
        let mut env = vec![];
        anchors(&y, &mut env);
        let want = probe_oracle(&y, &env, &[]);
        c.case(format!("{y:?}"), big(&y), || {
            eq(&want, &rd::<Probe>(&y))?;
            // an alias stands for its value at every type
            if let Yaml::Hash(v) = &y {
                #[derive(Debug, PartialEq, Deserialize)]
                struct A {
                    a: Option<Probe>,
                    b: Option<Probe>,
                }
                let els: Vec<_> = v
                    .iter()
                    .filter_map(|d| match d {
                        HashData::Element(e) => Some(e),
                        _ => None,
                    })
                    .collect();
                let uniq = |k: &str| els.iter().filter(|e| e.key == k).count() <= 1;
                if uniq("a") && uniq("b") {
                    let f = |k: &str| -> Result<Option<Probe>, ()> {
                        match els.iter().find(|e| e.key == k) {
                            None => Ok(None),
                            Some(e) => probe_oracle(&e.value.value, &env, &[]).map(|p| {
                                if p == Probe::S(Kind::Null) {
                                    None
                                } else {
                                    Some(p)
                                }
                            }),
                        }
                    };
                    let w = match (f("a"), f("b")) {
                        (Ok(a), Ok(b)) => Ok(A { a, b }),
                        _ => Err(()),
                    };
                    eq(&w, &rd::<A>(&y))?;
                }
            }
            Ok(())
        })
    })
}

// ---- C15 / C16 -----------------------------------------------------------------
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct S1 {
    a: i64,
    b: String,
    c: Option<String>,
    d: Vec<String>,
    e: bool,
    f: f64,
    m: std::collections::BTreeMap<String, i32>,
    t: (u8, String, Vec<i8>),
    u: (),
    k: char,
    i: std::collections::BTreeMap<u16, Vec<Option<bool>>>,
    n: Option<Box<S1>>,
    en: Vec<E>,
    w: W,
    big: u64,
    un: Un,
    by: By,
    us: US,
    tp: TP,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct W(String);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct US;
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct TP(i32, Un, E);
#[derive(Debug, Clone, PartialEq)]
struct By(Vec<u8>);
impl Serialize for By {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for By {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Vec::<u8>::deserialize(d).map(By)
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum E {
    Unit,
    True,
    New(String),
    Opt(Option<i32>),
    Tup(i32, String),
    Str { x: i64, y: Option<bool> },
    Rec(Box<E>),
    L(Vec<E>),
    M(std::collections::BTreeMap<String, E>),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
enum Un {
    B(bool),
    I(i64),
    S(String),
    V(Vec<Un>),
    M(std::collections::BTreeMap<String, Un>),
}
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
enum Key {
    A,
    Red,
    X1,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct S0 {}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct S2 {
    #[serde(rename = "two words")]
    two: i8,
    f: f64,
    g: f32,
    h: Vec<f32>,
    s0: S0,
    z: Vec<Z>,
    bm: std::collections::BTreeMap<bool, i16>,
    km: std::collections::BTreeMap<Key, Key>,
    cm: std::collections::BTreeMap<char, char>,
    om: std::collections::BTreeMap<String, Option<f64>>,
    um: std::collections::BTreeMap<u64, Option<Key>>,
    im: std::collections::BTreeMap<i64, u64>,
    p: (f32,),
    e: ((), S0, Z),
    #[serde(flatten)]
    rest: std::collections::BTreeMap<String, String>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum Z {
    U,
    T0(),
    S0 {},
    N(()),
    F(f32),
    One(i8),
    P(f32, f64),
    C(char),
    B(bool),
    W(u64),
    Z(Box<Z>),
    K { key: Key },
    O { o: Option<f32> },
}
fn g_f32(r: &mut Rng) -> f32 {
    loop {
        let f = match r.n(4) {
            0 => *r.pick(&[0.0, -0.0, 1.5, f32::MAX, f32::MIN_POSITIVE, 16777216.0, 0.1]),
            1 => f32::from_bits(0x15ae43fd ^ (r.n(2) as u32) << 31),
            2 => (r.next() % 2000) as f32 / 8.0,
            _ => f32::from_bits(r.next() as u32),
        };
        if f.is_finite() {
            return f;
        }
    }
}
fn g_f64(r: &mut Rng) -> f64 {
    loop {
        let f = match r.n(4) {
            0 => *r.pick(&[0.0, -0.0, 1.5, f64::MAX, f64::MIN_POSITIVE, 9007199254740993.0, 5e-324]),
            1 => f64::from_bits(r.next() >> r.n(64)),
            2 => (r.next() % 2000) as f64 / 8.0,
            _ => f64::from_bits(r.next()),
        };
        if f.is_finite() {
            return f;
        }
    }
}
fn g_key(r: &mut Rng) -> Key {
    r.pick(&[Key::A, Key::Red, Key::X1]).clone()
}
fn g_z(r: &mut Rng, d: usize) -> Z {
    match r.n(if d == 0 { 12 } else { 13 }) {
        0 => Z::U,
        1 => Z::T0(),
        2 => Z::S0 {},
        3 => Z::N(()),
        4 => Z::F(g_f32(r)),
        5 => Z::One(r.next() as i8),
        6 => Z::P(g_f32(r), g_f64(r)),
        7 => Z::C(gstr(r).chars().next().unwrap_or(' ')),
        8 => Z::B(r.chance(1, 2)),
        9 => Z::W(r.next() << r.n(64) | r.next() >> r.n(64)),
        10 => Z::K { key: g_key(r) },
        11 => Z::O {
            o: if r.chance(1, 2) { None } else { Some(g_f32(r)) },
        },
        _ => Z::Z(Box::new(g_z(r, d - 1))),
    }
}
fn g_s2(r: &mut Rng) -> S2 {
    S2 {
        two: r.next() as i8,
        f: g_f64(r),
        g: g_f32(r),
        h: (0..r.n(3)).map(|_| g_f32(r)).collect(),
        s0: S0 {},
        z: (0..r.n(4)).map(|_| g_z(r, 2)).collect(),
        bm: (0..r.n(3)).map(|_| (r.chance(1, 2), r.next() as i16)).collect(),
        km: (0..r.n(3)).map(|_| (g_key(r), g_key(r))).collect(),
        cm: (0..r.n(3)).map(|_| (*r.pick(&['a', 'Z', 'b', 'é']), gstr(r).chars().next().unwrap_or('\n'))).collect(),
        om: (0..r.n(3)).map(|_| (gname(r), r.chance(2, 3).then(|| f64::from(g_f32(r))))).collect(),
        um: (0..r.n(3)).map(|_| (r.next() >> r.n(64), r.chance(1, 2).then(|| g_key(r)))).collect(),
        im: (0..r.n(3)).map(|_| (r.next() as i64 >> r.n(64), r.next() >> r.n(64))).collect(),
        p: (g_f32(r),),
        e: ((), S0 {}, g_z(r, 1)),
        rest: (0..r.n(3)).map(|_| (gname(r), gstr(r))).filter(|(k, _)| !"two words f g h s0 z bm km cm om um im p e".contains(&k[..])).collect(),
    }
}
fn g_e(r: &mut Rng, d: usize) -> E {
    match r.n(if d == 0 { 6 } else { 9 }) {
        0 => E::Unit,
        1 => E::True,
        2 => E::New(gstr(r)),
        3 => E::Opt(if r.chance(1, 2) {
            None
        } else {
            Some(r.n(5) as i32 - 2)
        }),
        4 => E::Tup(r.n(100) as i32 - 50, gstr(r)),
        5 => E::Str {
            x: r.next() as i64,
            y: *r.pick(&[None, Some(true), Some(false)]),
        },
        6 => E::Rec(Box::new(g_e(r, d - 1))),
        7 => E::L((0..r.n(3)).map(|_| g_e(r, d - 1)).collect()),
        _ => E::M((0..r.n(3)).map(|_| (gname(r), g_e(r, d - 1))).collect()),
    }
}
fn gname(r: &mut Rng) -> String {
    r.pick(&["a", "b", "c", "key", "k1", "x-y", "a b", "_u", "é1"])
        .to_string()
}
fn g_un(r: &mut Rng, d: usize) -> Un {
    match r.n(if d == 0 { 3 } else { 5 }) {
        0 => Un::B(r.chance(1, 2)),
        1 => Un::I(*r.pick(&[0, 1, -1, i64::MAX, i64::MIN, 42])),
        2 => Un::S(gstr(r)),
        3 => Un::V((0..r.n(3)).map(|_| g_un(r, d - 1)).collect()),
        _ => Un::M((0..r.n(3)).map(|_| (gname(r), g_un(r, d - 1))).collect()),
    }
}
fn g_s1(r: &mut Rng, d: usize) -> S1 {
    S1 {
        a: *r.pick(&[0, 1, -1, i64::MAX, i64::MIN, 7]),
        b: gstr(r),
        c: if r.chance(1, 3) { None } else { Some(gstr(r)) },
        d: (0..r.n(3)).map(|_| gstr(r)).collect(),
        e: r.chance(1, 2),
        f: *r.pick(&[
            0.0,
            -0.0,
            1.0,
            0.1,
            -2.5,
            1e300,
            1e-300,
            f64::MAX,
            f64::MIN_POSITIVE,
            1e21,
            f64::INFINITY,
            123456789.125,
        ]),
        m: (0..r.n(3)).map(|_| (gname(r), r.next() as i32)).collect(),
        t: (
            r.next() as u8,
            gstr(r),
            (0..r.n(3)).map(|_| r.next() as i8).collect(),
        ),
        u: (),
        k: gstr(r).chars().next().unwrap_or('x'),
        i: (0..r.n(3))
            .map(|_| {
                (
                    r.next() as u16,
                    (0..r.n(3))
                        .map(|_| *r.pick(&[None, Some(true), Some(false)]))
                        .collect(),
                )
            })
            .collect(),
        n: if d > 0 && r.chance(1, 3) {
            Some(Box::new(g_s1(r, d - 1)))
        } else {
            None
        },
        en: (0..r.n(3)).map(|_| g_e(r, 2)).collect(),
        w: W(gstr(r)),
        big: *r.pick(&[0, u64::MAX, 1 << 63]),
        un: g_un(r, 2),
        by: By((0..r.n(3)).map(|_| r.next() as u8).collect()),
        us: US,
        tp: TP(r.n(9) as i32, g_un(r, 1), g_e(r, 1)),
    }
}
fn ser<T: Serialize>(t: &T) -> Result<Yaml, (String, String)> {
    t.serialize(YamlSerializer)
        .map_err(|e| ("serializable".to_string(), format!("{e:?}")))
}
fn back<T: Serialize + for<'de> Deserialize<'de> + PartialEq + std::fmt::Debug>(t: &T) -> R2 {
    let y = ser(t)?;
    let got: Result<T, _> = from_yaml(y.clone());
    if got.as_ref().ok() != Some(t) {
        return Err((format!("{t:?}"), format!("{got:?} (tree {y:?})")));
    }
    let y = y.pretty();
    let got: Result<T, _> = from_yaml(y.clone());
    if got.as_ref().ok() != Some(t) {
        return Err((format!("{t:?}"), format!("{got:?} (pretty tree {y:?})")));
    }
    Ok(())
}
macro_rules! on_value {
    ($c:expr, $r:expr, $f:ident) => {{
        let (c, r) = ($c, $r);
        match r.n(10) {
            8 => {
                let v = g_s2(r);
                c.case(format!("{v:?}"), true, || $f(&v))
            }
            9 => {
                let v: Vec<Z> = (0..1 + r.n(3)).map(|_| g_z(r, 3)).collect();
                c.case(format!("{v:?}"), true, || $f(&v))
            }
            0 | 1 => {
                let v = g_s1(r, 1);
                c.case(format!("{v:?}"), true, || $f(&v))
            }
            2 | 3 => {
                let v: Vec<E> = (0..1 + r.n(3)).map(|_| g_e(r, 3)).collect();
                c.case(format!("{v:?}"), true, || $f(&v))
            }
            4 => {
                let v: std::collections::BTreeMap<String, Un> =
                    (0..1 + r.n(3)).map(|_| (gname(r), g_un(r, 3))).collect();
                c.case(format!("{v:?}"), true, || $f(&v))
            }
            5 => {
                let v: Vec<(String, Option<i64>, Vec<String>)> = (0..1 + r.n(3))
                    .map(|_| {
                        (
                            gstr(r),
                            Some(r.next() as i64),
                            (0..r.n(3)).map(|_| gstr(r)).collect(),
                        )
                    })
                    .collect();
                c.case(format!("{v:?}"), true, || $f(&v))
            }
            6 => {
                let v: Vec<Vec<String>> = (0..1 + r.n(3))
                    .map(|_| (0..r.n(4)).map(|_| gstr(r)).collect())
                    .collect();
                c.case(format!("{v:?}"), true, || $f(&v))
            }
            _ => {
                let v: std::collections::BTreeMap<
                    u32,
                    Vec<std::collections::BTreeMap<String, String>>,
                > = (0..1 + r.n(3))
                    .map(|_| {
                        (
                            r.next() as u32,
                            (0..r.n(3))
                                .map(|_| (0..r.n(3)).map(|_| (gname(r), gstr(r))).collect())
                                .collect(),
                        )
                    })
                    .collect();
                c.case(format!("{v:?}"), true, || $f(&v))
            }
        }
    }};
}
fn c15(c: &mut Ctx) -> Res {
    random(c, |c, r| on_value!(c, r, back))
}
fn through_text<T: Serialize + for<'de> Deserialize<'de> + PartialEq + std::fmt::Debug>(
    t: &T,
) -> R2 {
    let y = ser(t)?.pretty();
    let want = view(&y, true);
    if !matches!(y, Yaml::Hash(_) | Yaml::Array(_) | Yaml::InlineHash(_) | Yaml::InlineArray(_)) {
        return Ok(()); // a scalar is no document
    }
    text_keeps(&y, &want)?;
    let text = doc(y.clone())
        .format()
        .map_err(|e| ("text".to_string(), format!("{e:?}")))?;
    let got: Result<T, _> = from_yaml_str(&text);
    if got.as_ref().ok() != Some(t) {
        return Err((format!("{t:?}"), format!("{got:?} (text {text:?})")));
    }
    eq(&layout(&doc(y)), &text)?;
    // writing what was read gives the same text
    match parse_yaml_file(&text).map(|d| d.format()) {
        Ok(Ok(t2)) => eq(&text, &t2),
        o => Err((text, format!("{o:?}"))),
    }
}
/// the data of a document, and its comments in their order
fn data_and_comments(d: &Document) -> (Vec<V>, Vec<String>) {
    fn go(v: V, cs: &mut Vec<String>) -> V {
        match v {
            V::Map(i) => V::Map(i.into_iter().filter_map(|i| one(i, cs)).collect()),
            V::Seq(i) => V::Seq(i.into_iter().filter_map(|i| one(i, cs)).collect()),
            v => v,
        }
    }
    fn one(i: Item, cs: &mut Vec<String>) -> Option<Item> {
        match i {
            Item::Comment(c) | Item::Inline(c) => {
                cs.push(c);
                None
            }
            Item::El(k, a, v) => Some(Item::El(k, a, go(v, cs))),
        }
    }
    let mut cs = d.leading_comments.clone();
    let mut v = vec![];
    for i in &d.items {
        match i {
            DocumentData::Yaml(y) => v.push(go(view(y, false), &mut cs)),
            DocumentData::Comment(c) => cs.push(c.clone()),
        }
    }
    (v, cs)
}
fn written_back(d: &Document, again: bool) -> R2 {
    let t = d
        .format()
        .map_err(|e| ("text".to_string(), format!("{e:?}")))?;
    eq(&layout(d), &t)?;
    match parse_yaml_file(&t) {
        Ok(e) => {
            let (a, b) = (data_and_comments(d), data_and_comments(&e));
            if a != b {
                return Err((format!("{a:?}"), format!("{b:?} (text {t:?})")));
            }
            if !again {
                return Ok(());
            }
            match e.format() {
                Ok(t2) => eq(&t, &t2),
                o => Err((t, format!("{o:?}"))),
            }
        }
        Err(e) => Err((
            format!("{t:?} parses"),
            format!("does not parse: {:?}", e.location()),
        )),
    }
}
fn c16(c: &mut Ctx) -> Res {
    let mut i = 0usize;
    random(c, |c, r| {
        i += 1;
        if r.n(3) == 0 {
            return on_value!(c, r, through_text);
        }
        let size = 1 + r.n(1 + (i / 20000).min(4));
        let (text, d) = crate::writer::written(r, size);
        c.case(format!("formatted {text:?}"), true, || written_back(&d, true))?;
        c.case(format!("beautified and formatted {text:?}"), true, || {
            written_back(&d.clone().pretty(), false)
        })
    })
}

// ---- C17 -------------------------------------------------------------------
const PIECES: &[&str] = &[
    "k: ",
    "a:",
    "b: ",
    "- ",
    "- - ",
    "- a: ",
    "# c",
    "k: |",
    "k: >",
    "k: |-",
    "k: >+",
    "k: |2",
    "k: >-1",
    "k: |0",
    "k: |99999999999999999999",
    "",
    "k: 'a",
    "b'",
    "k: \"a\\",
    "b\"",
    "k: [a, b]",
    "k: {a: b}",
    "k: [a,",
    "b]",
    "k: &x",
    "k: *x",
    "- &y z",
    "k: &x [a]",
    "- &x\n  a: b",
    "---",
    "\t",
    "\u{a0}",
    "k: |\u{a0}",
    "\u{3000}x",
    "k: |٣",
    "k: \"\\n\\t\\r\\\\\\\"",
    "k: 'it''s'",
    "k: \"\n\n\n\"",
    "\r\n",
    "\r",
    "k: |+\n",
    "k: ''",
    "k: \"\"",
    "{}",
    "[]",
    "- []",
    "k: {}",
    "k: &x *x",
];
fn gtext(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(9, 10) {
        s.push_str("---\n");
    }
    for _ in 0..1 + r.n(6) {
        s.push_str(&" ".repeat(r.n(5)));
        s.push_str(r.pick(PIECES));
        if r.chance(1, 2) {
            s.push_str(r.pick(TRICKY));
        }
        s.push('\n');
    }
    if r.chance(1, 3) {
        s.pop();
    }
    s
}
/// `k: |` at `ind` columns with the given lines at `extra` more columns
fn check_block(
    c: &mut Ctx,
    lines: &[String],
    deep: usize,
    extra: usize,
    mode: usize,
    explicit: bool,
) -> Res {
    let style = ["|", ">"][mode % 2];
    let ch = ["", "-", "+"][mode / 2 % 3];
    let mut text = String::from("---\n");
    let mut ind = 0;
    for i in 0..deep {
        text += &format!("{}p{i}:\n", " ".repeat(ind));
        ind += 2;
    }
    let pad = " ".repeat(ind);
    text += &format!(
        "{pad}k: {style}{ch}{}\n",
        if explicit {
            extra.to_string()
        } else {
            String::new()
        }
    );
    for l in lines {
        if !l.is_empty() {
            text += &format!("{pad}{}{l}", " ".repeat(extra));
        }
        text += "\n";
    }
    text += &format!("{pad}z: q\n");
    // line breaks: LF, CRLF or CR
    let text = text.replace('\n', ["\n", "\n", "\r\n", "\r"][(c.evals % 4) as usize]);
    c.case(format!("text {text:?}"), lines.len() > 1, || {
        let d = parse_yaml_file(&text).map_err(|e| {
            (
                format!("{lines:?}"),
                format!("does not parse: {:?}", e.location()),
            )
        })?;
        let mut p: Vec<Step> = (0..deep)
            .map(|i| Step::Key(format!("p{i}"), vec![]))
            .collect();
        p.push(Step::Key("k".into(), vec![]));
        let mut d = d;
        let got = d.find_values(&build(&p)).0;
        let chm = [
            BlockChomping::Clip,
            BlockChomping::Strip,
            BlockChomping::Keep,
        ][mode / 2 % 3];
        let lines = lines.to_vec();
        let want = if mode % 2 == 0 {
            Yaml::LiteralString(lines, chm)
        } else {
            Yaml::FoldedString(lines, chm)
        };
        eq(&vec![want], &got)?;
        p.pop();
        p.push(Step::Key("z".into(), vec![]));
        eq(&vec![u("q")], &d.find_values(&build(&p)).0)
    })
}
fn c17(c: &mut Ctx) -> Res {
    // block scalars keep every line
    let al: Vec<String> = [
        "", "a", " b", "  c", "\u{a0}d", "# e", "- f", "g: h", "é", "\ti", " ", "j  ",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    let mut k = 0usize;
    for l in seqs(&al, 3) {
        if l.is_empty()
            || l[0].is_empty()
            || l[0].starts_with(' ')
            || l[0].starts_with('\u{a0}')
            || l[0].starts_with('\t')
        {
            continue;
        }
        k += 1;
        check_block(c, &l, k % 3, 1 + k % 4, k % 6, false)?;
        check_block(c, &l, 0, 2, k % 6, true)?;
        check_block(c, &l, k % 3, 2, (k + 1) % 6, true)?;
    }
    // explicit indicators keep leading spaces of the first line
    for extra in 1..9 {
        for lead in 0..4 {
            for mode in 0..6 {
                check_block(
                    c,
                    &[format!("{}x", " ".repeat(lead)), "y".into(), "  z".into()],
                    0,
                    extra,
                    mode,
                    true,
                )?;
            }
        }
    }
    each(
        c,
        strings(&["k", ":", " ", "\n", "-", "|", ">", "1"], 5),
        |c, s| {
            let t = format!("---\n{s}");
            c.case(format!("text {t:?}"), true, || {
                let _ = parse_yaml_file(&t);
                Ok(())
            })
        },
    )?;
    random(c, |c, r| {
        let mut t = gtext(r);
        if r.chance(1, 4) {
            let mut v: Vec<char> = t.chars().collect();
            for _ in 0..1 + r.n(3) {
                if v.is_empty() {
                    break;
                }
                let i = r.n(v.len());
                match r.n(3) {
                    0 => {
                        v.remove(i);
                    }
                    1 => v.insert(
                        i,
                        *r.pick(&[
                            ' ', '\n', ':', '-', '|', '>', '"', '\'', '\\', '[', '}', '#', '&',
                            '*', '9', '\r', '\u{a0}',
                        ]),
                    ),
                    _ => v.truncate(i + 1),
                }
            }
            t = v.into_iter().collect();
        }
        let ok = std::cell::Cell::new(false);
        c.case(format!("text {t:?}"), true, || {
            if let Ok(d) = parse_yaml_file(&t) {
                ok.set(true);
                // whatever was read can be read as data, written and beautified without a crash
                let _ = d.format();
                let _ = d.clone().pretty().format();
                for i in &d.items {
                    if let DocumentData::Yaml(y) = i {
                        let _ = from_yaml::<Probe>(y.clone());
                    }
                }
            }
            Ok(())
        })?;
        if r.chance(1, 3) {
            let n = 1 + r.n(5);
            let mut l: Vec<String> = (0..n)
                .map(|_| {
                    if r.chance(1, 3) {
                        crate::writer::odd(r, "")
                    } else {
                        r.pick(&al).clone()
                    }
                })
                .collect();
            l[0] = r
                .pick(&["a", "# e", "- f", "g: h", "é", "'", "\"x"])
                .to_string();
            let m = r.n(6);
            let (d, e, x) = (r.n(4), 1 + r.n(5), r.chance(1, 3));
            return check_block(c, &l, d, e, m, x);
        }
        Ok(())
    })
}

// ---- C18 -------------------------------------------------------------------
fn c18(c: &mut Ctx) -> Res {
    let mut i = 0usize;
    random(c, |c, r| {
        i += 1;
        let size = 1 + r.n(1 + (i / 20000).min(4));
        let (text, want) = crate::writer::written(r, size);
        c.case(format!("text {text:?}"), true, || {
            match parse_yaml_file(&text) {
                Ok(d) => eq(&want, &d),
                Err(e) => Err((
                    format!("{want:?}"),
                    format!("does not parse: {:?}", e.location()),
                )),
            }
        })
    })
}
