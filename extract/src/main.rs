//! Mechanical extraction of /repo functions into a Verus unit.
//!
//! usage: extract <repo_src_dir> <template.rs> <out.rs> <report.json>
//!
//! The template holds the specification (spec functions, lemmas, shims) and
//! `//@extract` directives.  Every directive is replaced by the *current* text
//! of the named item of /repo, with the contract spliced in.  Everything this
//! tool changes in the function body is listed in the report.
//! Exit code 3: an anchor could not be bound (item missing, loop missing, ...).

mod chain;
mod chars;
mod early;
mod pest;
mod print;
mod rewrite;

use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use syn::visit::Visit;

pub struct Src {
    pub files: BTreeMap<String, syn::File>,
    pub texts: BTreeMap<String, String>,
}

#[derive(Default, Clone, Debug)]
pub struct Directives {
    pub method: HashMap<String, String>,
    pub call: HashMap<String, String>,
    pub path: HashMap<String, String>,
    pub bound: HashMap<String, String>,
    pub noinline: HashSet<String>,
    /// names of spec and proof functions
    pub ghost: HashSet<String>,
}

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub keys: Vec<(String, String)>,
}

#[derive(Default)]
pub struct Report {
    pub functions: Vec<serde_like::Val>,
    pub lost: Vec<String>,
}

pub mod serde_like {
    #[derive(Clone)]
    pub enum Val {
        S(String),
        N(i64),
        A(Vec<Val>),
        O(Vec<(String, Val)>),
    }
    impl Val {
        pub fn write(&self, o: &mut String) {
            match self {
                Val::S(s) => {
                    o.push('"');
                    for c in s.chars() {
                        match c {
                            '"' => o.push_str("\\\""),
                            '\\' => o.push_str("\\\\"),
                            '\n' => o.push_str("\\n"),
                            '\t' => o.push_str("\\t"),
                            '\r' => o.push_str("\\r"),
                            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                            c => o.push(c),
                        }
                    }
                    o.push('"');
                }
                Val::N(n) => o.push_str(&n.to_string()),
                Val::A(v) => {
                    o.push('[');
                    for (i, x) in v.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        x.write(o);
                    }
                    o.push(']');
                }
                Val::O(v) => {
                    o.push('{');
                    for (i, (k, x)) in v.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        Val::S(k.clone()).write(o);
                        o.push(':');
                        x.write(o);
                    }
                    o.push('}');
                }
            }
        }
    }
}
use serde_like::Val;

fn walk(dir: &std::path::Path, base: &std::path::Path, src: &mut Src) {
    let mut ents: Vec<_> = std::fs::read_dir(dir).unwrap().flatten().map(|e| e.path()).collect();
    ents.sort();
    for p in ents {
        if p.is_dir() {
            walk(&p, base, src);
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            let t = std::fs::read_to_string(&p).unwrap();
            let rel = p.strip_prefix(base).unwrap().to_string_lossy().to_string();
            match syn::parse_file(&t) {
                Ok(f) => {
                    src.files.insert(rel.clone(), f);
                    src.texts.insert(rel, t);
                }
                Err(e) => eprintln!("cannot parse {rel}: {e}"),
            }
        }
    }
}

pub enum FoundFn {
    Free(syn::ItemFn),
    Method(syn::ImplItemFn),
    TraitMethod(syn::TraitItemFn),
}

fn last_seg(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => last_seg(&r.elem),
        _ => String::new(),
    }
}

fn items_no_test<'a>(items: &'a [syn::Item]) -> Vec<&'a syn::Item> {
    let mut v = vec![];
    for i in items {
        if let syn::Item::Mod(m) = i {
            if m.ident == "tests" || m.ident == "test" {
                continue;
            }
            if let Some((_, its)) = &m.content {
                v.extend(items_no_test(its));
                continue;
            }
        }
        v.push(i);
    }
    v
}

/// path forms: `name`, `Type::name`, `<Type as Trait>::name`, `trait Trait::name`
pub fn find_fn(src: &Src, file: &str, path: &str) -> Option<(String, FoundFn)> {
    // the named file first, then every other file (an item may have moved)
    let mut order: Vec<&String> = src.files.keys().filter(|k| *k == file).collect();
    order.extend(src.files.keys().filter(|k| *k != file));
    for fname in order {
        let f = &src.files[fname];
        for it in items_no_test(&f.items) {
            match it {
                syn::Item::Fn(g) if !path.contains("::") && g.sig.ident == path => {
                    return Some((fname.clone(), FoundFn::Free(g.clone())));
                }
                syn::Item::Impl(im) => {
                    let ty = last_seg(&im.self_ty);
                    let tr = im
                        .trait_
                        .as_ref()
                        .map(|t| t.0.segments.last().unwrap().ident.to_string());
                    let key = match &tr {
                        Some(t) => format!("<{ty} as {t}>::"),
                        None => format!("{ty}::"),
                    };
                    if let Some(n) = path.strip_prefix(&key) {
                        for ii in &im.items {
                            if let syn::ImplItem::Fn(m) = ii {
                                if m.sig.ident == n {
                                    return Some((fname.clone(), FoundFn::Method(m.clone())));
                                }
                            }
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    if let Some(n) = path.strip_prefix(&format!("trait {}::", t.ident)) {
                        for ti in &t.items {
                            if let syn::TraitItem::Fn(m) = ti {
                                if m.sig.ident == n {
                                    return Some((fname.clone(), FoundFn::TraitMethod(m.clone())));
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    None
}

fn find_type(src: &Src, file: &str, name: &str) -> Option<(String, syn::Item)> {
    let mut order: Vec<&String> = src.files.keys().filter(|k| *k == file).collect();
    order.extend(src.files.keys().filter(|k| *k != file));
    for fname in order {
        for it in items_no_test(&src.files[fname].items) {
            let ok = match it {
                syn::Item::Enum(e) => e.ident == name,
                syn::Item::Struct(e) => e.ident == name,
                _ => false,
            };
            if ok {
                return Some((fname.clone(), it.clone()));
            }
        }
    }
    None
}

fn clean_type(it: &mut syn::Item) {
    match it {
        syn::Item::Enum(e) => {
            e.attrs.clear();
            for v in e.variants.iter_mut() {
                v.attrs.clear();
            }
        }
        syn::Item::Struct(s) => {
            s.attrs.clear();
            s.vis = syn::parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.vis = syn::parse_quote!(pub);
                f.attrs.clear();
            }
        }
        _ => {}
    }
}

/// the default methods of the trait are what every implementor runs: an impl may define only the methods listed,
/// and no type has a method of its own that shadows one of the trait
fn check_impls(src: &Src, tr: &str, allowed: &[&str], report: &mut Report) {
    let mut names = HashSet::new();
    for f in src.files.values() {
        for it in items_no_test(&f.items) {
            if let syn::Item::Trait(t) = it {
                if t.ident == tr {
                    names.extend(t.items.iter().filter_map(|x| if let syn::TraitItem::Fn(m) = x { Some(m.sig.ident.to_string()) } else { None }));
                }
            }
        }
    }
    if names.is_empty() {
        report.lost.push(format!("trait {tr} not found"));
    }
    for f in src.files.values() {
        for it in items_no_test(&f.items) {
            if let syn::Item::Impl(im) = it {
                let is_tr = match &im.trait_ {
                    Some(t) if t.0.segments.last().unwrap().ident == tr => true,
                    Some(_) => continue,
                    None => false,
                };
                for ii in &im.items {
                    if let syn::ImplItem::Fn(m) = ii {
                        let n = m.sig.ident.to_string();
                        if is_tr && !allowed.contains(&n.as_str()) || !is_tr && names.contains(&n) {
                            report.lost.push(format!("{} has its own {n}: the contract on the default method of {tr} does not cover it", last_seg(&im.self_ty)));
                        }
                    }
                }
            }
        }
    }
}

/// the type derives the trait (what the contracts assume of it is what the derive generates)
fn derives(it: &syn::Item, tr: &str) -> bool {
    let attrs = match it {
        syn::Item::Enum(e) => &e.attrs,
        syn::Item::Struct(e) => &e.attrs,
        _ => return false,
    };
    attrs.iter().any(|a| a.path().is_ident("derive") && quote::quote!(#a).to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == tr))
}
fn has_generics(it: &syn::Item) -> bool {
    match it {
        syn::Item::Enum(e) => !e.generics.params.is_empty(),
        syn::Item::Struct(e) => !e.generics.params.is_empty(),
        _ => true,
    }
}
fn check_derive(src: &Src, tr: &str, ty: &str, report: &mut Report) {
    for f in src.files.values() {
        for it in items_no_test(&f.items) {
            let attrs = match it {
                syn::Item::Enum(e) if e.ident == ty => &e.attrs,
                syn::Item::Struct(e) if e.ident == ty => &e.attrs,
                _ => continue,
            };
            for a in attrs {
                if a.path().is_ident("derive") && quote::quote!(#a).to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == tr) {
                    return;
                }
            }
        }
    }
    report.lost.push(format!("{ty} does not derive {tr}"));
}

struct KnownFns(HashSet<String>);

/// names of functions defined in the template text itself: executable ones (shims), and spec and proof functions
fn known_names(template: &str) -> (HashSet<String>, HashSet<String>) {
    let (mut exec, mut ghost) = (HashSet::new(), HashSet::new());
    let (mut prev2, mut prev) = (String::new(), String::new());
    let mut cur = String::new();
    for c in template.chars().chain(std::iter::once(' ')) {
        if c.is_alphanumeric() || c == '_' {
            cur.push(c);
        } else if !cur.is_empty() {
            if prev == "fn" {
                if prev2 == "spec" || prev2 == "proof" {
                    ghost.insert(cur.clone());
                } else {
                    exec.insert(cur.clone());
                }
            }
            prev2 = std::mem::replace(&mut prev, std::mem::take(&mut cur));
        }
    }
    (exec, ghost)
}

fn parse_keys(lines: &[String]) -> Vec<(String, String)> {
    let simple = [
        "ret", "requires", "ensures", "decreases", "attr", "start", "end", "name", "vis", "sig", "returns", "no_reveal", "generics", "split",
    ];
    let mut out: Vec<(String, String)> = vec![];
    for l in lines {
        let t = l.trim_start();
        let mut hit = None;
        for k in simple {
            if let Some(r) = t.strip_prefix(&format!("{k}:")) {
                hit = Some((k.to_string(), r.to_string()));
                break;
            }
        }
        if hit.is_none() {
            for k in ["loop ", "closure ", "arm ", "method ", "let "] {
                if t.starts_with(k) {
                    if let Some(p) = t.find(":=") {
                        hit = Some((t[..p].trim().to_string(), t[p + 2..].to_string()));
                    }
                }
            }
        }
        match hit {
            Some((k, v)) => out.push((k, v)),
            None => {
                if let Some(last) = out.last_mut() {
                    last.1.push('\n');
                    last.1.push_str(l);
                } else if !t.is_empty() {
                    panic!("directive line without key: {l}");
                }
            }
        }
    }
    out
}

fn expand_includes(path: &std::path::Path, seen: &mut HashSet<std::path::PathBuf>) -> String {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {e}", path.display()));
    let mut out = String::new();
    for l in t.lines() {
        if let Some(f) = l.trim_start().strip_prefix("//@include ") {
            let p = path.parent().unwrap().join(f.trim());
            if seen.insert(p.clone()) {
                out.push_str(&expand_includes(&p, seen));
            }
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
    out
}

/// `//@for N in a b c` .. `//@endfor`: the lines between, once for every name (`%N` stands for it)
fn expand_for(t: &str) -> String {
    let mut out = String::new();
    let lines: Vec<&str> = t.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        match lines[i].trim_start().strip_prefix("//@for ") {
            Some(r) => {
                let (v, ns) = r.split_once(" in ").unwrap();
                let e = (i..lines.len()).find(|j| lines[*j].trim() == "//@endfor").unwrap();
                for n in ns.split_whitespace() {
                    for l in &lines[i + 1..e] {
                        let mut l = l.to_string();
                        if n.contains(':') && !n.contains("::") {
                            for (k, part) in n.split(':').enumerate() {
                                l = l.replace(&format!("%{}{k}", v.trim()), part);
                            }
                        }
                        out.push_str(&l.replace(&format!("%{}", v.trim()), n));
                        out.push('\n');
                    }
                }
                i = e + 1;
            }
            None => {
                out.push_str(lines[i]);
                out.push('\n');
                i += 1;
            }
        }
    }
    out
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: extract <repo_src_dir> <template.rs> <out.rs> <report.json>");
        std::process::exit(2);
    }
    let base = std::path::Path::new(&a[1]);
    let mut src = Src { files: Default::default(), texts: Default::default() };
    walk(base, base, &mut src);
    let template = expand_for(&expand_includes(std::path::Path::new(&a[2]), &mut HashSet::new()));

    let mut dirs = Directives::default();
    let mut out = String::new();
    let mut report = Report::default();
    let (mut known, ghost) = known_names(&template);
    dirs.ghost = ghost;
    // pass 1: directives
    let lines: Vec<&str> = template.lines().collect();
    for l in &lines {
        let t = l.trim_start();
        if let Some(r) = t.strip_prefix("//@rewrite ") {
            let (kind, rest) = r.split_once(' ').unwrap();
            let (x, y) = rest.rsplit_once("=>").map(|(x, y)| (x.trim(), y.trim())).unwrap_or((rest.trim(), ""));
            match kind {
                "method" => dirs.method.insert(x.into(), y.into()),
                "call" => dirs.call.insert(x.into(), y.into()),
                "path" => dirs.path.insert(x.into(), y.into()),
                "bound" => dirs.bound.insert(x.replace(' ', ""), y.into()),
                _ => panic!("rewrite kind {kind}"),
            };
        } else if let Some(r) = t.strip_prefix("//@extract fn ") {
            let p = r.trim().split_once(' ').unwrap().1;
            known.insert(p.rsplit("::").next().unwrap().trim().to_string());
        } else if let Some(r) = t.strip_prefix("//@noinline ") {
            dirs.noinline.insert(r.trim().to_string());
        }
    }
    let known = KnownFns(known);
    let mut i = 0;
    while i < lines.len() {
        let t = lines[i].trim_start();
        if let Some(r) = t.strip_prefix("//@extract fn ") {
            let (file, path) = r.trim().split_once(' ').unwrap();
            let mut body = vec![];
            i += 1;
            while lines[i].trim() != "//@end" {
                let x = lines[i].trim_start();
                body.push(x.strip_prefix("//@").unwrap_or_else(|| panic!("line {}: {}", i, x)).to_string());
                i += 1;
            }
            i += 1;
            let spec = FnSpec { file: file.into(), path: path.trim().into(), keys: parse_keys(&body) };
            emit_fn(&src, &spec, &dirs, &known.0, &mut out, &mut report);
            continue;
        }
        if let Some(r) = t.strip_prefix("//@extract type ") {
            let (file, name) = r.trim().split_once(' ').unwrap();
            match find_type(&src, file, name.trim()) {
                Some((f, mut it)) => {
                    let eq = derives(&it, "PartialEq") && !has_generics(&it);
                    clean_type(&mut it);
                    rewrite::rewrite_paths_item(&mut it, &dirs);
                    let mut raws = vec![];
                    let _ = writeln!(out, "// @item-begin {f} {name} type");
                    out.push_str(&print::print(quote::quote!(#it), &mut raws));
                    let name = name.trim();
                    if eq && !template.contains(&format!("impl PartialEq for {name} ")) {
                        // the derived equality is the equality of values
                        let _ = writeln!(out, "impl PartialEq for {name} {{ #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) {{ unimplemented!() }} }}");
                        let _ = writeln!(out, "impl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &Self) -> bool {{ *self == *other }} }}");
                    }
                    let _ = writeln!(out, "\n// @item-end");
                }
                None => report.lost.push(format!("type {name} of {file} not found")),
            }
            i += 1;
            continue;
        }
        if let Some(r) = t.strip_prefix("//@grammar ") {
            let f = r.trim();
            let g = std::fs::read_to_string(base.join(f)).map_err(|e| e.to_string()).and_then(|t| pest::parse(f, &t)).and_then(|g| g.emit());
            match g {
                Ok(g) => {
                    let _ = writeln!(out, "// @item-begin {f} grammar type");
                    out.push_str(&g);
                    let _ = writeln!(out, "// @item-end");
                }
                Err(e) => report.lost.push(format!("grammar {f}: {e}")),
            }
        }
        if let Some(r) = t.strip_prefix("//@impls ") {
            let (tr, ms) = r.split_once(':').unwrap();
            check_impls(&src, tr.trim(), &ms.split_whitespace().collect::<Vec<_>>(), &mut report);
        }
        if let Some(r) = t.strip_prefix("//@derives ") {
            let (tr, ts) = r.split_once(':').unwrap();
            for ty in ts.split_whitespace() {
                check_derive(&src, tr.trim(), ty, &mut report);
            }
        }
        if t.starts_with("//@") {
            i += 1;
            continue;
        }
        out.push_str(lines[i]);
        out.push('\n');
        i += 1;
    }
    std::fs::write(&a[3], &out).unwrap();
    let mut o = String::new();
    Val::O(vec![
        ("functions".into(), Val::A(report.functions.clone())),
        ("lost".into(), Val::A(report.lost.iter().map(|s| Val::S(s.clone())).collect())),
    ])
    .write(&mut o);
    std::fs::write(&a[4], o).unwrap();
    if !report.lost.is_empty() {
        for l in &report.lost {
            eprintln!("LOST: {l}");
        }
        std::process::exit(3);
    }
}

fn emit_fn(src: &Src, spec: &FnSpec, dirs: &Directives, known: &HashSet<String>, out: &mut String, report: &mut Report) {
    let (file, found) = match find_fn(src, &spec.file, &spec.path) {
        Some(x) => x,
        None => {
            report.lost.push(format!("function {} of {} not found", spec.path, spec.file));
            return;
        }
    };
    use syn::spanned::Spanned;
    let (mut sig, mut block, vis, line0, line1) = match found {
        FoundFn::Free(f) => {
            let (a, b) = (f.span().start().line, f.span().end().line);
            (f.sig, *f.block, Some(f.vis), a, b)
        }
        FoundFn::Method(f) => {
            let (a, b) = (f.span().start().line, f.span().end().line);
            (f.sig, f.block, Some(f.vis), a, b)
        }
        FoundFn::TraitMethod(f) => {
            let (a, b) = (f.span().start().line, f.span().end().line);
            match f.default {
                Some(b2) => (f.sig, b2, None, a, b),
                None => {
                    report.lost.push(format!("{} has no body", spec.path));
                    return;
                }
            }
        }
    };
    // `//@method X:= Y` inside a contract: a method rewrite for this function only
    let mut own;
    let mut dirs = dirs;
    if spec.keys.iter().any(|k| k.0.starts_with("method ")) {
        own = dirs.clone();
        for (k, v) in &spec.keys {
            if let Some(m) = k.strip_prefix("method ") {
                own.method.insert(m.trim().to_string(), v.trim().to_string());
            }
        }
        dirs = &own;
    }
    let mut rw = rewrite::Rewriter::new(src, dirs, known, &file, &spec.path);
    let raws = match rw.process(&mut sig, &mut block, spec) {
        Ok(r) => r,
        Err(e) => {
            report.lost.push(format!("{} ({}): {}", spec.path, file, e));
            return;
        }
    };
    let mut raws = raws;
    if std::env::var("EXTRACT_VACUITY").is_ok() {
        // vacuity probe: this assertion must fail
        let n = proc_macro2::Literal::usize_unsuffixed(raws.len());
        raws.push("proof { assert(false); }".into());
        let at = match block.stmts.first() {
            Some(syn::Stmt::Macro(m)) if m.mac.path.is_ident("__spec") => 1,
            _ => 0,
        };
        block.stmts.insert(at, syn::parse_quote!(__raw! { #n };));
    }
    let _ = writeln!(out, "// @item-begin {file} {} {line0} {line1}", spec.path.replace(' ', "~"));
    for (k, v) in &spec.keys {
        if k == "attr" {
            let _ = writeln!(out, "{}", v.trim());
        }
    }
    let visx = spec.keys.iter().find(|k| k.0 == "vis").map(|k| k.1.trim().to_string());
    let vis_s = match visx {
        Some(v) => v,
        None => match vis {
            Some(v) => quote::quote!(#v).to_string(),
            None => String::new(),
        },
    };
    if let Some(n) = spec.keys.iter().find(|k| k.0 == "name") {
        sig.ident = syn::Ident::new(n.1.trim(), sig.ident.span());
    }
    let mut c = LoopCount(0);
    c.visit_block(&block);
    let attrs: Vec<&String> = spec.keys.iter().filter(|k| k.0 == "attr").map(|k| &k.1).collect();
    if spec.keys.iter().any(|k| k.0 == "split") {
        for (s, b) in rewrite::split_match(&mut sig, &mut block, &mut raws) {
            let _ = writeln!(out, "{}", print::print(quote::quote!(#s #b), &mut raws));
            for a in &attrs {
                let _ = writeln!(out, "{}", a.trim());
            }
        }
    }
    let ts = quote::quote!(#sig #block);
    let _ = writeln!(out, "{} {}", if vis_s.starts_with("pub") { "pub" } else { vis_s.as_str() }, print::print(ts, &mut raws));
    let _ = writeln!(out, "// @item-end");
    report.functions.push(Val::O(vec![
        ("file".into(), Val::S(file)),
        ("path".into(), Val::S(spec.path.clone())),
        ("line".into(), Val::N(line0 as i64)),
        ("end_line".into(), Val::N(line1 as i64)),
        ("loops".into(), Val::N(c.0)),
        ("rewrites".into(), Val::A(rw.log.iter().map(|s| Val::S(s.clone())).collect())),
    ]));
}

struct LoopCount(i64);
impl<'a> Visit<'a> for LoopCount {
    fn visit_expr_for_loop(&mut self, i: &'a syn::ExprForLoop) {
        self.0 += 1;
        syn::visit::visit_expr_for_loop(self, i);
    }
    fn visit_expr_while(&mut self, i: &'a syn::ExprWhile) {
        self.0 += 1;
        syn::visit::visit_expr_while(self, i);
    }
}
