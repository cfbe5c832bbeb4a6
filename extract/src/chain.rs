//! Iterator chains with closures  ->  explicit loops (push style).
use quote::format_ident;
use syn::visit::Visit;
use syn::*;

#[derive(Default)]
struct Ret(bool);
impl<'a> Visit<'a> for Ret {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

enum Ad {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    FlatMap(Expr),
    TakeWhile(Expr),
    Enumerate,
    Cloned,
    Ident,
}

fn is_fn_arg(e: &Expr) -> bool {
    match e {
        Expr::Closure(c) => {
            let mut r = Ret::default();
            r.visit_expr(&c.body);
            !r.0
        }
        Expr::Path(_) => true,
        _ => false,
    }
}

/// apply closure (or function path) `f` to already evaluated argument identifiers
fn apply(f: &Expr, args: &[Expr]) -> (Vec<Stmt>, Expr) {
    match f {
        Expr::Closure(c) => {
            let mut st: Vec<Stmt> = vec![];
            for (p, a) in c.inputs.iter().zip(args) {
                st.push(match p {
                    Pat::Type(t) => {
                        let (p, ty) = (&t.pat, &t.ty);
                        parse_quote!(let #p: #ty = #a;)
                    }
                    p => parse_quote!(let #p = #a;),
                });
            }
            (st, (*c.body).clone())
        }
        f => {
            let v = args.iter();
            (vec![], parse_quote!(#f(#(#v),*)))
        }
    }
}

/// without the `break` the generated search ends with
fn drop_breaks(s: Stmt) -> Stmt {
    struct B;
    impl syn::visit_mut::VisitMut for B {
        fn visit_block_mut(&mut self, b: &mut Block) {
            b.stmts.retain(|s| !matches!(s, Stmt::Expr(Expr::Break(k), _) if k.label.is_none() && k.expr.is_none()));
            syn::visit_mut::visit_block_mut(self, b);
        }
        fn visit_expr_loop_mut(&mut self, _: &mut ExprLoop) {}
        fn visit_expr_while_mut(&mut self, _: &mut ExprWhile) {}
        fn visit_expr_for_loop_mut(&mut self, _: &mut ExprForLoop) {}
        fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    }
    let mut s = s;
    syn::visit_mut::VisitMut::visit_stmt_mut(&mut B, &mut s);
    s
}

pub fn desugar(mc: &ExprMethodCall, counter: &mut usize, lists: &std::collections::BTreeSet<String>, log: &mut Vec<String>) -> Option<Expr> {
    let term = mc.method.to_string();
    let args: Vec<&Expr> = mc.args.iter().collect();
    match term.as_str() {
        "collect" | "count" if args.is_empty() => {}
        "fold" if args.len() == 2 && is_fn_arg(args[1]) => {}
        "find" | "find_map" | "any" | "all" | "position" | "for_each" if args.len() == 1 && is_fn_arg(args[0]) => {}
        _ => return None,
    }
    // walk down
    let mut ads: Vec<Ad> = vec![];
    let mut cur: Expr = (*mc.receiver).clone();
    let mut used = 0;
    loop {
        let next = match &cur {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let a: Vec<&Expr> = m.args.iter().collect();
                let ad = match (n.as_str(), a.len()) {
                    ("map", 1) if is_fn_arg(a[0]) => Some(Ad::Map(a[0].clone())),
                    ("filter", 1) if is_fn_arg(a[0]) => Some(Ad::Filter(a[0].clone())),
                    ("filter_map", 1) if is_fn_arg(a[0]) => Some(Ad::FilterMap(a[0].clone())),
                    ("flat_map", 1) if is_fn_arg(a[0]) => Some(Ad::FlatMap(a[0].clone())),
                    ("take_while", 1) if is_fn_arg(a[0]) => Some(Ad::TakeWhile(a[0].clone())),
                    ("enumerate", 0) => Some(Ad::Enumerate),
                    ("cloned", 0) | ("copied", 0) => Some(Ad::Cloned),
                    ("into_iter", 0) if matches!(&*m.receiver, Expr::MethodCall(_) | Expr::Paren(_)) => Some(Ad::Ident),
                    _ => None,
                };
                ad.map(|ad| (ad, (*m.receiver).clone()))
            }
            Expr::Paren(p) => Some((Ad::Ident, (*p.expr).clone())),
            _ => None,
        };
        match next {
            // `x.into_iter()` directly on a non-iterator call is the base itself
            Some((Ad::Ident, r)) => {
                let is_iter = match &r {
                    Expr::MethodCall(m) => matches!(
                        m.method.to_string().as_str(),
                        "map" | "filter" | "filter_map" | "flat_map" | "take_while" | "enumerate" | "cloned" | "copied"
                    ),
                    _ => false,
                };
                if is_iter || matches!(cur, Expr::Paren(_)) {
                    cur = r;
                } else {
                    break;
                }
            }
            Some((ad, r)) => {
                used += 1;
                ads.push(ad);
                cur = r;
            }
            None => break,
        }
    }
    ads.reverse();
    if let Some(i) = ads.iter().position(|a| matches!(a, Ad::TakeWhile(_))) {
        if ads[..i].iter().any(|a| matches!(a, Ad::FlatMap(_))) {
            return None;
        }
    }
    // the base must look like an iterator
    let base_ok = match &cur {
        Expr::MethodCall(m) => matches!(
            m.method.to_string().as_str(),
            "iter" | "iter_mut" | "into_iter" | "chars" | "split" | "lines" | "skip" | "rev" | "take" | "chain" | "as_slice" | "drain"
        ),
        Expr::Range(_) => true,
        Expr::Path(p) => term != "collect" && p.path.get_ident().map_or(false, |i| lists.contains(&i.to_string())),
        _ => false,
    };
    if !base_ok {
        return None;
    }
    if term == "collect" && used == 0 && !matches!(&cur, Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "split" | "chain" | "rev" | "take" | "skip")) {
        return None;
    }
    *counter += 1;
    let k = *counter;
    log.push(format!(".{term}() over an iterator chain ({used} adapters) desugared to a for loop"));
    let out = format_ident!("out__{}", k);
    // `v.clone().into_iter()`: the elements are clones
    if let Expr::MethodCall(m) = &mut cur {
        if m.method == "into_iter" {
            let inner = match &*m.receiver {
                Expr::MethodCall(c) if c.method == "clone" && c.args.is_empty() => Some((*c.receiver).clone()),
                _ => None,
            };
            if let Some(v) = inner {
                m.receiver = Box::new(parse_quote!(m_clone_vec(&#v)));
            }
        }
    }
    let base_mut = cur.clone();
    let mut base = cur;
    let mut ads: std::collections::VecDeque<Ad> = ads.into();
    while matches!(ads.front(), Some(Ad::Enumerate)) {
        ads.pop_front();
        base = match &base {
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "rev" | "take") => parse_quote!(m_enumerate((#base).into_iter())),
            _ => parse_quote!(m_enumerate(#base)),
        };
    }
    if let Expr::MethodCall(m) = &base {
        if m.method == "chain" {
            let r = &m.receiver;
            let a = &m.args[0];
            base = parse_quote!(m_chain(#r, #a));
        }
    }
    // build the body inside out
    let x0 = format_ident!("x__{}", k);
    let mut n = 0;
    let mut pre: Vec<Stmt> = vec![];
    fn build(
        ads: &mut std::collections::VecDeque<Ad>,
        x: Expr,
        k: usize,
        n: &mut usize,
        fin: &dyn Fn(Expr) -> Vec<Stmt>,
        pre: &mut Vec<Stmt>,
    ) -> Option<Vec<Stmt>> {
        match ads.pop_front() {
            None => Some(fin(x)),
            Some(ad) => {
                *n += 1;
                let y = format_ident!("y__{}_{}", k, *n);
                let ye: Expr = parse_quote!(#y);
                Some(match ad {
                    Ad::Map(f) => {
                        let (st, b) = apply(&f, &[x]);
                        let rest = build(ads, ye, k, n, fin, pre)?;
                        vec![parse_quote!(let #y = { #(#st)* #b };)].into_iter().chain(rest).collect()
                    }
                    Ad::Cloned => {
                        let rest = build(ads, ye, k, n, fin, pre)?;
                        vec![parse_quote!(let #y = (#x).clone();)].into_iter().chain(rest).collect()
                    }
                    Ad::Ident => build(ads, x, k, n, fin, pre)?,
                    Ad::Filter(f) => {
                        let (st, b) = apply(&f, &[parse_quote!(&#x)]);
                        let rest = build(ads, x, k, n, fin, pre)?;
                        let s: Stmt = parse_quote!(if { #(#st)* #b } { #(#rest)* });
                        vec![s]
                    }
                    Ad::TakeWhile(f) => {
                        let (st, b) = apply(&f, &[parse_quote!(&#x)]);
                        let rest = build(ads, x, k, n, fin, pre)?;
                        let s: Stmt = parse_quote!(if { #(#st)* #b } { #(#rest)* } else { break; });
                        vec![s]
                    }
                    Ad::FilterMap(f) => {
                        let (st, b) = apply(&f, &[x]);
                        let rest = build(ads, ye, k, n, fin, pre)?;
                        let o = format_ident!("o__{}_{}", k, *n);
                        vec![
                            parse_quote!(let #o = { #(#st)* #b };),
                            parse_quote!(match #o { Some(#y) => { #(#rest)* } None => {} }),
                        ]
                    }
                    Ad::FlatMap(f) => {
                        let (st, b) = apply(&f, &[x]);
                        let rest = build(ads, ye, k, n, fin, pre)?;
                        let o = format_ident!("o__{}_{}", k, *n);
                        let b = match &b {
                            Expr::MethodCall(m) if m.method == "chain" => {
                                let r = &m.receiver;
                                let a = &m.args[0];
                                parse_quote!(m_chain(#r, #a))
                            }
                            b => b.clone(),
                        };
                        vec![
                            parse_quote!(let #o = { #(#st)* #b };),
                            Stmt::Expr(parse_quote!(for #y in #o { #(#rest)* }), None),
                        ]
                    }
                    Ad::Enumerate => {
                        let c = format_ident!("n__{}_{}", k, *n);
                        pre.push(parse_quote!(let mut #c: usize = 0;));
                        let rest = build(ads, parse_quote!((#c - 1, #x)), k, n, fin, pre)?;
                        vec![parse_quote!(#c = m_inc(#c);)].into_iter().chain(rest).collect()
                    }
                })
            }
        }
    }
    let x0e: Expr = parse_quote!(#x0);
    let fin: Box<dyn Fn(Expr) -> Vec<Stmt>> = {
        let out = out.clone();
        let args: Vec<Expr> = args.iter().map(|a| (*a).clone()).collect();
        let term = term.clone();
        Box::new(move |y: Expr| match term.as_str() {
            "collect" => vec![parse_quote!(#out.push(#y);)],
            "count" => vec![parse_quote!(#out = m_inc(#out);)],
            "for_each" => {
                let (st, b) = apply(&args[0], &[y]);
                vec![parse_quote!({ #(#st)* #b; })]
            }
            "fold" => {
                let (st, b) = apply(&args[1], &[parse_quote!(#out), y]);
                vec![parse_quote!(#out = { #(#st)* #b };)]
            }
            "find" => {
                let (st, b) = apply(&args[0], &[parse_quote!(&#y)]);
                vec![parse_quote!(if { #(#st)* #b } { #out = Some(#y); break; })]
            }
            "find_map" => {
                let (st, b) = apply(&args[0], &[y]);
                vec![
                    parse_quote!(let r__ = { #(#st)* #b };),
                    parse_quote!(if r__.is_some() { #out = r__; break; }),
                ]
            }
            "any" => {
                let (st, b) = apply(&args[0], &[y]);
                vec![parse_quote!(if { #(#st)* #b } { #out = true; break; })]
            }
            "all" => {
                let (st, b) = apply(&args[0], &[y]);
                vec![parse_quote!(if !{ #(#st)* #b } { #out = false; break; })]
            }
            _ => vec![],
        })
    };
    if term == "position" {
        return None;
    }
    let body = build(&mut ads, x0e, k, &mut n, &*fin, &mut pre)?;
    let init: Stmt = match term.as_str() {
        "collect" => parse_quote!(let mut #out = Vec::new();),
        "count" => parse_quote!(let mut #out: usize = 0;),
        "fold" => {
            let a = args[0];
            parse_quote!(let mut #out = #a;)
        }
        "find" | "find_map" => parse_quote!(let mut #out = None;),
        "any" => parse_quote!(let mut #out = false;),
        "all" => parse_quote!(let mut #out = true;),
        _ => parse_quote!(let #out = ();),
    };
    // a search over mutable references runs to the end instead of breaking (same result: the rest is skipped), so that
    // what the remaining references point to is known to be unchanged
    let through_mut = matches!(&base_mut, Expr::MethodCall(m) if m.method == "iter_mut") && matches!(term.as_str(), "find" | "find_map");
    let body = if through_mut {
        let b: Vec<Stmt> = body.into_iter().map(drop_breaks).collect();
        vec![Stmt::Expr(parse_quote!(if #out.is_none() { #(#b)* }), None)]
    } else {
        body
    };
    let l: Stmt = Stmt::Expr(parse_quote!(for #x0 in #base { #(#body)* }), None);
    Some(parse_quote!({ #init #(#pre)* #l #out }))
}

/// `X::Y` of `X::Y` itself or `|c| X::Y(c)`
fn ctor(f: &Expr) -> Option<String> {
    let name = |p: &ExprPath| p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("_");
    match f {
        Expr::Path(p) if p.path.segments.len() >= 2 => Some(name(p)),
        Expr::Closure(c) if c.inputs.len() == 1 => {
            let id = match c.inputs.first()? {
                Pat::Ident(i) => i.ident.to_string(),
                Pat::Type(t) => match &*t.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    _ => return None,
                },
                _ => return None,
            };
            let mut b = &*c.body;
            while let Expr::Block(k) = b {
                match &k.block.stmts[..] {
                    [Stmt::Expr(e, None)] => b = e,
                    _ => return None,
                }
            }
            match b {
                Expr::Call(k) if k.args.len() == 1 => match (&*k.func, &k.args[0]) {
                    (Expr::Path(p), Expr::Path(a)) if a.path.is_ident(&id) && p.path.segments.len() >= 2 => Some(name(p)),
                    _ => None,
                },
                _ => None,
            }
        }
        _ => None,
    }
}
/// `|x| x`, `|x| x.into_iter()`
fn identity(f: &Expr) -> bool {
    match f {
        Expr::Closure(c) if c.inputs.len() == 1 => {
            let id = match c.inputs.first() {
                Some(Pat::Ident(i)) => i.ident.to_string(),
                _ => return false,
            };
            let b = match &*c.body {
                Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => &*m.receiver,
                b => b,
            };
            matches!(b, Expr::Path(p) if p.path.is_ident(&id))
        }
        _ => false,
    }
}

/// a concatenation of lists, as an expression of type Vec
pub fn list(e: &Expr, known: &std::collections::HashSet<String>, lists: &std::collections::BTreeSet<String>, top: bool) -> Option<Expr> {
    match e {
        Expr::Paren(p) => list(&p.expr, known, lists, top),
        Expr::Path(p) if p.path.get_ident().is_some() && (!top || lists.contains(&p.path.get_ident().unwrap().to_string())) => Some(e.clone()),
        Expr::Macro(m) if m.mac.path.is_ident("vec") => Some(e.clone()),
        Expr::Call(c) if c.args.len() == 1 => match &*c.func {
            Expr::Path(p) if p.path.segments.last().unwrap().ident == "once" => {
                let a = &c.args[0];
                Some(parse_quote!(vec![#a]))
            }
            Expr::Path(p) if !top && p.path.segments.last().unwrap().ident.to_string().starts_with(|c: char| c.is_lowercase()) => Some(e.clone()),
            _ => None,
        },
        Expr::Field(_) if !top => Some(e.clone()),
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            let r = &*m.receiver;
            match (n.as_str(), m.args.len()) {
                ("into_iter", 0) => list(r, known, lists, false),
                ("rev", 0) => {
                    let a = list(r, known, lists, false)?;
                    Some(parse_quote!(m_rev_list(#a)))
                }
                ("take", 1) | ("skip", 1) => {
                    let a = list(r, known, lists, false)?;
                    let f = format_ident!("m_{}_list", n);
                    let k = &m.args[0];
                    Some(parse_quote!(#f(#a, #k)))
                }
                ("chain", 1) => {
                    let a = list(r, known, lists, false)?;
                    let b = list(&m.args[0], known, lists, false)?;
                    Some(parse_quote!(m_cat(#a, #b)))
                }
                ("flatten", 0) => {
                    let a = list(r, known, lists, false)?;
                    Some(parse_quote!(m_flatten(#a)))
                }
                ("flat_map", 1) if identity(&m.args[0]) => {
                    let a = list(r, known, lists, false)?;
                    Some(parse_quote!(m_flatten(#a)))
                }
                ("map", 1) => {
                    let f = format_ident!("m_each_{}", ctor(&m.args[0])?);
                    if !known.contains(&f.to_string()) {
                        return None;
                    }
                    let a = list(r, known, lists, false)?;
                    Some(parse_quote!(#f(#a)))
                }
                _ => None,
            }
        }
        _ => None,
    }
}

/// the last adapter of the iterator of a for loop, moved into the body
pub fn peel(f: &mut ExprForLoop, counter: &mut usize) -> bool {
    let Expr::MethodCall(m) = &*f.expr else { return false };
    let n = m.method.to_string();
    let a: Vec<Expr> = m.args.iter().cloned().collect();
    match (n.as_str(), a.len()) {
        ("filter" | "map" | "filter_map" | "take_while", 1) if is_fn_arg(&a[0]) => {
            let mut r = Ret(false);
            match &a[0] {
                Expr::Closure(c) => r.visit_expr(&c.body),
                x => r.visit_expr(x),
            }
            if r.0 {
                return false;
            }
        }
        ("cloned" | "copied", 0) => {}
        _ => return false,
    }
    let recv = (*m.receiver).clone();
    *counter += 1;
    let x = format_ident!("x__{}", *counter);
    let (pat, body) = (&f.pat, &f.body.stmts);
    let new: Block = match n.as_str() {
        "filter" | "take_while" => {
            let (s, c) = apply(&a[0], &[parse_quote!(&#x)]);
            let c: Expr = if s.is_empty() { c } else { parse_quote!({ #(#s)* #c }) };
            if n == "filter" {
                parse_quote!({ if #c { let #pat = #x; #(#body)* } })
            } else {
                parse_quote!({ if !(#c) { break; } let #pat = #x; #(#body)* })
            }
        }
        "map" => {
            let (s, c) = apply(&a[0], &[parse_quote!(#x)]);
            parse_quote!({ #(#s)* let #pat = #c; #(#body)* })
        }
        "filter_map" => {
            let (s, c) = apply(&a[0], &[parse_quote!(#x)]);
            let c: Expr = if s.is_empty() { c } else { parse_quote!({ #(#s)* #c }) };
            parse_quote!({ match #c { Some(#pat) => { #(#body)* } None => {} } })
        }
        _ => parse_quote!({ let #pat = #x.clone(); #(#body)* }),
    };
    f.body = new;
    f.pat = Box::new(parse_quote!(#x));
    f.expr = Box::new(recv);
    true
}

/// `for x in l { v.push(x); }`, `for x in l { v.push(C(x)); }`: (v, the list)
pub fn pushes(f: &ExprForLoop, known: &std::collections::HashSet<String>, lists: &std::collections::BTreeSet<String>) -> Option<(Expr, Expr)> {
    let Pat::Ident(x) = &*f.pat else { return None };
    let x = &x.ident;
    let [Stmt::Expr(Expr::MethodCall(m), _)] = &f.body.stmts[..] else { return None };
    if m.method != "push" || m.args.len() != 1 || f.label.is_some() {
        return None;
    }
    let v = &m.receiver;
    if !matches!(&**v, Expr::Path(_) | Expr::Field(_)) {
        return None;
    }
    let l = list(&f.expr, known, lists, false)?;
    let a = &m.args[0];
    let l = match a {
        Expr::Path(p) if p.path.is_ident(x) => l,
        _ => {
            let c: Expr = parse_quote!(|#x| #a);
            let c = format_ident!("m_each_{}", ctor(&c)?);
            if !known.contains(&c.to_string()) {
                return None;
            }
            parse_quote!(#c(#l))
        }
    };
    Some(((**v).clone(), l))
}

/// `l.chain(..)...collect()` over lists
pub fn concat(e: &Expr, known: &std::collections::HashSet<String>, lists: &std::collections::BTreeSet<String>) -> Option<Expr> {
    match e {
        Expr::MethodCall(m) if m.method == "collect" && m.args.is_empty() => list(&m.receiver, known, lists, true),
        _ => None,
    }
}
