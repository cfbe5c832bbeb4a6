//! Tests on characters: a closure (or helper, or array) that tells characters apart becomes a set of
//! characters in the verified text, `s.chars().any(..)` a search for one of them.
use crate::{find_fn, FoundFn, Src};
use quote::ToTokens;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Ctx<'a> {
    pub src: &'a Src,
    pub file: &'a str,
}

fn lit_char(e: &Expr) -> Option<char> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) => Some(c.value()),
        Expr::Paren(p) => lit_char(&p.expr),
        _ => None,
    }
}
fn show(c: char) -> String {
    proc_macro2::Literal::character(c).to_string()
}
fn unref(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unref(&p.expr),
        Expr::Reference(r) if r.mutability.is_none() => unref(&r.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => unref(&u.expr),
        e => e,
    }
}
fn ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}
const CLASSES: &[(&str, &str)] = &[
    ("is_whitespace", "is_ws"),
    ("is_alphabetic", "sp_alphabetic"),
    ("is_numeric", "sp_numeric"),
    ("is_alphanumeric", "sp_alnum"),
    ("is_control", "sp_control"),
    ("is_uppercase", "sp_upper_char"),
    ("is_lowercase", "sp_lower_char"),
    ("is_ascii_digit", "sp_digit"),
    ("is_ascii_alphabetic", "sp_ascii_alpha"),
    ("is_ascii_alphanumeric", "sp_ascii_alnum"),
    ("is_ascii_whitespace", "sp_ascii_ws"),
    ("is_ascii_punctuation", "sp_ascii_punct"),
];
fn class_name(n: &str) -> Option<&'static str> {
    CLASSES.iter().find(|x| x.0 == n).map(|x| x.1)
}

impl<'a> Ctx<'a> {
    /// a character: the variable (`c__`), a literal, another variable of the function
    fn term(&self, e: &Expr, var: &str) -> Option<String> {
        let e = unref(e);
        if let Some(c) = lit_char(e) {
            return Some(show(c));
        }
        let i = ident(e)?;
        Some(if i == var { "c__".into() } else { i })
    }
    fn pat(&self, p: &Pat, t: &str) -> Option<String> {
        Some(match p {
            Pat::Lit(l) => match &l.lit {
                Lit::Char(c) => format!("{t} == {}", show(c.value())),
                _ => return None,
            },
            Pat::Paren(p) => self.pat(&p.pat, t)?,
            Pat::Reference(p) => self.pat(&p.pat, t)?,
            Pat::Wild(_) => "true".into(),
            Pat::Or(o) => {
                let v: Option<Vec<String>> = o.cases.iter().map(|p| self.pat(p, t)).collect();
                format!("({})", v?.join(" || "))
            }
            Pat::Range(r) if matches!(r.limits, RangeLimits::Closed(_)) => {
                let (a, b) = (lit_char(r.start.as_ref()?)?, lit_char(r.end.as_ref()?)?);
                format!("({} <= {t} && {t} <= {})", show(a), show(b))
            }
            _ => return None,
        })
    }
    fn block(&self, b: &Block, var: &str) -> Option<String> {
        match &b.stmts[..] {
            [Stmt::Expr(e, None)] => self.cond(e, var),
            [Stmt::Macro(m)] if m.semi_token.is_none() => self.cond(&Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() }), var),
            _ => None,
        }
    }
    /// a condition on the character `var`
    pub fn cond(&self, e: &Expr, var: &str) -> Option<String> {
        Some(match e {
            Expr::Paren(p) => self.cond(&p.expr, var)?,
            Expr::Block(b) if b.label.is_none() => self.block(&b.block, var)?,
            Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) => b.value.to_string(),
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => format!("!({})", self.cond(&u.expr, var)?),
            Expr::Binary(b) => {
                let op = match b.op {
                    BinOp::And(_) => return Some(format!("({} && {})", self.cond(&b.left, var)?, self.cond(&b.right, var)?)),
                    BinOp::Or(_) => return Some(format!("({} || {})", self.cond(&b.left, var)?, self.cond(&b.right, var)?)),
                    BinOp::Eq(_) => "==",
                    BinOp::Ne(_) => "!=",
                    BinOp::Le(_) => "<=",
                    BinOp::Lt(_) => "<",
                    BinOp::Ge(_) => ">=",
                    BinOp::Gt(_) => ">",
                    _ => return None,
                };
                let (l, r) = (self.term(&b.left, var)?, self.term(&b.right, var)?);
                format!("({l} {op} {r})")
            }
            Expr::If(i) => {
                let (_, e) = i.else_branch.as_ref()?;
                format!("(if {} {{ {} }} else {{ {} }})", self.cond(&i.cond, var)?, self.block(&i.then_branch, var)?, self.cond(e, var)?)
            }
            Expr::Macro(m) if m.mac.path.is_ident("matches") => self.cond(&crate::rewrite::expand_matches(&m.mac.tokens)?, var)?,
            Expr::Match(m) => {
                let t = self.term(&m.expr, var)?;
                let mut o = String::new();
                let mut closed = false;
                for a in &m.arms {
                    let (p, g) = match &a.pat {
                        Pat::Guard(g) => (&*g.pat, Some(&*g.guard)),
                        p => (p, None),
                    };
                    let c = self.pat(p, &t)?;
                    let b = self.cond(&a.body, var)?;
                    if c == "true" && g.is_none() {
                        o.push_str(&format!("{{ {b} }}"));
                        closed = true;
                        break;
                    }
                    let c = match g {
                        Some(g) => format!("{c} && {}", self.cond(g, var)?),
                        None => c,
                    };
                    o.push_str(&format!("if {c} {{ {b} }} else "));
                }
                if !closed {
                    return None;
                }
                format!("({o})")
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if m.args.is_empty() {
                    return Some(format!("{}({})", class_name(&n)?, self.term(&m.receiver, var)?));
                }
                if m.args.len() != 1 {
                    return None;
                }
                let t = self.term(&m.args[0], var)?;
                match (n.as_str(), unref(&m.receiver)) {
                    ("contains", Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => {
                        let v: Vec<String> = s.value().chars().map(|c| format!("{t} == {}", show(c))).collect();
                        if v.is_empty() { "false".into() } else { format!("({})", v.join(" || ")) }
                    }
                    ("contains", Expr::Array(a)) => {
                        let v: Option<Vec<String>> = a.elems.iter().map(|x| Some(format!("{t} == {}", self.term(x, var)?))).collect();
                        let v = v?;
                        if v.is_empty() { "false".into() } else { format!("({})", v.join(" || ")) }
                    }
                    ("contains", Expr::Range(r)) => {
                        let (a, b) = (self.term(r.start.as_ref()?, var)?, self.term(r.end.as_ref()?, var)?);
                        let op = if matches!(r.limits, RangeLimits::Closed(_)) { "<=" } else { "<" };
                        format!("({a} <= {t} && {t} {op} {b})")
                    }
                    ("eq", r) => format!("({} == {t})", self.term(r, var)?),
                    _ => return None,
                }
            }
            Expr::Call(c) => {
                if c.args.len() != 1 {
                    return None;
                }
                let t = self.term(&c.args[0], var)?;
                let s = self.helper(&c.func)?;
                if t == "c__" { s } else { return None }
            }
            _ => return None,
        })
    }
    /// `char::is_..` or a helper of the crate that tells characters apart by one expression
    fn helper(&self, f: &Expr) -> Option<String> {
        let Expr::Path(p) = f else { return None };
        let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if s.len() == 2 && s[0] == "char" {
            return Some(format!("{}(c__)", class_name(&s[1])?));
        }
        let name = s.last()?;
        if !name.chars().next()?.is_lowercase() {
            return None;
        }
        let (_, f) = find_fn(self.src, self.file, name)?;
        let FoundFn::Free(f) = f else { return None };
        if f.sig.inputs.len() != 1 || f.sig.output.to_token_stream().to_string() != "-> bool" {
            return None;
        }
        let FnArg::Typed(t) = f.sig.inputs.first()? else { return None };
        let ty = t.ty.to_token_stream().to_string();
        if ty != "char" && ty != "& char" {
            return None;
        }
        let Pat::Ident(i) = &*t.pat else { return None };
        self.block(&f.block, &i.ident.to_string())
    }
    /// the set of characters an argument stands for (characters called `c__`)
    pub fn class(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Paren(p) => self.class(&p.expr),
            Expr::Closure(c) if c.inputs.len() == 1 && c.asyncness.is_none() => {
                fn name(p: &Pat) -> Option<String> {
                    match p {
                        Pat::Ident(i) if i.subpat.is_none() && i.mutability.is_none() => Some(i.ident.to_string()),
                        Pat::Type(t) => {
                            let ty = t.ty.to_token_stream().to_string();
                            if ty == "char" || ty == "& char" { name(&t.pat) } else { None }
                        }
                        Pat::Reference(r) => name(&r.pat),
                        _ => None,
                    }
                }
                let n = name(c.inputs.first()?)?;
                self.cond(&c.body, &n)
            }
            Expr::Path(_) => self.helper(e),
            _ => {
                // [..], &[..], &[..][..]
                let mut a = unref(e);
                if let Expr::Index(i) = a {
                    if let Expr::Range(r) = &*i.index {
                        if r.start.is_none() && r.end.is_none() && matches!(e, Expr::Reference(_)) {
                            a = unref(&i.expr);
                        }
                    }
                }
                let Expr::Array(a) = a else { return None };
                let v: Option<Vec<char>> = a.elems.iter().map(lit_char).collect();
                let v: Vec<String> = v?.into_iter().map(|c| format!("c__ == {}", show(c))).collect();
                if v.is_empty() {
                    return None;
                }
                Some(format!("({})", v.join(" || ")))
            }
        }
    }
    fn uses(&self, e: &Expr, var: &str) -> bool {
        mentions(&e.to_token_stream(), var)
    }
    /// `for c in s.chars() { if P(c) { return E; } }` and the like: (s, P, the statements)
    pub fn search_loop(&self, f: &ExprForLoop) -> Option<(Expr, String, Block)> {
        let Expr::MethodCall(m) = &*f.expr else { return None };
        if m.method != "chars" || !m.args.is_empty() || f.label.is_some() {
            return None;
        }
        let Pat::Ident(v) = &*f.pat else { return None };
        let v = v.ident.to_string();
        let [Stmt::Expr(e, _)] = &f.body.stmts[..] else { return None };
        let (p, b) = match e {
            Expr::If(i) if i.else_branch.is_none() => (self.cond(&i.cond, &v)?, i.then_branch.clone()),
            Expr::Match(m) if m.arms.len() == 2 => {
                let t = self.term(&m.expr, &v)?;
                let (a, z) = (&m.arms[0], &m.arms[1]);
                let idle = matches!(&z.pat, Pat::Wild(_))
                    && match &*z.body {
                        Expr::Block(b) => b.block.stmts.is_empty(),
                        Expr::Tuple(t) => t.elems.is_empty(),
                        Expr::Continue(_) => true,
                        _ => false,
                    };
                if !idle {
                    return None;
                }
                let (p, g) = match &a.pat {
                    Pat::Guard(g) => (&*g.pat, Some(&*g.guard)),
                    p => (p, None),
                };
                let mut c = self.pat(p, &t)?;
                if let Some(g) = g {
                    c = format!("{c} && {}", self.cond(g, &v)?);
                }
                let b = match &*a.body {
                    Expr::Block(b) => b.block.clone(),
                    x => parse_quote!({ #x; }),
                };
                (c, b)
            }
            _ => return None,
        };
        // what it does, once is enough: returns, or sets a flag (and leaves)
        let mut st = b.stmts.clone();
        let ends = match st.last()? {
            Stmt::Expr(Expr::Return(r), _) => !r.expr.as_ref().map_or(false, |x| self.uses(x, &v)),
            Stmt::Expr(Expr::Break(b), _) if b.expr.is_none() && b.label.is_none() => {
                st.pop();
                true
            }
            _ => true,
        };
        let n = st.len();
        let flags = st.iter().enumerate().all(|(i, s)| match s {
            Stmt::Expr(Expr::Assign(a), Some(_)) => ident(&a.left).is_some() && matches!(&*a.right, Expr::Lit(_)),
            Stmt::Expr(Expr::Return(_), _) => i + 1 == n,
            _ => false,
        });
        if !ends || !flags {
            return None;
        }
        let b: Block = parse_quote!({ #(#st)* });
        Some(((*m.receiver).clone(), p, b))
    }
}

pub fn mentions(ts: &proc_macro2::TokenStream, var: &str) -> bool {
    ts.clone().into_iter().any(|t| match t {
        proc_macro2::TokenTree::Ident(i) => i == var,
        proc_macro2::TokenTree::Group(g) => mentions(&g.stream(), var),
        _ => false,
    })
}

/// `[a, b].iter().any(|x| P(x))`  ->  P(&a) || P(&b);   `["a", "b"].contains(&s)`  ->  s == "a" || s == "b"
pub fn unroll(mc: &ExprMethodCall) -> Option<Expr> {
    fn array(e: &Expr) -> Option<Vec<Expr>> {
        let Expr::Array(a) = unref(e) else { return None };
        if a.elems.is_empty() || a.elems.len() > 32 {
            return None;
        }
        let v: Vec<Expr> = a.elems.iter().cloned().collect();
        if v.iter().all(|x| matches!(x, Expr::Lit(_))) { Some(v) } else { None }
    }
    let n = mc.method.to_string();
    if mc.args.len() != 1 {
        return None;
    }
    if n == "contains" {
        let v = array(&mc.receiver)?;
        let Expr::Reference(r) = &mc.args[0] else { return None };
        let x = &r.expr;
        let mut o: Option<Expr> = None;
        for l in v {
            let c: Expr = parse_quote!((#x == #l));
            o = Some(match o {
                None => c,
                Some(o) => parse_quote!(#o || #c),
            });
        }
        let o = o?;
        return Some(parse_quote!((#o)));
    }
    if n != "any" && n != "all" {
        return None;
    }
    let Expr::MethodCall(it) = &*mc.receiver else { return None };
    let by_ref = match it.method.to_string().as_str() {
        "iter" => true,
        "into_iter" => matches!(&*it.receiver, Expr::Reference(_)),
        _ => return None,
    };
    let v = array(&it.receiver)?;
    let Expr::Closure(c) = &mc.args[0] else { return None };
    let (name, deref) = match c.inputs.first()? {
        Pat::Ident(i) => (i.ident.to_string(), false),
        Pat::Reference(r) => match &*r.pat {
            Pat::Ident(i) => (i.ident.to_string(), true),
            _ => return None,
        },
        _ => return None,
    };
    struct S {
        name: String,
        /// what `*name` and `name` stand for
        star: Expr,
        plain: Expr,
    }
    impl VisitMut for S {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Unary(u) = e {
                if matches!(u.op, UnOp::Deref(_)) && ident(&u.expr).as_deref() == Some(&self.name) {
                    *e = self.star.clone();
                    return;
                }
            }
            if ident(e).as_deref() == Some(&self.name) {
                *e = self.plain.clone();
                return;
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut o: Option<Expr> = None;
    for l in v {
        let mut b = (*c.body).clone();
        if matches!(b, Expr::Block(_)) || mentions(&b.to_token_stream(), "macro") {
            return None;
        }
        let plain: Expr = if by_ref && !deref { parse_quote!((&#l)) } else { l.clone() };
        let star: Expr = if by_ref && !deref { l.clone() } else { parse_quote!((*#l)) };
        S { name: name.clone(), star, plain }.visit_expr_mut(&mut b);
        o = Some(match o {
            None => parse_quote!((#b)),
            Some(o) if n == "any" => parse_quote!(#o || (#b)),
            Some(o) => parse_quote!(#o && (#b)),
        });
    }
    let o = o?;
    Some(parse_quote!((#o)))
}

/// `let f = |c: char| ..;` where the closure only tells characters apart: itself wherever `f` is used
pub fn name_free(block: &mut Block, cx: &Ctx) {
    struct S {
        name: String,
        f: ExprClosure,
    }
    impl VisitMut for S {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Call(c) = e {
                if ident(&c.func).as_deref() == Some(&self.name) && c.args.len() == 1 {
                    visit_mut::visit_expr_mut(self, &mut c.args[0]);
                    let (p, x, b) = (self.f.inputs.first().unwrap(), &c.args[0], &self.f.body);
                    let p = match p {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    *e = parse_quote!({ let #p = #x; #b });
                    return;
                }
            }
            if let Expr::Reference(r) = e {
                if ident(&r.expr).as_deref() == Some(&self.name) {
                    *e = (*r.expr).clone();
                }
            }
            if ident(e).as_deref() == Some(&self.name) {
                *e = Expr::Closure(self.f.clone());
                return;
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    struct B<'x, 'a>(&'x Ctx<'a>);
    impl<'x, 'a> VisitMut for B<'x, 'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut i = 0;
            while i < b.stmts.len() {
                if let Stmt::Local(l) = &b.stmts[i] {
                    if let (Pat::Ident(n), Some(init)) = (&l.pat, &l.init) {
                        if let Expr::Closure(c) = &*init.expr {
                            if self.0.class(&init.expr).is_some() {
                                let mut s = S { name: n.ident.to_string(), f: c.clone() };
                                b.stmts.remove(i);
                                for st in b.stmts[i..].iter_mut() {
                                    s.visit_stmt_mut(st);
                                }
                                continue;
                            }
                        }
                    }
                }
                i += 1;
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    B(cx).visit_block_mut(block);
}

/// `v.iter().any(|x| x == y)`  ->  v.contains(&y)
pub fn member(m: &ExprMethodCall) -> Option<Expr> {
    let Expr::MethodCall(it) = &*m.receiver else { return None };
    if it.method != "iter" || !it.args.is_empty() {
        return None;
    }
    let Expr::Closure(c) = &m.args[0] else { return None };
    let Pat::Ident(i) = c.inputs.first()? else { return None };
    let n = i.ident.to_string();
    let Expr::Binary(b) = &*c.body else { return None };
    if !matches!(b.op, BinOp::Eq(_)) {
        return None;
    }
    fn strip(e: &Expr) -> &Expr {
        match unref(e) {
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "as_str" || m.method == "as_ref") => strip(&m.receiver),
            e => e,
        }
    }
    let is = |e: &Expr| ident(strip(e)).as_deref() == Some(&n);
    let y = match (is(&b.left), is(&b.right)) {
        (true, false) => strip(&b.right),
        (false, true) => strip(&b.left),
        _ => return None,
    };
    if mentions(&y.to_token_stream(), &n) {
        return None;
    }
    let v = &it.receiver;
    Some(parse_quote!(#v.contains(&#y)))
}
