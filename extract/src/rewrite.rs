//! The mechanical rewrites applied to an extracted body, and contract splicing.
use crate::{find_fn, Directives, FnSpec, FoundFn, Src};
use proc_macro2::{Literal, TokenStream, TokenTree};
use quote::{format_ident, quote};
use std::collections::{BTreeSet, HashSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Rewriter<'a> {
    pub src: &'a Src,
    pub dirs: &'a Directives,
    pub known: &'a HashSet<String>,
    pub file: String,
    pub fn_path: String,
    pub log: Vec<String>,
    pub warn: Vec<String>,
    depth: usize,
    inl: usize,
    chain: usize,
    mn: usize,
    /// identifiers bound to a list of parsed children
    lists: BTreeSet<String>,
    /// generated code, spliced in as text
    code: Vec<String>,
    /// variables that are mutable references
    mut_refs: BTreeSet<String>,
    /// no hints for loops in the specification of the function
    no_loops: bool,
}

fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

fn map_path(p: &mut Path, dirs: &Directives, log: &mut Vec<String>) {
    let s = path_str(p);
    if let Some(t) = dirs.path.get(&s) {
        let args = p.segments.last().unwrap().arguments.clone();
        let mut np: Path = parse_str(t).unwrap();
        if np.segments.last().unwrap().arguments.is_empty() {
            np.segments.last_mut().unwrap().arguments = args;
        }
        log.push(format!("path {s} => {t}"));
        *p = np;
    } else {
        // longest prefix mapping:  A::B => X  applies to A::B::c
        let n = p.segments.len();
        for k in (1..n).rev() {
            let pre = p.segments.iter().take(k).map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            if let Some(t) = dirs.path.get(&format!("{pre}::*")) {
                let mut np: Path = if t.is_empty() { Path { leading_colon: None, segments: Default::default() } } else { parse_str(t).unwrap() };
                for s in p.segments.iter().skip(k) {
                    np.segments.push(s.clone());
                }
                log.push(format!("path {pre}::* => {t}"));
                *p = np;
                return;
            }
        }
    }
}

struct PathMap<'a> {
    dirs: &'a Directives,
    log: Vec<String>,
}
impl<'a> VisitMut for PathMap<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        map_path(p, self.dirs, &mut self.log);
    }
}
pub fn rewrite_paths_item(it: &mut Item, dirs: &Directives) {
    let mut v = PathMap { dirs, log: vec![] };
    v.visit_item_mut(it);
}

/// rename one identifier in patterns and expressions
struct Rename {
    from: String,
    to: Ident,
}
impl Rename {
    fn tokens(&self, ts: TokenStream) -> TokenStream {
        let mut prev_dot = false;
        ts.into_iter()
            .map(|t| {
                let r = match t {
                    TokenTree::Ident(ref i) if !prev_dot && *i == self.from => TokenTree::Ident(self.to.clone()),
                    TokenTree::Group(g) => {
                        let mut n = proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream()));
                        n.set_span(g.span());
                        TokenTree::Group(n)
                    }
                    t => t,
                };
                prev_dot = matches!(&r, TokenTree::Punct(p) if p.as_char() == '.');
                r
            })
            .collect()
    }
}
impl VisitMut for Rename {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident(&self.from) {
            p.path = Path::from(self.to.clone());
        }
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if p.ident == self.from {
            p.ident = self.to.clone();
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            // shorthand  S { x }
            if let Member::Named(n) = &f.member {
                if *n == self.from {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            // shorthand  S { x }
            if let Member::Named(n) = &f.member {
                if *n == self.from {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
}

/// does the body contain control flow that cannot be inlined as a block expression?
#[derive(Default)]
struct Returns(bool);
impl<'a> Visit<'a> for Returns {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
/// all names a piece of code binds
#[derive(Default)]
struct Binds(BTreeSet<String>);
impl<'a> Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        fn go(ts: TokenStream, o: &mut BTreeSet<String>) {
            for t in ts {
                match t {
                    TokenTree::Ident(i) => {
                        o.insert(i.to_string());
                    }
                    TokenTree::Group(g) => go(g.stream(), o),
                    _ => {}
                }
            }
        }
        if m.path.is_ident("match_nodes") {
            go(m.tokens.clone(), &mut self.0);
        }
    }
}
/// is a name bound in this block?
struct Rebinds;
impl Rebinds {
    fn any(b: &Block, name: &str) -> bool {
        let mut x = Binds::default();
        x.visit_block(b);
        x.0.contains(name)
    }
}
/// uses of a variable that depend on how many references it is behind
struct TypeSensitive<'b>(&'b str, bool);
impl<'b> TypeSensitive<'b> {
    fn any(b: &Block, name: &str) -> bool {
        let mut s = TypeSensitive(name, false);
        s.visit_block(b);
        s.1
    }
    fn is(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.get_ident().map_or(false, |i| i == self.0))
    }
}
impl<'a, 'b> Visit<'a> for TypeSensitive<'b> {
    fn visit_macro(&mut self, m: &'a Macro) {
        if m.path.is_ident("matches") {
            if let Some(x) = expand_matches(&m.tokens) {
                let x: &'static Expr = Box::leak(Box::new(x));
                let mut s = TypeSensitive(self.0, false);
                s.visit_expr(x);
                self.1 |= s.1;
            }
        }
    }
    fn visit_expr_match(&mut self, m: &'a ExprMatch) {
        if self.is(&m.expr) && m.arms.iter().any(|a| str_lits(match &a.pat { Pat::Guard(g) => &g.pat, p => p }).is_some()) {
            self.1 = true;
        }
        syn::visit::visit_expr_match(self, m);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if self.is(&m.receiver) && matches!(m.method.to_string().as_str(), "clone" | "to_owned" | "cloned" | "into" | "eq" | "ne") {
            self.1 = true;
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_unary(&mut self, u: &'a ExprUnary) {
        if self.is(&u.expr) {
            self.1 = true;
        }
        syn::visit::visit_expr_unary(self, u);
    }
    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
        if self.is(&b.left) || self.is(&b.right) {
            self.1 = true;
        }
        syn::visit::visit_expr_binary(self, b);
    }
}
struct HasMacro<'b>(&'b str, bool);
impl<'a, 'b> Visit<'a> for HasMacro<'b> {
    fn visit_macro(&mut self, m: &'a Macro) {
        if m.path.is_ident(self.0) {
            self.1 = true;
        }
    }
}
/// the error type of a `Result` (or the name of an alias without arguments)
fn error_type(sig: &Signature) -> Option<String> {
    let ReturnType::Type(_, t) = &sig.output else { return None };
    let Type::Path(p) = &**t else { return None };
    let s = p.path.segments.last()?;
    if let PathArguments::AngleBracketed(a) = &s.arguments {
        if a.args.len() == 2 {
            let e = &a.args[1];
            return Some(quote!(#e).to_string());
        }
    }
    Some(p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"))
}

/// calls of helpers that use `?`, where the result is handed on with the same error: `helper(..)?`, or the value of the
/// function itself
struct TailCalls<'b, 'a> {
    rw: &'b mut Rewriter<'a>,
    err: String,
    level: usize,
}
impl<'b, 'a> TailCalls<'b, 'a> {
    fn block(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail(e);
        }
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) if b.label.is_none() => self.block(&mut b.block),
            Expr::Paren(p) => self.tail(&mut p.expr),
            Expr::If(i) => {
                self.block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail(x);
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    self.tail(&mut a.body);
                }
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return };
                let segs = &p.path.segments;
                let name = segs.last().unwrap().ident.to_string();
                if !name.starts_with(|c: char| c.is_lowercase()) || self.rw.known.contains(&name) || self.rw.dirs.call.contains_key(&path_str(&p.path)) {
                    return;
                }
                let of = if segs.len() >= 2 {
                    let t = segs[segs.len() - 2].ident.to_string();
                    let t = if t == "Self" { self.rw.self_type().unwrap_or(t) } else { t };
                    if t.starts_with(|c: char| c.is_uppercase()) { Some(t) } else { None }
                } else {
                    None
                };
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                self.put(e, &name, of, args);
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let on_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                if !on_self || self.rw.known.contains(&name) {
                    return;
                }
                let of = self.rw.self_type();
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                if of.is_some() {
                    self.put(e, &name, of, args);
                }
            }
            _ => {}
        }
    }
    fn put(&mut self, e: &mut Expr, name: &str, of: Option<String>, args: Vec<Expr>) {
        if self.level > 4 {
            return;
        }
        if let Some(mut x) = self.rw.inline_body(name, of.as_deref(), args, Some(&self.err)) {
            self.level += 1;
            self.visit_expr_mut(&mut x);
            self.tail(&mut x);
            self.level -= 1;
            *e = x;
        }
    }
}
impl<'b, 'a> VisitMut for TailCalls<'b, 'a> {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_try_mut(&mut self, t: &mut ExprTry) {
        visit_mut::visit_expr_try_mut(self, t);
        self.tail(&mut t.expr);
    }
    fn visit_expr_return_mut(&mut self, t: &mut ExprReturn) {
        visit_mut::visit_expr_return_mut(self, t);
        if let Some(e) = &mut t.expr {
            self.tail(e);
        }
    }
}

#[derive(Default)]
pub struct Escapes(pub bool);
impl<'a> Visit<'a> for Escapes {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

impl<'a> Rewriter<'a> {
    pub fn new(src: &'a Src, dirs: &'a Directives, known: &'a HashSet<String>, file: &str, fn_path: &str) -> Self {
        Rewriter { src, dirs, known, file: file.into(), fn_path: fn_path.into(), log: vec![], warn: vec![], depth: 0, inl: 0, chain: 0, mn: 0, lists: Default::default(), code: vec![], mut_refs: Default::default(), no_loops: false }
    }

    fn self_type(&self) -> Option<String> {
        let p = &self.fn_path;
        if let Some(r) = p.strip_prefix('<') {
            return r.split(" as ").next().map(|s| s.to_string());
        }
        if p.starts_with("trait ") {
            return None;
        }
        p.rsplit_once("::").map(|x| x.0.to_string())
    }

    /// is it a list in the verified text (where the code has an iterator)?
    fn is_list(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(r) => match r.method.to_string().as_str() {
                "rev" | "take" | "enumerate" => true,
                "skip" => self.is_list(&r.receiver),
                n @ ("split" | "lines" | "chars" | "split_whitespace") => self.dirs.method.contains_key(n),
                _ => false,
            },
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.lists.contains(&i.to_string())),
            _ => false,
        }
    }

    /// `A(x) | B(x) => b` where x may be bound by mutable reference: an arm for each alternative
    fn split_or(&mut self, m: &mut ExprMatch) {
        let by_mut = match &*m.expr {
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.mut_refs.contains(&i.to_string())),
            Expr::Reference(r) => r.mutability.is_some(),
            Expr::MethodCall(c) => matches!(c.method.to_string().as_str(), "last_mut" | "get_mut" | "iter_mut" | "as_mut" | "first_mut"),
            _ => false,
        };
        let mut arms = vec![];
        for a in std::mem::take(&mut m.arms) {
            let (p, g) = match &a.pat {
                Pat::Guard(g) => ((*g.pat).clone(), Some(g.clone())),
                p => (p.clone(), None),
            };
            let has_ref_mut = quote!(#p).to_string().contains("ref mut");
            match p {
                Pat::Or(o) if (by_mut || has_ref_mut) && !pat_idents(&o.cases[0]).is_empty() => {
                    self.log.push("or-pattern that binds by mutable reference => an arm for each alternative".into());
                    for c in o.cases {
                        let mut b = a.clone();
                        b.pat = match &g {
                            Some(g) => {
                                let mut g = g.clone();
                                g.pat = Box::new(c);
                                Pat::Guard(g)
                            }
                            None => c,
                        };
                        if b.comma.is_none() {
                            b.comma = Some(Default::default());
                        }
                        arms.push(b);
                    }
                }
                _ => arms.push(a),
            }
        }
        m.arms = arms;
    }
    /// tests on characters: see chars.rs
    fn char_tests(&mut self, e: &Expr) -> Option<Expr> {
        let file = self.file.clone();
        let cx = crate::chars::Ctx { src: self.src, file: &file };
        if let Expr::ForLoop(f) = e {
            let (s, p, b) = cx.search_loop(f)?;
            let c = self.class_arg(&p);
            self.log.push("search through the characters of a string => contains".into());
            return Some(parse_quote!(if #s.contains(#c) #b));
        }
        let Expr::MethodCall(m) = e else { return None };
        if let Some(x) = crate::chars::unroll(m) {
            self.log.push("any/all/contains of an array of literals => its elements one by one".into());
            return Some(x);
        }
        let n = m.method.to_string();
        let of = |e: &Expr| match e {
            Expr::MethodCall(r) if r.method == "chars" && r.args.is_empty() => Some((*r.receiver).clone()),
            _ => None,
        };
        match (n.as_str(), m.args.len()) {
            ("any", 1) if crate::chars::member(m).is_some() => {
                self.log.push("any(|x| x == y) => contains".into());
                crate::chars::member(m)
            }
            ("any" | "all", 1) => {
                let s = of(&m.receiver)?;
                let p = cx.class(&m.args[0])?;
                self.log.push(format!("chars().{n}(..) => contains"));
                Some(if n == "any" {
                    let c = self.class_arg(&p);
                    parse_quote!(#s.contains(#c))
                } else {
                    let c = self.class_arg(&format!("!({p})"));
                    parse_quote!(!#s.contains(#c))
                })
            }
            ("is_some" | "is_none", 0) => {
                let Expr::MethodCall(r) = &*m.receiver else { return None };
                if r.args.len() != 1 || (r.method != "find" && r.method != "position") {
                    return None;
                }
                let (s, a) = match of(&r.receiver) {
                    Some(s) => {
                        let p = cx.class(&r.args[0])?;
                        (s, self.class_arg(&p))
                    }
                    None if r.method == "find" => match &r.args[0] {
                        a @ Expr::Lit(_) => ((*r.receiver).clone(), a.clone()),
                        a @ (Expr::Array(_) | Expr::Reference(_)) => {
                            let p = cx.class(a)?;
                            ((*r.receiver).clone(), self.class_arg(&p))
                        }
                        _ => return None,
                    },
                    None => return None,
                };
                self.log.push("find(..).is_some() => contains".into());
                Some(if n == "is_some" { parse_quote!(#s.contains(#a)) } else { parse_quote!(!#s.contains(#a)) })
            }
            ("contains" | "starts_with" | "ends_with" | "trim_matches" | "trim_start_matches" | "trim_end_matches" | "strip_prefix" | "strip_suffix" | "split", 1) => {
                if matches!(&m.args[0], Expr::Path(p) if p.path.segments.len() == 2) {
                    return None;
                }
                let p = cx.class(&m.args[0])?;
                let c = self.class_arg(&p);
                self.log.push("test on characters => m_class".into());
                let mut m = m.clone();
                m.args[0] = c;
                Some(Expr::MethodCall(m))
            }
            _ => None,
        }
    }
    fn class_arg(&mut self, p: &str) -> Expr {
        // a single character
        if let Some(c) = p.strip_prefix("(c__ == ").and_then(|x| x.strip_suffix(')')) {
            if let Ok(l) = parse_str::<LitChar>(c) {
                return parse_quote!(#l);
            }
        }
        self.code.push(format!("m_class(Ghost(|c__: char| {p}))"));
        let l = Literal::usize_unsuffixed(self.code.len() - 1);
        parse_quote!(__raw! { #l })
    }

    fn try_inline(&mut self, name: &str, method_of: Option<&str>, args: Vec<Expr>) -> Option<Expr> {
        let mut x = self.inline_body(name, method_of, args, None)?;
        self.depth += 1;
        if let Expr::Block(b) = &mut x {
            // (the arguments were rewritten with the caller)
            let n = b.block.stmts.iter().take_while(|s| matches!(s, Stmt::Local(l) if pat_idents(&l.pat).first().map_or(false, |i| i.contains("__i")))).count();
            let mut rest: Block = Block { brace_token: Default::default(), stmts: b.block.stmts.split_off(n) };
            self.visit_block_mut(&mut rest);
            b.block.stmts.extend(rest.stmts);
        }
        self.depth -= 1;
        Some(x)
    }

    /// the body of a helper in place of its call; `tries`: `?` may stay (the error type has to be this one)
    fn inline_body(&mut self, name: &str, method_of: Option<&str>, args: Vec<Expr>, tries: Option<&str>) -> Option<Expr> {
        if self.depth > 6 || self.dirs.noinline.contains(name) {
            return None;
        }
        let path = match method_of {
            Some(t) => format!("{t}::{name}"),
            None => name.to_string(),
        };
        let (_, f) = find_fn(self.src, &self.file, &path)?;
        let (sig, block) = match f {
            FoundFn::Free(f) => (f.sig, *f.block),
            FoundFn::Method(f) => (f.sig, f.block),
            _ => return None,
        };
        let mut block = block;
        if crate::early::returns(&block) {
            if let Some(b) = crate::early::value(block.clone()) {
                block = b;
            }
        }
        let mut e = Escapes::default();
        e.visit_block(&block);
        match tries {
            None if e.0 => return None,
            Some(t) => {
                let mut r = Returns::default();
                r.visit_block(&block);
                if r.0 || !e.0 || error_type(&sig)? != t {
                    return None;
                }
            }
            None => {}
        }
        if name == self.fn_path.rsplit("::").next().unwrap() {
            return None;
        }
        let params: Vec<&FnArg> = sig.inputs.iter().collect();
        let typed: Vec<&PatType> = params.iter().filter_map(|p| if let FnArg::Typed(t) = p { Some(t) } else { None }).collect();
        if typed.len() != args.len() {
            return None;
        }
        self.inl += 1;
        let k = self.inl;
        let mut bound = Binds::default();
        bound.visit_block(&block);
        for t in &typed {
            bound.visit_pat(&t.pat);
        }
        let mut stmts: Vec<Stmt> = vec![];
        let mut late: Vec<(Ident, Ident)> = vec![];
        for (t, a) in typed.iter().zip(args) {
            let id = match &*t.pat {
                Pat::Ident(i) => i.clone(),
                _ => return None,
            };
            let nid = format_ident!("{}__i{}", id.ident, k);
            let mut r = Rename { from: id.ident.to_string(), to: nid.clone() };
            r.visit_block_mut(&mut block);
            // an argument that is a variable stands for itself
            if let (Expr::Path(p), None) = (&a, &id.mutability) {
                if let Some(v) = p.path.get_ident() {
                    let own = *v == id.ident && !Rebinds::any(&block, &v.to_string());
                    let fits = !matches!(&*t.ty, Type::Reference(r) if r.mutability.is_none()) || !TypeSensitive::any(&block, &nid.to_string());
                    if v != "self" && fits && (own || !bound.0.contains(&v.to_string())) {
                        late.push((nid, v.clone()));
                        continue;
                    }
                }
            }
            let ty = &t.ty;
            let has_generic = sig.generics.params.iter().any(|g| matches!(g, GenericParam::Type(_)));
            let m = &id.mutability;
            let s: Stmt = if has_generic || matches!(**ty, Type::ImplTrait(_)) {
                parse_quote!(let #m #nid = #a;)
            } else {
                parse_quote!(let #m #nid: #ty = #a;)
            };
            stmts.push(s);
        }
        for (nid, v) in late {
            let mut r = Rename { from: nid.to_string(), to: v };
            r.visit_block_mut(&mut block);
        }
        self.log.push(format!("inlined call of {path} (no contract of its own)"));
        stmts.extend(block.stmts);
        Some(parse_quote!({ #(#stmts)* }))
    }

    /// what the macro of pest_consume 1.1 expands to: the first arm whose rules fit the children is taken, its
    /// children are parsed by the functions named after the rules
    fn expand_match_nodes(&mut self, ts: &TokenStream) -> Option<Expr> {
        let m: MatchNodes = parse2(ts.clone()).ok()?;
        self.mn += 1;
        let k = self.mn;
        let nodes = format_ident!("nodes__{}", k);
        let mut input = m.input.clone();
        self.visit_expr_mut(&mut input);
        let mut chain: Expr = parse_quote!({ return Err(m_nodes_error()); });
        for arm in m.arms.into_iter().rev() {
            let at = arm.items.iter().position(|i| i.2);
            let n = arm.items.len();
            let (start, end) = match at {
                Some(a) => (a, n - a - 1),
                None => (n, 0),
            };
            let mut cond: Vec<Expr> = vec![];
            let total = Literal::usize_unsuffixed(start + end);
            cond.push(if at.is_some() { parse_quote!(#nodes.len() >= #total) } else { parse_quote!(#nodes.len() == #total) });
            let mut stmts: Vec<Stmt> = vec![];
            let one = |rule: &Option<Ident>, ix: Expr| -> Expr {
                match rule {
                    Some(r) => parse_quote!(Self::#r(#nodes[#ix])?),
                    None => parse_quote!(#nodes[#ix]),
                }
            };
            for (i, (rule, pat, _)) in arm.items[..start].iter().enumerate() {
                let l = Literal::usize_unsuffixed(i);
                if let Some(r) = rule {
                    cond.push(parse_quote!(#nodes[#l].is(Rule::#r)));
                }
                let e = one(rule, parse_quote!(#l));
                stmts.push(parse_quote!(let #pat = #e;));
            }
            for (i, (rule, pat, _)) in arm.items[n - end..].iter().enumerate().rev() {
                let l = Literal::usize_unsuffixed(end - i);
                let ix: Expr = parse_quote!(#nodes.len() - #l);
                if let Some(r) = rule {
                    cond.push(parse_quote!(#nodes[#ix].is(Rule::#r)));
                }
                let e = one(rule, ix);
                stmts.push(parse_quote!(let #pat = #e;));
            }
            if let Some(a) = at {
                let (rule, pat, _) = &arm.items[a];
                let r = rule.as_ref()?;
                let (s, d) = (Literal::usize_unsuffixed(start), Literal::usize_unsuffixed(end));
                cond.push(parse_quote!(m_all_rule(&#nodes, #s, #d, Rule::#r)));
                let v = match pat {
                    Pat::Ident(i) => i.ident.clone(),
                    _ => format_ident!("list__{}", k),
                };
                self.lists.insert(v.to_string());
                let t = format!(
                    "let mut {v} = Vec::new();\nlet mut j__{k}: usize = {start};\nwhile j__{k} < {nodes}.len() - {end}\n    invariant {start} <= j__{k} <= {nodes}.len() - {end}, {v}@.len() == j__{k} - {start},\n        forall|i: int| 0 <= i < {v}@.len() ==> ok_{r}(#[trigger] {v}@[i], {nodes}@[{start} + i]@),\n        forall|i: int| {start} <= i < j__{k} ==> !bad(#[trigger] {nodes}@[i]@),\n    decreases {nodes}.len() - j__{k},\n{{\n    let e__{k} = Self::{r}({nodes}[j__{k}])?;\n    {v}.push(e__{k});\n    j__{k} = j__{k} + 1;\n}}\nassert(true);\n"
                );
                self.code.push(t);
                let l = Literal::usize_unsuffixed(self.code.len() - 1);
                stmts.push(parse_quote!(__raw! { #l };));
            }
            let mut body = arm.body;
            self.visit_expr_mut(&mut body);
            let body = Stmt::Expr(body, None);
            stmts.push(body);
            let then = Block { brace_token: Default::default(), stmts };
            chain = parse_quote!(if #(#cond)&&* #then else #chain);
        }
        let e: Expr = parse_quote!({ let #nodes = #input; #chain });
        Some(e)
    }

    fn expand_write(&mut self, m: &Macro, newline: bool) -> Option<Expr> {
        use syn::parse::Parser;
        let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        let args: Vec<Expr> = p.parse2(m.tokens.clone()).ok()?.into_iter().collect();
        let dest = match args.get(0)? {
            Expr::Reference(r) if r.mutability.is_some() => (*r.expr).clone(),
            e => e.clone(),
        };
        let lit = match args.get(1) {
            Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(),
            None if newline => String::new(),
            _ => return None,
        };
        let mut rest = args.iter().skip(2).cloned();
        let mut stmts: Vec<Stmt> = vec![];
        let push_lit = |c: char, stmts: &mut Vec<Stmt>| {
            let l = Literal::character(c);
            stmts.push(parse_quote!((#dest).w_ch(#l);));
        };
        let cs: Vec<char> = lit.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => {
                    push_lit('{', &mut stmts);
                    i += 2;
                }
                '}' if cs.get(i + 1) == Some(&'}') => {
                    push_lit('}', &mut stmts);
                    i += 2;
                }
                '{' => {
                    let end = cs[i..].iter().position(|c| *c == '}')? + i;
                    let name: String = cs[i + 1..end].iter().collect();
                    let e: Expr = if name.is_empty() {
                        rest.next()?
                    } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') && !name.chars().next()?.is_numeric() {
                        parse_str(&name).ok()?
                    } else {
                        return None;
                    };
                    let mut e = e;
                    self.visit_expr_mut(&mut e);
                    stmts.push(parse_quote!((#dest).w_disp(&(#e));));
                    i = end + 1;
                }
                c => {
                    push_lit(c, &mut stmts);
                    i += 1;
                }
            }
        }
        if newline {
            push_lit('\n', &mut stmts);
        }
        self.log.push(format!("write! expanded to character pushes ({} pieces)", stmts.len()));
        Some(parse_quote!(({ #(#stmts)* w_ok() })))
    }

    fn rewrite_bounds(&mut self, sig: &mut Signature) -> Vec<String> {
        let mut tys: Vec<String> = vec![];
        let dirs = self.dirs;
        let mut log = vec![];
        let mut fix = |name: &str, bounds: &mut syn::punctuated::Punctuated<TypeParamBound, Token![+]>| {
            let mut hit = false;
            for b in bounds.iter_mut() {
                let k = quote!(#b).to_string().replace(' ', "");
                if let Some(t) = dirs.bound.get(&k) {
                    log.push(format!("bound {k} => {t}, calls => .m_call()"));
                    *b = parse_str(t).unwrap();
                    hit = true;
                }
            }
            if hit {
                tys.push(name.to_string());
            }
        };
        for g in sig.generics.params.iter_mut() {
            if let GenericParam::Type(t) = g {
                let n = t.ident.to_string();
                fix(&n, &mut t.bounds);
            }
        }
        if let Some(w) = &mut sig.generics.where_clause {
            for p in w.predicates.iter_mut() {
                if let WherePredicate::Type(t) = p {
                    let ty = &t.bounded_ty;
                    let n = quote!(#ty).to_string();
                    fix(&n, &mut t.bounds);
                }
            }
        }
        self.log.extend(log);
        let mut names = vec![];
        for p in &sig.inputs {
            if let FnArg::Typed(t) = p {
                let mut ty = &*t.ty;
                while let Type::Reference(r) = ty {
                    ty = &r.elem;
                }
                if tys.contains(&quote!(#ty).to_string()) {
                    names.extend(pat_idents(&t.pat));
                }
            }
        }
        names
    }

    pub fn process(&mut self, sig: &mut Signature, block: &mut Block, spec: &FnSpec) -> std::result::Result<Vec<String>, String> {
        let mut raws: Vec<String> = vec![];
        // 0. a local named like a spec function would hide it in the annotations
        let mut nodes = HasMacro("match_nodes", false);
        nodes.visit_block(block);
        if !nodes.1 {
            let mut names = Binds::default();
            names.visit_signature(sig);
            names.visit_block(block);
            for n in names.0.into_iter().filter(|n| self.dirs.ghost.contains(n)) {
                let mut r = Rename { from: n.clone(), to: format_ident!("{}__v", n) };
                r.visit_signature_mut(sig);
                r.visit_block_mut(block);
                self.log.push(format!("local {n} renamed {n}__v (the name of a spec function)"));
            }
        }
        if let Some(err) = error_type(sig) {
            let mut t = TailCalls { rw: self, err, level: 0 };
            t.visit_block_mut(block);
            t.block(block);
        }
        // 1. rewrites
        self.no_loops = !spec.keys.iter().any(|k| k.0.starts_with("loop"));
        for p in &sig.inputs {
            match p {
                FnArg::Receiver(r) if quote!(#r).to_string().starts_with("& mut") || quote!(#r).to_string().starts_with("&mut") => {
                    self.mut_refs.insert("self".into());
                }
                FnArg::Typed(t) if matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()) => self.mut_refs.extend(pat_idents(&t.pat)),
                _ => {}
            }
        }
        // a parameter `impl Iterator<Item = T>`: the list of what it still yields
        if self.dirs.path.contains_key("iterparams") {
            for p in sig.inputs.iter_mut() {
                let FnArg::Typed(t) = p else { continue };
                let Type::ImplTrait(it) = &*t.ty else { continue };
                let Some(TypeParamBound::Trait(tb)) = it.bounds.first() else { continue };
                let Some(seg) = tb.path.segments.last() else { continue };
                if it.bounds.len() != 1 || (seg.ident != "Iterator" && seg.ident != "IntoIterator") {
                    continue;
                }
                let PathArguments::AngleBracketed(ab) = &seg.arguments else { continue };
                let item = ab.args.iter().find_map(|a| match a {
                    GenericArgument::AssocType(a) if a.ident == "Item" => Some(a.ty.clone()),
                    _ => None,
                });
                if let Some(item) = item {
                    self.log.push("parameter impl Iterator<Item = T> => Vec<T>".into());
                    t.ty = Box::new(parse_quote!(Vec<#item>));
                }
            }
        }
        {
            let mut pm = PathMap { dirs: self.dirs, log: vec![] };
            pm.visit_signature_mut(sig);
            self.log.extend(pm.log);
        }
        // closure parameters: bound F: FnMut(..) -> ..  =>  F: Shim,  f(x)  =>  f.m_call(x)
        let fnames = self.rewrite_bounds(sig);
        if !fnames.is_empty() {
            let mut cm = CallToMethod { names: fnames };
            cm.visit_block_mut(block);
        }
        if self.known.contains("m_class") {
            crate::chars::name_free(block, &crate::chars::Ctx { src: self.src, file: &self.file });
        }
        self.visit_block_mut(block);
        raws.append(&mut self.code);
        // deduplicate the log
        let mut seen = BTreeSet::new();
        self.log.retain(|l| seen.insert(l.clone()));

        // parameter roles
        let params: Vec<String> = sig
            .inputs
            .iter()
            .filter_map(|p| match p {
                FnArg::Typed(t) => Some(pat_idents(&t.pat).first().cloned().unwrap_or_default()),
                _ => None,
            })
            .collect();
        hoist_closures(block);
        let mut locals = LetOrder::default();
        locals.visit_block(block);
        let mut cn = ClosureNames::default();
        cn.visit_block(block);
        let base = |s: &str| -> String {
            let mut s = s.to_string();
            for (i, p) in params.iter().enumerate() {
                s = s.replace(&format!("$p{i}"), p);
            }
            for (i, p) in locals.all.iter().enumerate().rev() {
                s = s.replace(&format!("$l{i}"), p);
            }
            for (i, (p, ty)) in cn.names.iter().enumerate().rev() {
                s = s.replace(&format!("$k{i}"), p);
                s = s.replace(&format!("$k[{ty}]"), p);
            }
            s
        };
        let get = |k: &str| -> Vec<String> { spec.keys.iter().filter(|x| x.0 == k).map(|x| base(&x.1)).collect() };

        // 2. loops
        let mut muts: Vec<String> = sig
            .inputs
            .iter()
            .filter_map(|p| match p {
                FnArg::Typed(t) => Some(t),
                _ => None,
            })
            .flat_map(|t| {
                let is_mut = matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()) || matches!(&*t.pat, Pat::Ident(i) if i.mutability.is_some());
                if is_mut {
                    pat_idents(&t.pat)
                } else {
                    vec![]
                }
            })
            .collect();
        muts.extend(locals.muts.iter().cloned());
        let mut lv = Loops { k: 0, spec, base: &base, raws: &mut raws, muts: &muts, warn: vec![], params: &params, cur_src: String::new(), binds: vec![], bools: bool_flags(block), flags: vec![] };
        lv.visit_block_mut(block);
        let nloops = lv.k;
        self.warn.extend(lv.warn.clone());
        for (k, _) in &spec.keys {
            if k.starts_with("loop *") {
                continue;
            }
            if let Some(r) = k.strip_prefix("loop ") {
                let n: usize = r.split(' ').next().unwrap().parse().unwrap();
                if n >= nloops {
                    self.warn.push(format!("{}: no loop {n}", spec.path));
                }
            }
        }
        // 3. closures
        let mut cv = Closures { k: 0, spec, base: &base, raws: &mut raws };
        cv.visit_block_mut(block);
        let ncl = cv.k;
        for (k, _) in &spec.keys {
            if let Some(r) = k.strip_prefix("closure ") {
                if r.starts_with('[') {
                    if !cn.names.iter().any(|x| r.starts_with(&format!("[{}]", x.1))) {
                        self.warn.push(format!("{}: no closure {r}", spec.path));
                    }
                    continue;
                }
                let n: usize = r.split(' ').next().unwrap().parse().unwrap();
                if n >= ncl {
                    self.warn.push(format!("{}: no closure {n}", spec.path));
                }
            }
        }
        // 4. arms
        for (k, v) in &spec.keys {
            if let Some(r) = k.strip_prefix("arm ") {
                let mut av = Arms { pat: r.replace(' ', ""), raw: base(v), raws: &mut raws, n: 0 };
                av.visit_block_mut(block);
                if av.n == 0 {
                    self.warn.push(format!("{}: no arm {r}", spec.path));
                }
            }
        }
        // 4b. after the first top-level `let` whose value mentions a text ($v: the variable)
        for (k, v) in &spec.keys {
            if let Some(r) = k.strip_prefix("let ") {
                let r = r.replace(' ', "");
                let at = block.stmts.iter().position(|s| match s {
                    Stmt::Local(l) => l.init.as_ref().map(|i| { let e = &i.expr; quote!(#e).to_string().replace(' ', "").contains(&r) }).unwrap_or(false),
                    _ => false,
                });
                match at {
                    Some(i) => {
                        let name = if let Stmt::Local(l) = &block.stmts[i] { pat_idents(&l.pat).first().cloned().unwrap_or_default() } else { String::new() };
                        raws.push(base(v).replace("$v", &name));
                        let n = Literal::usize_unsuffixed(raws.len() - 1);
                        block.stmts.insert(i + 1, parse_quote!(__raw! { #n };));
                    }
                    None => self.warn.push(format!("{}: no let {r}", spec.path)),
                }
            }
        }
        // 5. end hint
        if let Some(e) = get("end").first() {
            raws.push(e.clone());
            let n = Literal::usize_unsuffixed(raws.len() - 1);
            match block.stmts.pop() {
                Some(Stmt::Expr(x, None)) => {
                    block.stmts.push(parse_quote!(let r__ = #x;));
                    block.stmts.push(parse_quote!(__raw! { #n };));
                    block.stmts.push(Stmt::Expr(parse_quote!(r__), None));
                }
                Some(s) => {
                    block.stmts.push(s);
                    block.stmts.push(parse_quote!(__raw! { #n };));
                }
                None => {}
            }
        }
        // 6. signature and contract
        let rname = get("ret").first().map(|s| s.trim().to_string()).unwrap_or("result".into());
        if let ReturnType::Type(_, t) = &sig.output {
            let t = (**t).clone();
            let r = format_ident!("{}", rname);
            sig.output = parse_quote!(-> __ret! { #r #t });
        }
        let mut c = String::new();
        for k in ["requires", "ensures", "returns", "decreases"] {
            let v = get(k);
            if !v.is_empty() {
                c.push_str(&format!("    {k}\n"));
                for x in v {
                    c.push_str(&format!("        {},\n", x.trim().trim_end_matches(',')));
                }
            }
        }
        let mut start = String::new();
        if get("no_reveal").is_empty() {
            let mut sl = StrLits::default();
            sl.visit_block(block);
            if !sl.0.is_empty() {
                start.push_str("proof {\n");
                for s in &sl.0 {
                    start.push_str(&format!("reveal_strlit({});\n", Literal::string(s)));
                    if s.chars().count() <= 8 && s.chars().count() > 0 {
                        let cs: Vec<String> = s.chars().map(|c| Literal::character(c).to_string()).collect();
                        start.push_str(&format!("assert({}@ =~= seq![{}]);\n", Literal::string(s), cs.join(", ")));
                    }
                }
                start.push_str("}\n");
            }
        }
        for s in get("start") {
            start.push_str(&s);
        }
        let mut stmts: Vec<Stmt> = vec![];
        raws.push(c);
        let n = Literal::usize_unsuffixed(raws.len() - 1);
        stmts.push(parse_quote!(__spec! { #n };));
        raws.push(start);
        let n = Literal::usize_unsuffixed(raws.len() - 1);
        stmts.push(parse_quote!(__raw! { #n };));
        stmts.extend(block.stmts.drain(..));
        block.stmts = stmts;
        for w in &self.warn {
            self.log.push(format!("ANCHOR-MISS {w}"));
        }
        Ok(raws)
    }
}

/// The body of a function that is one `match` on `self` or a parameter, arm by arm: every arm
/// becomes a function of its own with the same contract (the other arms are unreachable there by
/// its precondition), and the function calls them.  What runs is the same text.
pub fn split_match(sig: &mut Signature, block: &mut Block, raws: &mut Vec<String>) -> Vec<(Signature, Block)> {
    let mut at_tail = None;
    for (i, s) in block.stmts.iter().enumerate() {
        match s {
            Stmt::Macro(m) if m.mac.path.is_ident("__spec") || m.mac.path.is_ident("__raw") => {}
            Stmt::Expr(Expr::Match(m), None) if i + 1 == block.stmts.len() && matches!(&*m.expr, Expr::Path(_)) && m.arms.iter().all(|a| !matches!(a.pat, Pat::Guard(_))) => at_tail = Some(i),
            _ => return vec![],
        }
    }
    let Some(at) = at_tail else { return vec![] };
    let mut args: Vec<Expr> = vec![];
    let mut method = false;
    for i in &sig.inputs {
        match i {
            FnArg::Receiver(r) if quote!(#r).to_string() == "& self" => method = true,
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => {
                    let n = &p.ident;
                    args.push(parse_quote!(#n))
                }
                _ => return vec![],
            },
            _ => return vec![],
        }
    }
    let Stmt::Expr(Expr::Match(whole), None) = block.stmts[at].clone() else { return vec![] };
    let mut out = vec![];
    for k in 0..whole.arms.len() {
        let mut s = sig.clone();
        s.ident = format_ident!("{}__{}", sig.ident, k);
        let mut b = block.clone();
        let mut m = whole.clone();
        let mut cond = String::new();
        let scrut = &whole.expr;
        cond.push_str(&format!("match {} {{ ", quote!(#scrut)));
        let mut all = false;
        for (j, a) in whole.arms.iter().enumerate() {
            if j > k {
                break;
            }
            let p = &a.pat;
            cond.push_str(&format!("{} => {}, ", quote!(#p), j == k));
            all = matches!(p, Pat::Wild(_) | Pat::Ident(_));
        }
        cond.push_str(if all { "}" } else { "_ => false }" });
        for (j, a) in m.arms.iter_mut().enumerate() {
            if j != k {
                a.body = Box::new(parse_quote!(vstd::pervasive::unreached()));
            }
        }
        b.stmts[at] = Stmt::Expr(Expr::Match(m), None);
        // the contract of the arm
        if let Some(Stmt::Macro(sp)) = b.stmts.first() {
            if let Ok(n) = sp.mac.tokens.to_string().trim().parse::<usize>() {
                let c = raws[n].clone();
                let c = match c.strip_prefix("    requires\n") {
                    Some(r) => format!("    requires\n        {cond},\n{r}"),
                    None => format!("    requires\n        {cond},\n{c}"),
                };
                raws.push(c.replace(", 1int", ", 0int"));
                let l = Literal::usize_unsuffixed(raws.len() - 1);
                b.stmts[0] = parse_quote!(__spec! { #l };);
            }
        }
        out.push((s, b));
    }
    if let Stmt::Expr(Expr::Match(m), None) = &mut block.stmts[at] {
        for (k, a) in m.arms.iter_mut().enumerate() {
            let n = format_ident!("{}__{}", sig.ident, k);
            a.body = Box::new(if method { parse_quote!(self.#n(#(#args),*)) } else { parse_quote!(#n(#(#args),*)) });
        }
    }
    out
}

/// does `continue` of the surrounding loop occur in it?
struct Continues(bool);
impl<'a> Visit<'a> for Continues {
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn continues(s: &Stmt) -> bool {
    let mut c = Continues(false);
    c.visit_stmt(s);
    c.0
}
fn is_continue(s: Option<&Stmt>) -> bool {
    matches!(s, Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none())
}

/// statements of a for body:  `if c { ..; continue; } rest`  =>  `if c { .. } else { rest }`,
/// `let P = e else { ..; continue };`  =>  `if let`; with a flag where `continue` stands deeper
fn fold_continue(stmts: &mut Vec<Stmt>) -> bool {
    let Some(i) = stmts.iter().position(continues) else { return false };
    if let Stmt::Expr(Expr::If(x), _) = &mut stmts[i] {
        let mut then = x.then_branch.clone();
        let ends = x.else_branch.is_none() && is_continue(x.then_branch.stmts.last());
        then.stmts.pop();
        if ends && !then.stmts.iter().any(continues) {
            x.then_branch = then;
            let mut rest: Vec<Stmt> = stmts.split_off(i + 1);
            fold_continue(&mut rest);
            if let Some(Stmt::Expr(Expr::If(x), semi)) = stmts.last_mut() {
                *semi = None;
                x.else_branch = Some((Default::default(), Box::new(parse_quote!({ #(#rest)* }))));
            }
            return true;
        }
    }
    let flag = format_ident!("go_on__");
    let old = stmts.clone();
    let mut deep = false;
    if lower_continue(stmts, &flag, &mut deep).is_none() {
        *stmts = old;
        return false;
    }
    if deep {
        stmts.insert(0, parse_quote!(let mut #flag = true;));
    }
    true
}
fn lower_continue(stmts: &mut Vec<Stmt>, flag: &Ident, deep: &mut bool) -> Option<()> {
    let Some(i) = stmts.iter().position(continues) else { return Some(()) };
    if is_continue(stmts.get(i)) {
        stmts.truncate(i);
        stmts.push(parse_quote!(#flag = false;));
        *deep = true;
        return Some(());
    }
    let mut rest: Vec<Stmt> = stmts.split_off(i + 1);
    lower_continue(&mut rest, flag, deep)?;
    match stmts.pop()? {
        // let P = e else { ..; continue };
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let (p, e) = (&l.pat, &init.expr);
            match &init.diverge {
                Some((_, d)) => {
                    let mut d: Vec<Stmt> = match &**d {
                        Expr::Block(b) => b.block.stmts.clone(),
                        _ => return None,
                    };
                    if !is_continue(d.last()) {
                        return None;
                    }
                    d.pop();
                    if d.iter().any(continues) {
                        return None;
                    }
                    stmts.push(Stmt::Expr(parse_quote!(if let #p = #e { #(#rest)* } else { #(#d)* }), None));
                }
                // let P = match e { A => continue, B => v };
                None => match &**e {
                    Expr::Match(m) => {
                        let mut m = m.clone();
                        let mut values = 0;
                        for a in m.arms.iter_mut() {
                            let body = (*a.body).clone();
                            match &body {
                                Expr::Continue(c) if c.label.is_none() => a.body = Box::new(parse_quote!({})),
                                Expr::Block(b) if is_continue(b.block.stmts.last()) => {
                                    let mut d = b.block.stmts.clone();
                                    d.pop();
                                    if d.iter().any(continues) {
                                        return None;
                                    }
                                    a.body = Box::new(parse_quote!({ #(#d)* }));
                                }
                                b => {
                                    let mut c = Continues(false);
                                    c.visit_expr(b);
                                    values += 1;
                                    if c.0 || values > 1 {
                                        return None;
                                    }
                                    a.body = Box::new(parse_quote!({ let #p = #b; #(#rest)* }));
                                }
                            }
                        }
                        stmts.push(Stmt::Expr(Expr::Match(m), None));
                    }
                    _ => return None,
                },
            }
            Some(())
        }
        Stmt::Expr(mut e, _) => {
            lower_in(&mut e, flag, deep)?;
            *deep = true;
            stmts.push(Stmt::Expr(e, None));
            if !rest.is_empty() {
                stmts.push(Stmt::Expr(parse_quote!(if #flag { #(#rest)* }), None));
            }
            Some(())
        }
        _ => None,
    }
}
fn lower_in(e: &mut Expr, flag: &Ident, deep: &mut bool) -> Option<()> {
    let mut c = Continues(false);
    c.visit_expr(e);
    if !c.0 {
        return Some(());
    }
    match e {
        Expr::Continue(c) if c.label.is_none() => {
            *e = parse_quote!({ #flag = false; });
            Some(())
        }
        Expr::Block(b) => lower_continue(&mut b.block.stmts, flag, deep),
        Expr::If(x) => {
            let mut c = Continues(false);
            c.visit_expr(&x.cond);
            if c.0 {
                return None;
            }
            lower_continue(&mut x.then_branch.stmts, flag, deep)?;
            if let Some((_, b)) = &mut x.else_branch {
                lower_in(b, flag, deep)?;
            }
            Some(())
        }
        Expr::Match(m) => {
            let mut c = Continues(false);
            c.visit_expr(&m.expr);
            if c.0 {
                return None;
            }
            for a in m.arms.iter_mut() {
                lower_in(&mut a.body, flag, deep)?;
            }
            Some(())
        }
        _ => None,
    }
}

struct CallToMethod {
    names: Vec<String>,
}
impl VisitMut for CallToMethod {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            let mut fun = &*c.func;
            while let Expr::Paren(p) = fun {
                fun = &p.expr;
            }
            if let Expr::Unary(u) = fun {
                fun = &u.expr;
            }
            if let Expr::Path(p) = fun {
                if let Some(i) = p.path.get_ident() {
                    if self.names.contains(&i.to_string()) {
                        let i = i.clone();
                        let args = c.args.iter();
                        *e = parse_quote!(#i.m_call(#(#args),*));
                    }
                }
            }
        }
    }
}

impl<'a> VisitMut for Rewriter<'a> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        map_path(p, self.dirs, &mut self.log);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // expression arguments of vec![..] / matches!(..): rewritten when they parse
        use syn::parse::Parser;
        if m.path.is_ident("vec") {
            let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
            if let Ok(mut args) = p.parse2(m.tokens.clone()) {
                for a in args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                m.tokens = quote!(#args);
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // closures that return early
        if let Expr::Closure(c) = &mut *e {
            if let Expr::Block(b) = &mut *c.body {
                if b.label.is_none() && crate::early::returns(&b.block) {
                    if let Some(v) = crate::early::value(b.block.clone()) {
                        self.log.push("early return of a closure => else branch".into());
                        b.block = v;
                    }
                }
            }
        }
        // macros first
        if let Expr::Macro(m) = &*e {
            let m = m.clone();
            let n = path_str(&m.mac.path);
            if n == "write" || n == "writeln" {
                let mac = m.mac.clone();
                if let Some(x) = self.expand_write(&mac, n == "writeln") {
                    *e = x;
                    return;
                }
            }
            if n == "println" || n == "debug_assert" {
                self.log.push(format!("dropped {n}!"));
                *e = parse_quote!({});
                return;
            }
            if n == "match_nodes" {
                if let Some(x) = self.expand_match_nodes(&m.mac.tokens.clone()) {
                    self.log.push("match_nodes! expanded (as pest_consume does)".into());
                    *e = x;
                    return;
                }
            }
            if n == "matches" {
                if let Some(x) = expand_matches(&m.mac.tokens) {
                    *e = x;
                    self.log.push("matches! expanded to match".into());
                    // fall through: visit the expanded match
                }
            }
            if n == "format" {
                use syn::parse::Parser;
                let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                let tokens = m.mac.tokens.clone();
                let args: Vec<Expr> = p.parse2(tokens).map(|a| a.into_iter().collect()).unwrap_or_default();
                if let [Expr::Lit(ExprLit { lit: Lit::Str(s), .. }), x] = &args[..] {
                    if s.value() == "{}" {
                        let mut y: Expr = parse_quote!((#x).to_string());
                        self.log.push("format!(\"{}\", x) => x.to_string()".into());
                        self.visit_expr_mut(&mut y);
                        *e = y;
                        return;
                    }
                }
                if let Some(t) = self.dirs.call.get("format!") {
                    let p: Path = parse_str(t).unwrap();
                    *e = parse_quote!(#p());
                    self.log.push("format! replaced by an unspecified string".into());
                    return;
                }
            }
        }
        if self.known.contains("w_ch") {
            if let Expr::MethodCall(m) = e {
                if m.args.len() == 1 {
                    let r = &m.receiver;
                    match (m.method.to_string().as_str(), &m.args[0]) {
                        ("push", Expr::Lit(ExprLit { lit: Lit::Char(c), .. })) => {
                            self.log.push("push of a character => w_ch".into());
                            *e = parse_quote!(#r.w_ch(#c));
                        }
                        ("push_str", Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => {
                            let cs: Vec<Literal> = s.value().chars().map(Literal::character).collect();
                            self.log.push("push_str of a literal => w_ch".into());
                            *e = parse_quote!({ #(#r.w_ch(#cs);)* });
                        }
                        ("push_str", x) => {
                            self.log.push("push_str => w_disp".into());
                            *e = parse_quote!(#r.w_disp(&(#x)));
                        }
                        _ => {}
                    }
                }
            }
        }
        if self.known.contains("m_class") {
            if let Some(x) = self.char_tests(e) {
                *e = x;
            }
        }
        if let Some(x) = result_chain(e) {
            self.log.push("Result/Option combinator => match".into());
            *e = x;
        }
        if self.dirs.path.contains_key("catchains") {
            if let Some(x) = crate::chain::concat(e, self.known, &self.lists) {
                self.log.push("iterator concatenation => m_cat / m_flatten / m_each_*".into());
                *e = x;
            }
        }
        if self.dirs.method.contains_key("extend") {
            if let Expr::MethodCall(m) = e {
                if m.method == "extend" && m.args.len() == 1 && !matches!(m.args[0], Expr::Path(_)) {
                    if let Some(x) = crate::chain::list(&m.args[0], self.known, &self.lists, false) {
                        m.args[0] = x;
                    }
                }
            }
            if let Expr::ForLoop(f) = e {
                if self.no_loops {
                    if let Some((v, l)) = crate::chain::pushes(f, self.known, &self.lists) {
                        self.log.push("loop that pushes every element => extend".into());
                        *e = parse_quote!(#v.extend(#l));
                    }
                }
            }
        }
        if let Expr::MethodCall(mc) = e {
            if !self.dirs.path.contains_key("nochains") {
                if let Some(x) = crate::chain::desugar(mc, &mut self.chain, &self.lists, &mut self.log) {
                    *e = x;
                }
            }
        }
        // &x[..]  ->  x.as_str()
        if let Expr::Reference(r) = e {
            if let Expr::Index(ix) = &*r.expr {
                if let Expr::Range(rg) = &*ix.index {
                    if rg.start.is_none() && rg.end.is_none() && r.mutability.is_none() {
                        let b = &ix.expr;
                        self.log.push("&x[..] => x.as_str()".into());
                        *e = parse_quote!(#b.as_str());
                    }
                }
            }
        }
        // x[..n], x[n..] on strings
        if self.dirs.path.contains_key("strslices") {
            let ix = match &*e {
                Expr::Reference(r) if r.mutability.is_none() => match &*r.expr {
                    Expr::Index(ix) => Some(ix),
                    _ => None,
                },
                Expr::Index(ix) => Some(ix),
                _ => None,
            };
            if let Some(ix) = ix {
                if let Expr::Range(rg) = &*ix.index {
                    let b = &ix.expr;
                    let x: Option<Expr> = match (&rg.start, &rg.end, &rg.limits) {
                        (Some(n), None, _) => Some(parse_quote!(#b.m_slice_from(#n))),
                        (None, Some(n), RangeLimits::HalfOpen(_)) => Some(parse_quote!(#b.m_slice_to(#n))),
                        _ => None,
                    };
                    if let Some(x) = x {
                        self.log.push("slice of a string => m_slice_from / m_slice_to".into());
                        *e = x;
                    }
                }
            }
        }
        // o.map_or(d, |x| ..) on what is an Option for sure
        if let Expr::MethodCall(mc) = &*e {
            let opt = matches!(&*mc.receiver, Expr::MethodCall(r) if matches!(
                (r.method.to_string().as_str(), r.args.len()),
                ("find", 1) | ("last", 0) | ("last_mut", 0) | ("pop", 0) | ("first", 0) | ("next", 0) | ("get", 1) | ("ok", 0) | ("err", 0)
            ));
            if opt && mc.method == "filter" && mc.args.len() == 1 {
                if let Expr::Closure(c) = &mc.args[0] {
                    let mut r = Escapes::default();
                    r.visit_expr(&c.body);
                    if !r.0 && c.inputs.len() == 1 {
                        let (o, p, b) = (&mc.receiver, c.inputs.first().unwrap(), &c.body);
                        self.log.push("Option::filter => match".into());
                        *e = parse_quote!(match #o { Some(v__) => if { let #p = &v__; #b } { Some(v__) } else { None }, None => None });
                    }
                }
            }
        }
        if let Expr::MethodCall(mc) = &*e {
            let opt = matches!(&*mc.receiver, Expr::MethodCall(r) if matches!(
                (r.method.to_string().as_str(), r.args.len()),
                ("find", 1) | ("last", 0) | ("last_mut", 0) | ("pop", 0) | ("first", 0) | ("next", 0) | ("get", 1) | ("ok", 0) | ("err", 0)
            ));
            if opt && mc.method == "map_or" && mc.args.len() == 2 {
                if let Expr::Closure(c) = &mc.args[1] {
                    let mut r = Escapes::default();
                    r.visit_expr(&c.body);
                    if !r.0 && c.inputs.len() == 1 {
                        let (o, d, p, b) = (&mc.receiver, &mc.args[0], c.inputs.first().unwrap(), &c.body);
                        self.log.push("Option::map_or => match".into());
                        *e = parse_quote!(match #o { Some(#p) => #b, None => #d });
                    }
                }
            }
        }
        // it.rev(), it.take(n): the list of what they give
        if let Expr::MethodCall(mc) = &*e {
            let n = mc.method.to_string();
            if n == "enumerate" && mc.args.is_empty() {
                let list = self.is_list(&mc.receiver);
                let r = &mc.receiver;
                self.log.push("iterator .enumerate() => m_enumerate".into());
                *e = if list { parse_quote!(m_enumerate((#r).into_iter())) } else { parse_quote!(m_enumerate(#r)) };
            } else if matches!((n.as_str(), mc.args.len()), ("rev", 0) | ("take", 1) | ("skip", 1)) {
                let list = self.is_list(&mc.receiver);
                if list || n != "skip" {
                    let f = format_ident!("m_{}{}", n, if list { "_list" } else { "" });
                    let (r, a) = (&mc.receiver, &mc.args);
                    self.log.push(format!("iterator .{n}() => {f}"));
                    *e = if a.is_empty() { parse_quote!(#f(#r)) } else { parse_quote!(#f(#r, #a)) };
                }
            }
        }
        if let Expr::Match(m) = e {
            self.split_or(m);
        }
        // string literal patterns  ->  guards
        if let Expr::Match(m) = e {
            for a in m.arms.iter_mut() {
                let (pat, guard) = match &a.pat {
                    Pat::Guard(g) => ((*g.pat).clone(), Some((*g.guard).clone())),
                    p => (p.clone(), None),
                };
                if let Some(lits) = str_lits(&pat) {
                    let l0 = &lits[0];
                    let mut g: Expr = parse_quote!(ms__ == #l0);
                    for l in &lits[1..] {
                        g = parse_quote!(#g || ms__ == #l);
                    }
                    if let Some(x) = guard {
                        g = parse_quote!((#g) && (#x));
                    }
                    let id = format_ident!("ms__");
                    a.pat = Pat::Guard(PatGuard {
                        attrs: vec![],
                        pat: Box::new(Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: id, subpat: None })),
                        if_token: Default::default(),
                        guard: Box::new(g),
                    });
                    self.log.push("string literal pattern => guard".into());
                }
            }
        }
        if let Expr::ForLoop(f) = e {
            if !self.dirs.path.contains_key("nochains") {
                while crate::chain::peel(f, &mut self.chain) {
                    self.log.push("iterator adapter of a for loop => in its body".into());
                }
            }
        }
        // for .. in x.iter().enumerate()
        if let Expr::ForLoop(f) = e {
            if fold_continue(&mut f.body.stmts) {
                self.log.push("`if c { continue; } rest` => `if c {} else { rest }`".into());
            }
            if let Expr::MethodCall(m) = &*f.expr {
                if m.method == "enumerate" && m.args.is_empty() {
                    let r = &m.receiver;
                    self.log.push("for over .enumerate() => m_enumerate".into());
                    f.expr = match &**r {
                        Expr::MethodCall(x) if matches!(x.method.to_string().as_str(), "rev" | "take") => parse_quote!(m_enumerate((#r).into_iter())),
                        _ => parse_quote!(m_enumerate(#r)),
                    };
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(mc) => {
                let name = mc.method.to_string();
                let arity = format!("{name}/{}", mc.args.len());
                if let Some(t) = self.dirs.method.get(&arity).or_else(|| self.dirs.method.get(&name)) {
                    let (fun, mode) = match t.split_once('(') {
                        Some((f, m)) => (f.trim().to_string(), m.trim_end_matches(')').trim().to_string()),
                        None => (t.clone(), String::new()),
                    };
                    if let Some(nn) = fun.strip_prefix('.') {
                        self.log.push(format!("method .{name}() => {t}"));
                        mc.method = format_ident!("{}", nn);
                        return;
                    }
                    if fun.is_empty() {
                        self.log.push(format!("method .{name}() dropped (identity)"));
                        let r = (*mc.receiver).clone();
                        *e = r;
                        return;
                    }
                    let p: Path = parse_str(&fun).unwrap();
                    let recv = &mc.receiver;
                    let args = mc.args.iter();
                    self.log.push(format!("method .{name}() => {t}"));
                    *e = match mode.as_str() {
                        "&" => parse_quote!(#p(&#recv, #(#args),*)),
                        "mut" => parse_quote!(#p(&mut #recv, #(#args),*)),
                        "id" => parse_quote!(#recv),
                        _ => parse_quote!(#p(#recv, #(#args),*)),
                    };
                    return;
                }
                // unknown inherent helper on self
                if !self.known.contains(&name) {
                    if let Expr::Path(p) = &*mc.receiver {
                        if p.path.is_ident("self") {
                            if let Some(t) = self.self_type() {
                                let args: Vec<Expr> = mc.args.iter().cloned().collect();
                                if let Some(x) = self.try_inline(&name, Some(&t), args) {
                                    *e = x;
                                }
                            }
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = path_str(&p.path);
                    if let Some(t) = self.dirs.call.get(&s) {
                        let np: Path = parse_str(t).unwrap();
                        self.log.push(format!("call {s} => {t}"));
                        c.func = parse_quote!(#np);
                        return;
                    }
                    let segs = &p.path.segments;
                    let name = segs.last().unwrap().ident.to_string();
                    let lower = name.chars().next().map(|c| c.is_lowercase()).unwrap_or(false);
                    if lower && !self.known.contains(&name) {
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        let x = if segs.len() >= 2 {
                            let t = segs[segs.len() - 2].ident.to_string();
                            let t = if t == "Self" { self.self_type().unwrap_or(t) } else { t };
                            if t.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) {
                                self.try_inline(&name, Some(&t), args)
                            } else {
                                self.try_inline(&name, None, args)
                            }
                        } else {
                            self.try_inline(&name, None, args)
                        };
                        if let Some(x) = x {
                            *e = x;
                        }
                    }
                }
            }
            Expr::Binary(b) => {
                let r = |x: &Expr| matches!(x, Expr::Reference(_));
                let is_eq = matches!(b.op, BinOp::Eq(_));
                let is_ne = matches!(b.op, BinOp::Ne(_));
                if (is_eq || is_ne) && (r(&b.left) || r(&b.right)) {
                    let (x, y) = (&b.left, &b.right);
                    self.log.push("== on references => m_eq".into());
                    *e = if is_eq { parse_quote!(m_eq(#x, #y)) } else { parse_quote!(!m_eq(#x, #y)) };
                    return;
                }
                let lit = |x: &Expr| matches!(x, Expr::Lit(l) if matches!(l.lit, Lit::Str(_)));
                let ms = |x: &Expr| matches!(x, Expr::Path(p) if p.path.is_ident("ms__"));
                if (is_eq || is_ne) && (lit(&b.left) || lit(&b.right)) && !ms(&b.left) {
                    let (x, y) = (&b.left, &b.right);
                    self.log.push("== with a string literal => m_eq".into());
                    *e = if is_eq { parse_quote!(m_eq(&#x, &#y)) } else { parse_quote!(!m_eq(&#x, &#y)) };
                    return;
                }
                if matches!(b.op, BinOp::AddAssign(_)) {
                    if let Some(t) = self.dirs.call.get("+=") {
                        let p: Path = parse_str(t).unwrap();
                        let (x, y) = (&b.left, &b.right);
                        self.log.push(format!("+= => {t}"));
                        *e = parse_quote!(#x = #p(#x, #y));
                        return;
                    }
                }
                if matches!(b.op, BinOp::Add(_)) {
                    if let Some(t) = self.dirs.call.get("+") {
                        let p: Path = parse_str(t).unwrap();
                        let (x, y) = (&b.left, &b.right);
                        self.log.push(format!("+ => {t}"));
                        *e = parse_quote!(#p(#x, #y));
                        return;
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Item(Item::Use(_)) = s {
            self.log.push("dropped a use inside a function".into());
            *s = parse_quote!({});
            return;
        }
        if let Stmt::Macro(m) = s {
            let n = path_str(&m.mac.path);
            if n == "println" || n == "debug_assert" {
                self.log.push(format!("dropped {n}!"));
                *s = parse_quote!({});
                return;
            }
            let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            self.visit_expr_mut(&mut e);
            let semi = m.semi_token;
            *s = Stmt::Expr(e, semi);
            return;
        }
        let was_loop = matches!(s, Stmt::Expr(Expr::ForLoop(_), None));
        visit_mut::visit_stmt_mut(self, s);
        if let (true, Stmt::Expr(Expr::MethodCall(_), semi @ None)) = (was_loop, s) {
            *semi = Some(Default::default());
        }
    }
}

/// is the value of this expression an Option, whatever the types of its parts are?
fn optionish(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => optionish(&p.expr),
        Expr::MethodCall(r) => matches!(
            (r.method.to_string().as_str(), r.args.len()),
            ("find", 1) | ("last", 0) | ("last_mut", 0) | ("pop", 0) | ("first", 0) | ("next", 0) | ("get", 1) | ("ok", 0) | ("err", 0) | ("strip_prefix", 1) | ("strip_suffix", 1)
        ),
        _ => false,
    }
}

/// is the value of this expression a Result, whatever the types of its parts are?
fn resultish(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => resultish(&p.expr),
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "map_err" | "parse" | "ok_or" | "ok_or_else" | "serialize" | "deserialize" | "single"),
        _ => false,
    }
}

/// `r.map_err(|e| b)`, `r.and_then(|v| b)` (on results), `o.ok_or_else(|| b)`  =>  the match they stand for;
/// `x.map(Some)` => `x.m_map_some()`
fn result_chain(e: &Expr) -> Option<Expr> {
    let Expr::MethodCall(m) = e else { return None };
    // o.map(|x| r).transpose()
    if m.method == "transpose" && m.args.is_empty() {
        let mut o = (*m.receiver).clone();
        if let Some(x) = result_chain(&o) {
            o = x;
        }
        let Expr::Match(k) = &mut o else { return None };
        let [s, n] = &mut k.arms[..] else { return None };
        match (&*s.body, &*n.body) {
            (Expr::Call(c), Expr::Path(z)) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")) && c.args.len() == 1 && z.path.is_ident("None") => {
                let b = &c.args[0];
                s.body = Box::new(parse_quote!(match #b { Ok(v__) => Ok(Some(v__)), Err(x__) => Err(x__) }));
                n.body = Box::new(parse_quote!(Ok(None)));
            }
            _ => return None,
        }
        return Some(o);
    }
    if m.args.len() != 1 {
        return None;
    }
    let name = m.method.to_string();
    let r = &m.receiver;
    let body = |n: usize| -> Option<(Option<Pat>, Expr)> {
        match &m.args[0] {
            Expr::Closure(c) if c.inputs.len() == n => {
                let mut es = Escapes::default();
                es.visit_expr(&c.body);
                if es.0 {
                    return None;
                }
                let p = c.inputs.first().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() });
                Some((p, (*c.body).clone()))
            }
            Expr::Path(p) if n == 1 => Some((Some(parse_quote!(e__)), parse_quote!(#p(e__)))),
            Expr::Path(p) if n == 0 => Some((None, parse_quote!(#p()))),
            _ => None,
        }
    };
    match name.as_str() {
        "map" if optionish(r) && !matches!(&m.args[0], Expr::Path(p) if p.path.is_ident("Some")) => {
            let (p, b) = body(1)?;
            Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None }))
        }
        "and_then" if optionish(r) => {
            let (p, b) = body(1)?;
            Some(parse_quote!(match #r { Some(#p) => #b, None => None }))
        }
        "map_err" => {
            let (p, b) = body(1)?;
            Some(parse_quote!(match #r { Ok(v__) => Ok(v__), Err(#p) => Err(#b) }))
        }
        "and_then" if resultish(r) => {
            let (p, b) = body(1)?;
            Some(parse_quote!(match #r { Ok(#p) => #b, Err(x__) => Err(x__) }))
        }
        "ok_or_else" => {
            let (_, b) = body(0)?;
            Some(parse_quote!(match #r { Some(v__) => Ok(v__), None => Err(#b) }))
        }
        "map" => match &m.args[0] {
            Expr::Path(p) if p.path.is_ident("Some") => Some(parse_quote!(#r.m_map_some())),
            _ if resultish(r) => {
                let (p, b) = body(1)?;
                Some(parse_quote!(match #r { Ok(#p) => Ok(#b), Err(x__) => Err(x__) }))
            }
            _ => None,
        },
        _ => None,
    }
}

struct MatchArm {
    /// rule, binder, variable length?
    items: Vec<(Option<Ident>, Pat, bool)>,
    body: Expr,
}
struct MatchNodes {
    input: Expr,
    arms: Vec<MatchArm>,
}
impl syn::parse::Parse for MatchNodes {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let input = i.parse()?;
        i.parse::<Token![;]>()?;
        let mut arms = vec![];
        while !i.is_empty() {
            let c;
            bracketed!(c in i);
            let mut items = vec![];
            while !c.is_empty() {
                let ahead = c.fork();
                ahead.parse::<TokenTree>()?;
                let (rule, pat) = if ahead.peek(token::Paren) {
                    let r: Ident = c.parse()?;
                    let p;
                    parenthesized!(p in c);
                    (Some(r), Pat::parse_single(&p)?)
                } else {
                    (None, Pat::parse_single(&c)?)
                };
                let many = c.parse::<Option<Token![..]>>()?.is_some();
                items.push((rule, pat, many));
                if !c.is_empty() {
                    c.parse::<Token![,]>()?;
                }
            }
            i.parse::<Token![=>]>()?;
            let body = i.parse()?;
            if !i.is_empty() {
                i.parse::<Token![,]>()?;
            }
            arms.push(MatchArm { items, body });
        }
        Ok(MatchNodes { input, arms })
    }
}

/// matches!(e, pat [if guard])  ->  match e { pat [if guard] => true, _ => false }
pub fn expand_matches(ts: &TokenStream) -> Option<Expr> {
    struct M {
        e: Expr,
        p: Pat,
        g: Option<Expr>,
    }
    impl syn::parse::Parse for M {
        fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
            let e = i.parse()?;
            i.parse::<Token![,]>()?;
            let p = Pat::parse_multi_with_leading_vert(i)?;
            let g = if i.peek(Token![if]) {
                i.parse::<Token![if]>()?;
                Some(i.parse()?)
            } else {
                None
            };
            let _ = i.parse::<Option<Token![,]>>()?;
            Ok(M { e, p, g })
        }
    }
    let m: M = parse2(ts.clone()).ok()?;
    let (e, p) = (m.e, m.p);
    Some(match m.g {
        Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
        None => parse_quote!(match #e { #p => true, _ => false }),
    })
}

fn str_lits(p: &Pat) -> Option<Vec<Lit>> {
    match p {
        Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => Some(vec![l.lit.clone()]),
        Pat::Paren(q) => str_lits(&q.pat),
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(str_lits(c)?);
            }
            Some(v)
        }
        _ => None,
    }
}

pub fn pat_idents(p: &Pat) -> Vec<String> {
    #[derive(Default)]
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            let n = p.ident.to_string();
            if n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
                self.0.push(n);
            }
            visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V::default();
    v.visit_pat(p);
    v.0
}

#[derive(Default)]
struct LetOrder {
    all: Vec<String>,
    muts: Vec<String>,
}
impl<'a> Visit<'a> for LetOrder {
    fn visit_local(&mut self, l: &'a Local) {
        let ids = pat_idents(&l.pat);
        #[derive(Default)]
        struct Mv(Vec<String>);
        impl<'b> Visit<'b> for Mv {
            fn visit_pat_ident(&mut self, p: &'b PatIdent) {
                if p.mutability.is_some() {
                    self.0.push(p.ident.to_string());
                }
            }
        }
        let mut mv = Mv::default();
        mv.visit_pat(&l.pat);
        self.muts.extend(mv.0);
        self.all.extend(ids);
        visit::visit_local(self, l);
    }
}

#[derive(Default)]
struct StrLits(BTreeSet<String>);
impl<'a> Visit<'a> for StrLits {
    fn visit_lit_str(&mut self, l: &'a LitStr) {
        self.0.insert(l.value());
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        fn go(ts: TokenStream, o: &mut BTreeSet<String>) {
            for t in ts {
                match t {
                    TokenTree::Literal(l) => {
                        if let Ok(s) = parse_str::<LitStr>(&l.to_string()) {
                            o.insert(s.value());
                        }
                    }
                    TokenTree::Group(g) => go(g.stream(), o),
                    _ => {}
                }
            }
        }
        if !m.path.is_ident("format") {
            go(m.tokens.clone(), &mut self.0);
        }
    }
}

/// names of the mutable locals a piece of code may modify
struct Mods<'b> {
    cand: &'b [String],
    hit: BTreeSet<String>,
}
impl<'b> Mods<'b> {
    fn root(&mut self, e: &Expr) {
        match e {
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let n = i.to_string();
                    if self.cand.contains(&n) {
                        self.hit.insert(n);
                    }
                }
            }
            Expr::Field(f) => self.root(&f.base),
            Expr::Index(f) => self.root(&f.expr),
            Expr::Paren(f) => self.root(&f.expr),
            Expr::Unary(f) => self.root(&f.expr),
            Expr::Reference(f) => self.root(&f.expr),
            Expr::MethodCall(m) => self.root(&m.receiver),
            _ => {}
        }
    }
}
impl<'a, 'b> Visit<'a> for Mods<'b> {
    fn visit_expr_assign(&mut self, e: &'a ExprAssign) {
        if let Expr::Tuple(t) = &*e.left {
            for x in &t.elems {
                self.root(x);
            }
        }
        self.root(&e.left);
        visit::visit_expr_assign(self, e);
    }
    fn visit_expr_binary(&mut self, e: &'a ExprBinary) {
        if matches!(
            e.op,
            BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::MulAssign(_)
        ) {
            self.root(&e.left);
        }
        visit::visit_expr_binary(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'a ExprMethodCall) {
        let n = e.method.to_string();
        let ro = [
            "len", "is_empty", "clone", "iter", "as_str", "get", "contains", "contains_key", "to_string", "last", "first", "starts_with",
            "ends_with", "chars", "is_some", "is_none", "as_ref", "into_iter", "as_deref", "to_owned",
        ];
        if !ro.contains(&n.as_str()) {
            self.root(&e.receiver);
        }
        visit::visit_expr_method_call(self, e);
    }
    fn visit_expr_reference(&mut self, e: &'a ExprReference) {
        if e.mutability.is_some() {
            self.root(&e.expr);
        }
        visit::visit_expr_reference(self, e);
    }
    fn visit_expr_call(&mut self, e: &'a ExprCall) {
        // a &mut parameter passed on by name
        for a in &e.args {
            if let Expr::Path(_) = a {
                self.root(a);
            }
        }
        visit::visit_expr_call(self, e);
    }
}

struct Loops<'b, F: Fn(&str) -> String> {
    k: usize,
    spec: &'b FnSpec,
    base: &'b F,
    raws: &'b mut Vec<String>,
    muts: &'b [String],
    warn: Vec<String>,
    params: &'b [String],
    cur_src: String,
    binds: Vec<String>,
    /// `let mut x = true`: locals that are set once more
    bools: Vec<(String, bool)>,
    /// those set by every iteration of the loop at hand
    flags: Vec<(String, bool)>,
}
/// the collection a loop runs over
fn src_of(e: &Expr) -> String {
    match e {
        Expr::MethodCall(m) if m.args.is_empty() && ["iter", "iter_mut", "into_iter", "m_into_iter"].contains(&m.method.to_string().as_str()) => src_of(&m.receiver),
        Expr::Call(c) if c.args.len() == 1 => src_of(&c.args[0]),
        Expr::MethodCall(m) if m.method == "skip" => src_of(&m.receiver),
        Expr::Reference(r) => src_of(&r.expr),
        Expr::Paren(r) => src_of(&r.expr),
        e => quote!(#e).to_string(),
    }
}
impl<'b, F: Fn(&str) -> String> Loops<'b, F> {
    fn keys(&self, n: usize, what: &str) -> Vec<String> {
        let k = format!("loop {n} {what}");
        let all = format!("loop * {what}");
        self.spec.keys.iter().filter(|x| x.0 == k || x.0 == all).map(|x| (self.base)(&x.1)).collect()
    }
    fn raw(&mut self, s: String) -> Literal {
        self.raws.push(s);
        Literal::usize_unsuffixed(self.raws.len() - 1)
    }
    /// a hint that starts with `?` is left out when one of its roles has nothing to name (no proof obligation is lost: hints
    /// only help, contracts cannot start with `?`)
    fn sub(&self, s: &str, n: usize, mods: &[String], xs: &[String]) -> String {
        match s.trim_start().strip_prefix('?') {
            Some(s) => {
                let s = self.sub_all(s, n, mods, xs);
                if ["$m", "$x", "$b"].iter().any(|r| s.contains(r)) { "true".to_string() } else { s }
            }
            None => self.sub_all(s, n, mods, xs),
        }
    }
    fn sub_all(&self, s: &str, n: usize, mods: &[String], xs: &[String]) -> String {
        let mut s = s.to_string();
        s = replace_word(&s, "$it", &format!("__it{n}"));
        s = replace_word(&s, "$src", &self.cur_src);
        for (i, m) in mods.iter().enumerate().rev() {
            s = s.replace(&format!("$m{i}"), m);
        }
        for (i, m) in xs.iter().enumerate().rev() {
            s = s.replace(&format!("$x{i}"), m);
        }
        for (i, m) in self.binds.iter().enumerate().rev() {
            s = s.replace(&format!("$b{i}"), m);
        }
        for j in (0..20).rev() {
            s = s.replace(&format!("$it{j}"), &format!("__it{j}"));
        }
        s
    }
    fn splice(&mut self, n: usize, body: &mut Block, mods: Vec<String>, xs: Vec<String>) {
        // (cur_src was set by the caller)
        let _ = self.params;
        let mut c = String::new();
        let inv = self.keys(n, "inv");
        let flags = std::mem::take(&mut self.flags);
        if !inv.is_empty() || !flags.is_empty() {
            c.push_str("    invariant\n");
            for (x, init) in flags {
                c.push_str(&format!("        {x} == (__it{n}.index@ {} 0),\n", if init { "==" } else { ">" }));
            }
            for i in inv {
                c.push_str(&format!("        {},\n", self.sub(i.trim().trim_end_matches(','), n, &mods, &xs)));
            }
        }
        for (kw, key) in [("ensures", "ens"), ("decreases", "dec")] {
            let v = self.keys(n, key);
            if !v.is_empty() {
                c.push_str(&format!("    {kw}\n"));
                for i in v {
                    c.push_str(&format!("        {},\n", self.sub(i.trim().trim_end_matches(','), n, &mods, &xs)));
                }
            }
        }
        let start: String = self.keys(n, "start").iter().map(|s| self.sub(s, n, &mods, &xs)).collect();
        let end: String = self.keys(n, "end").iter().map(|s| self.sub(s, n, &mods, &xs)).collect();
        if !end.is_empty() {
            let l = self.raw(end);
            if let Some(Stmt::Expr(_, semi @ None)) = body.stmts.last_mut() {
                *semi = Some(Default::default());
            }
            body.stmts.push(parse_quote!(__raw! { #l };));
        }
        if !start.is_empty() {
            let l = self.raw(start);
            body.stmts.insert(0, parse_quote!(__raw! { #l };));
        }
        if c.contains("$m") || c.contains("$x") || c.contains("$b") {
            self.warn.push(format!("{}: loop {n}: a role could not be bound", self.spec.path));
        }
        let l = self.raw(c);
        body.stmts.insert(0, parse_quote!(__spec! { #l };));
    }
    fn mods(&self, b: &Block) -> Vec<String> {
        let mut m = Mods { cand: self.muts, hit: Default::default() };
        m.visit_block(b);
        // drop those declared inside
        let mut lo = LetOrder::default();
        lo.visit_block(b);
        let mut out = vec![];
        for c in self.muts {
            if m.hit.contains(c) && !lo.all.contains(c) && !out.contains(c) {
                out.push(c.clone());
            }
        }
        out
    }
}
fn replace_word(s: &str, from: &str, to: &str) -> String {
    let mut o = String::new();
    let mut r = s;
    while let Some(p) = r.find(from) {
        let after = r[p + from.len()..].chars().next();
        o.push_str(&r[..p]);
        if after.map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false) {
            o.push_str(from);
        } else {
            o.push_str(to);
        }
        r = &r[p + from.len()..];
    }
    o.push_str(r);
    o
}
impl<'b, F: Fn(&str) -> String> VisitMut for Loops<'b, F> {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let n = self.binds.len();
        self.binds.extend(c.inputs.iter().flat_map(|p| pat_idents(p)));
        visit_mut::visit_expr_closure_mut(self, c);
        self.binds.truncate(n);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let n = self.binds.len();
        self.binds.extend(pat_idents(&a.pat));
        visit_mut::visit_arm_mut(self, a);
        self.binds.truncate(n);
    }
    fn visit_expr_if_mut(&mut self, e: &mut ExprIf) {
        self.visit_expr_mut(&mut e.cond);
        let n = self.binds.len();
        if let Expr::Let(l) = &*e.cond {
            self.binds.extend(pat_idents(&l.pat));
        }
        self.visit_block_mut(&mut e.then_branch);
        self.binds.truncate(n);
        if let Some((_, x)) = &mut e.else_branch {
            self.visit_expr_mut(x);
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let is_loop = matches!(&s, Stmt::Expr(Expr::ForLoop(_), _) | Stmt::Expr(Expr::While(_), _) | Stmt::Expr(Expr::Loop(_), _));
            let n = self.k;
            let (mods, xs) = match &s {
                Stmt::Expr(Expr::ForLoop(f), _) => (self.mods(&f.body), pat_idents(&f.pat)),
                Stmt::Expr(Expr::While(f), _) => (self.mods(&f.body), vec![]),
                Stmt::Expr(Expr::Loop(f), _) => (self.mods(&f.body), vec![]),
                _ => (vec![], vec![]),
            };
            self.visit_stmt_mut(&mut s);
            if is_loop {
                let before: String = self.keys(n, "before").iter().map(|t| self.sub(t, n, &mods, &xs)).collect();
                if !before.is_empty() {
                    let l = self.raw(before);
                    out.push(parse_quote!(__raw! { #l };));
                }
                let after: String = self.keys(n, "after").iter().map(|t| self.sub(t, n, &mods, &xs)).collect();
                out.push(s);
                if !after.is_empty() {
                    let l = self.raw(after);
                    out.push(parse_quote!(__raw! { #l };));
                }
            } else {
                out.push(s);
            }
        }
        b.stmts = out;
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        let n = self.k;
        self.k += 1;
        let mods = self.mods(&f.body);
        let xs = pat_idents(&f.pat);
        visit_mut::visit_expr_for_loop_mut(self, f);
        let it = format_ident!("__it{}", n);
        let e = &f.expr;
        self.cur_src = src_of(e);
        let mut jumps = Jumps::default();
        jumps.visit_block(&f.body);
        if !jumps.0 {
            for s in &f.body.stmts {
                if let Some((x, v)) = bool_set(s) {
                    if let Some(b) = self.bools.iter().find(|b| b.0 == x && b.1 != v) {
                        self.flags.push(b.clone());
                    }
                }
            }
        }
        let ne: Expr = parse_quote!(__named! { #it #e });
        f.expr = Box::new(ne);
        self.splice(n, &mut f.body, mods, xs);
    }
    fn visit_expr_while_mut(&mut self, f: &mut ExprWhile) {
        let n = self.k;
        self.k += 1;
        let mods = self.mods(&f.body);
        let xs = if let Expr::Let(l) = &*f.cond { pat_idents(&l.pat) } else { vec![] };
        visit_mut::visit_expr_while_mut(self, f);
        self.splice(n, &mut f.body, mods, xs);
    }
    fn visit_expr_loop_mut(&mut self, f: &mut ExprLoop) {
        let n = self.k;
        self.k += 1;
        let mods = self.mods(&f.body);
        visit_mut::visit_expr_loop_mut(self, f);
        self.splice(n, &mut f.body, mods, vec![]);
    }
}

#[derive(Default)]
struct Jumps(bool);
impl<'a> Visit<'a> for Jumps {
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
}
/// `x = true;`
fn bool_set(s: &Stmt) -> Option<(String, bool)> {
    let Stmt::Expr(Expr::Assign(a), _) = s else { return None };
    let (Expr::Path(p), Expr::Lit(ExprLit { lit: Lit::Bool(b), .. })) = (&*a.left, &*a.right) else { return None };
    Some((p.path.get_ident()?.to_string(), b.value))
}
/// locals declared once with `let mut x = true` (or false) and assigned once
fn bool_flags(b: &Block) -> Vec<(String, bool)> {
    #[derive(Default)]
    struct F {
        lets: Vec<(String, bool)>,
        bound: Vec<String>,
        set: Vec<String>,
    }
    impl<'a> Visit<'a> for F {
        fn visit_local(&mut self, l: &'a Local) {
            if let (Pat::Ident(i), Some(x)) = (&l.pat, &l.init) {
                if let Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) = &*x.expr {
                    self.lets.push((i.ident.to_string(), b.value));
                }
            }
            visit::visit_local(self, l);
        }
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.bound.push(p.ident.to_string());
        }
        fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
            if let Expr::Path(p) = &*a.left {
                self.set.extend(p.path.get_ident().map(|i| i.to_string()));
            }
            visit::visit_expr_assign(self, a);
        }
    }
    let mut f = F::default();
    f.visit_block(b);
    let once = |v: &[String], x: &String| v.iter().filter(|y| *y == x).count() == 1;
    let (bound, set) = (f.bound, f.set);
    f.lets.into_iter().filter(|(x, _)| once(&bound, x) && once(&set, x)).collect()
}

/// the type of a closure's first parameter, without spaces
fn first_param_type(c: &ExprClosure) -> String {
    match c.inputs.first() {
        Some(Pat::Type(t)) => {
            let ty = &t.ty;
            quote!(#ty).to_string().replace(' ', "")
        }
        _ => String::new(),
    }
}

/// closures in source order: the local each is bound to, and the type of its first parameter
#[derive(Default)]
struct ClosureNames {
    names: Vec<(String, String)>,
}
impl<'a> Visit<'a> for ClosureNames {
    fn visit_local(&mut self, l: &'a Local) {
        if let Some(i) = &l.init {
            if let Expr::Closure(c) = &*i.expr {
                self.names.push((pat_idents(&l.pat).first().cloned().unwrap_or_default(), first_param_type(c)));
                self.visit_expr(&c.body);
                return;
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        self.names.push((String::new(), first_param_type(c)));
        visit::visit_expr_closure(self, c);
    }
}

/// `f(.., &|x| ..)` as the last expression:  the closures get a name first
fn hoist_closures(block: &mut Block) {
    let mut lets: Vec<Stmt> = vec![];
    if let Some(Stmt::Expr(e, None)) = block.stmts.last_mut() {
        let args = match e {
            Expr::MethodCall(m) => &mut m.args,
            Expr::Call(c) => &mut c.args,
            _ => return,
        };
        for a in args.iter_mut() {
            if let Expr::Reference(r) = a {
                if let Expr::Closure(_) = &*r.expr {
                    let id = format_ident!("cl__{}", lets.len());
                    let c = &r.expr;
                    lets.push(parse_quote!(let #id = #c;));
                    *a = parse_quote!(&#id);
                }
            }
        }
    }
    let last = block.stmts.pop();
    block.stmts.extend(lets);
    block.stmts.extend(last);
}

struct Closures<'b, F: Fn(&str) -> String> {
    k: usize,
    spec: &'b FnSpec,
    base: &'b F,
    raws: &'b mut Vec<String>,
}
impl<'b, F: Fn(&str) -> String> VisitMut for Closures<'b, F> {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let n = self.k;
        self.k += 1;
        visit_mut::visit_expr_closure_mut(self, c);
        let key = format!("closure {n}");
        let tkey = format!("closure [{}]", first_param_type(c));
        let v: Vec<String> = self.spec.keys.iter().filter(|x| x.0 == key || x.0 == tkey).map(|x| (self.base)(&x.1)).collect();
        let pkey = format!("closure {n} params");
        if let Some(p) = self.spec.keys.iter().find(|x| x.0 == pkey) {
            // give the parameters the stated types (annotation only)
            let tys: Vec<Type> = p.1.split(';').map(|t| parse_str(t.trim()).unwrap()).collect();
            for (i, t) in c.inputs.iter_mut().zip(tys) {
                if !matches!(i, Pat::Type(_)) {
                    let p = i.clone();
                    *i = Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(t) });
                }
            }
        }
        let ids: Vec<String> = c.inputs.iter().flat_map(|p| pat_idents(p)).collect();
        // general patterns in parameter position become a `let` in the body
        let mut lets: Vec<Stmt> = vec![];
        let mut args: Vec<String> = vec![];
        for (j, i) in c.inputs.iter_mut().enumerate() {
            let inner = match i {
                Pat::Type(t) => &mut *t.pat,
                o => o,
            };
            if let Pat::Ident(p) = inner {
                args.push(p.ident.to_string());
                continue;
            }
            let a = format_ident!("a__{}_{}", n, j);
            args.push(a.to_string());
            if !matches!(inner, Pat::Wild(_)) {
                let p = inner.clone();
                lets.push(parse_quote!(let #p = #a;));
            }
            *inner = parse_quote!(#a);
        }
        if !lets.is_empty() {
            let b = (*c.body).clone();
            c.body = Box::new(parse_quote!({ #(#lets)* #b }));
        }
        if v.is_empty() {
            return;
        }
        let mut s = v.join("\n");
        for (i, m) in args.iter().enumerate().rev() {
            s = s.replace(&format!("$a{i}"), m);
        }
        for (i, m) in ids.iter().enumerate().rev() {
            s = s.replace(&format!("$c{i}"), m);
        }
        self.raws.push(s);
        let l = Literal::usize_unsuffixed(self.raws.len() - 1);
        let body = (*c.body).clone();
        let inner: Vec<Stmt> = match body {
            Expr::Block(b) => b.block.stmts,
            e => vec![Stmt::Expr(e, None)],
        };
        c.output = ReturnType::Default;
        c.body = Box::new(parse_quote!({ __spec! { #l }; #(#inner)* }));
    }
}

struct Arms<'b> {
    pat: String,
    raw: String,
    raws: &'b mut Vec<String>,
    n: usize,
}
impl<'b> VisitMut for Arms<'b> {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        let p = &a.pat;
        let s = quote!(#p).to_string().replace(' ', "");
        if s.contains(&self.pat) {
            self.n += 1;
            self.raws.push(self.raw.clone());
            let l = Literal::usize_unsuffixed(self.raws.len() - 1);
            let body = (*a.body).clone();
            let inner: Vec<Stmt> = match body {
                Expr::Block(b) if b.label.is_none() => b.block.stmts,
                e => vec![Stmt::Expr(e, None)],
            };
            a.body = Box::new(parse_quote!({ __raw! { #l }; #(#inner)* }));
            a.comma = Some(Default::default());
        }
    }
}
