//! `if c { return x; } rest` as `if c { x } else { rest }`: the body of a helper or of a closure without its early
//! returns. The statements, their order and the value are the same; only bodies whose every `return` can be placed this
//! way are touched.
use syn::visit::{self, Visit};
use syn::*;

#[derive(Default)]
struct Has(bool);
impl<'a> Visit<'a> for Has {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn has_stmt(s: &Stmt) -> bool {
    let mut h = Has::default();
    h.visit_stmt(s);
    h.0
}
fn has_expr(e: &Expr) -> bool {
    let mut h = Has::default();
    h.visit_expr(e);
    h.0
}
/// has a `return` of its own (not inside a closure)
pub fn returns(b: &Block) -> bool {
    let mut h = Has::default();
    visit::visit_block(&mut h, b);
    h.0
}
/// ends in `return`
fn leaves(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(i), _)) => leaves(&i.then_branch) && matches!(&i.else_branch, Some((_, e)) if matches!(&**e, Expr::Block(b) if leaves(&b.block))),
        _ => false,
    }
}
fn tail_expr(e: Expr) -> Option<Expr> {
    Some(match e {
        Expr::Return(r) => tail_expr(r.expr.map(|e| *e).unwrap_or(parse_quote!(())))?,
        e if !has_expr(&e) => e,
        Expr::Block(mut b) if b.label.is_none() => {
            b.block = value(b.block)?;
            Expr::Block(b)
        }
        Expr::Paren(p) => tail_expr(*p.expr)?,
        Expr::If(mut i) => {
            if has_expr(&i.cond) {
                return None;
            }
            i.then_branch = value(i.then_branch)?;
            let (t, e) = i.else_branch?;
            i.else_branch = Some((t, Box::new(tail_expr(*e)?)));
            Expr::If(i)
        }
        Expr::Match(mut m) => {
            if has_expr(&m.expr) {
                return None;
            }
            for a in &mut m.arms {
                let mut h = Has::default();
                h.visit_pat(&a.pat);
                if h.0 {
                    return None;
                }
                a.body = Box::new(tail_expr((*a.body).clone())?);
            }
            Expr::Match(m)
        }
        _ => return None,
    })
}
/// the same block without `return`
pub fn value(b: Block) -> Option<Block> {
    let mut out = vec![];
    let mut it = b.stmts.into_iter();
    while let Some(s) = it.next() {
        if !has_stmt(&s) {
            out.push(s);
            continue;
        }
        let rest: Vec<Stmt> = it.collect();
        let block = |stmts| Block { brace_token: Default::default(), stmts };
        match s {
            Stmt::Expr(e, semi) if rest.is_empty() => {
                // `return x;` at the very end, or the value itself
                let whole = match &e {
                    Expr::Return(_) => true,
                    Expr::If(i) => semi.is_none() || (leaves(&i.then_branch) && i.else_branch.is_some()),
                    _ => semi.is_none(),
                };
                if !whole {
                    return None;
                }
                out.push(Stmt::Expr(tail_expr(e)?, None));
            }
            Stmt::Expr(Expr::If(mut i), _) => {
                if has_expr(&i.cond) || !leaves(&i.then_branch) {
                    return None;
                }
                let mut rest = rest;
                if let Some((_, e)) = i.else_branch.take() {
                    let e = *e;
                    rest.insert(0, Stmt::Expr(e, None));
                }
                i.then_branch = value(i.then_branch)?;
                let r = value(block(rest))?;
                i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: r }))));
                out.push(Stmt::Expr(Expr::If(i), None));
            }
            // let P = e else { return x };
            Stmt::Local(mut l) => {
                let init = l.init.take()?;
                let (_, d) = init.diverge?;
                if has_expr(&init.expr) {
                    return None;
                }
                let d = match *d {
                    Expr::Block(b) if leaves(&b.block) => value(b.block)?,
                    _ => return None,
                };
                let r = value(block(rest))?;
                let (p, e) = (&l.pat, &init.expr);
                out.push(Stmt::Expr(parse_quote!(match #e { #p => #r, _ => #d }), None));
            }
            _ => return None,
        }
        return Some(block(out));
    }
    Some(Block { brace_token: Default::default(), stmts: out })
}
