//! Lowering turns a `?` inside a closure, and an Err met by collect::<Result<..>>(), into a return of the whole function.
//! That is what the source does only where the closure's result is itself handed on by `?`, `return` or as the value of the function.
use syn::*;

/// methods that hand an Err of their receiver (or of their closure) on
const THROUGH: &[&str] = &["map", "and_then", "map_err", "collect", "transpose", "filter", "filter_map", "enumerate", "take_while", "cloned", "iter", "into_iter", "iter_mut", "by_ref", "try_fold", "flatten", "map_or", "map_or_else", "then", "lines", "chars", "peekable", "chain"];

pub fn check(b: &Block, flagged: bool) -> std::result::Result<(), String> { let mut g = G { bad: None, flagged }; g.block(b, true); match g.bad { Some(m) => Err(m), None => Ok(()) } }
struct G { bad: Option<String>, flagged: bool }
fn leaves(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V { fn visit_expr(&mut self, e: &'a Expr) { match e { Expr::Try(_) => self.0 = true, Expr::Return(r) => { if !matches!(&r.expr, Some(x) if matches!(&**x, Expr::Path(p) if p.path.is_ident("None"))) { self.0 = true } } _ => {} } visit::visit_expr(self, e) } }
    let mut v = V(false); visit::Visit::visit_expr(&mut v, e); v.0
}
impl G {
    fn no(&mut self, m: &str) { if self.bad.is_none() { self.bad = Some(m.into()) } }
    fn block(&mut self, b: &Block, p: bool) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            match s {
                Stmt::Local(l) => if let Some(x) = &l.init { self.ex(&x.expr, false); if let Some((_, d)) = &x.diverge { self.ex(d, false) } },
                Stmt::Expr(e, semi) => self.ex(e, p && i + 1 == n && semi.is_none()),
                _ => {}
            }
        }
    }
    fn arg(&mut self, a: &Expr, p: bool) {
        if let Expr::Closure(c) = a {
            if leaves(&c.body) && !p { self.no("an Err that leaves a closure is not handed on here") }
            self.ex(&c.body, p)
        } else { self.ex(a, false) }
    }
    fn ex(&mut self, e: &Expr, p: bool) {
        match e {
            Expr::Try(t) => self.ex(&t.expr, true),
            Expr::Return(r) => if let Some(x) = &r.expr { self.ex(x, true) },
            Expr::Paren(x) => self.ex(&x.expr, p),
            Expr::Group(x) => self.ex(&x.expr, p),
            Expr::Block(b) => self.block(&b.block, p),
            Expr::If(i) => { self.ex(&i.cond, false); self.block(&i.then_branch, p); if let Some((_, x)) = &i.else_branch { self.ex(x, p) } }
            Expr::Match(m) => { self.ex(&m.expr, false); for a in &m.arms { if let Some((_, g)) = &a.guard { self.ex(g, false) } self.ex(&a.body, p) } }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "collect" && !p {
                    let res = match &m.turbofish { Some(t) => t.args.first().map(|a| quote::ToTokens::to_token_stream(a).to_string().starts_with("Result")).unwrap_or(false), None => self.flagged };
                    if res { self.no("a collected Result is not handed on here") }
                }
                self.ex(&m.receiver, p && THROUGH.contains(&n.as_str()));
                for a in &m.args { self.arg(a, p) }
            }
            Expr::Call(c) => { self.ex(&c.func, false); for a in &c.args { self.arg(a, false) } }
            Expr::Closure(c) => { if leaves(&c.body) { self.no("a closure that leaves with Err") } self.ex(&c.body, false) }
            _ => {
                struct V<'g>(&'g mut G);
                impl<'g, 'a> visit::Visit<'a> for V<'g> { fn visit_expr(&mut self, e: &'a Expr) { self.0.ex(e, false) } fn visit_block(&mut self, b: &'a Block) { self.0.block(b, false) } }
                let mut v = V(self);
                visit::visit_expr(&mut v, e);
            }
        }
    }
}
