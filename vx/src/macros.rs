//! Expands macro_rules! macros that are local to a function (single arm, no repetitions).
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Rule { params: Vec<String>, body: TokenStream }
pub struct Exp { rules: HashMap<String, Rule>, pub err: Option<String> }

pub fn expand(b: &mut Block) -> std::result::Result<(), String> {
    let mut e = Exp { rules: HashMap::new(), err: None };
    e.visit_block_mut(b);
    match e.err { Some(m) => Err(m), None => Ok(()) }
}
fn parse_rule(ts: TokenStream) -> Option<Rule> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    // ( matcher ) => { body } ;?
    let TokenTree::Group(m) = v.first()? else { return None };
    let TokenTree::Group(b) = v.get(3)? else { return None };
    if v.len() > 5 { return None }
    let ms: Vec<TokenTree> = m.stream().into_iter().collect();
    let mut params = vec![];
    let mut i = 0;
    while i < ms.len() {
        match &ms[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => { if let Some(TokenTree::Ident(n)) = ms.get(i + 1) { params.push(n.to_string()); i += 4 } else { return None } }
            TokenTree::Punct(p) if p.as_char() == ',' => i += 1,
            _ => return None
        }
    }
    Some(Rule { params, body: b.stream() })
}
fn subst(ts: TokenStream, m: &HashMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(n)) = v.get(i + 1) { if let Some(r) = m.get(&n.to_string()) { out.extend(r.clone()); i += 2; continue } }
                out.extend([v[i].clone()]); i += 1;
            }
            TokenTree::Group(g) => { out.extend([TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), m)))]); i += 1 }
            t => { out.extend([t.clone()]); i += 1 }
        }
    }
    out
}
fn args(ts: TokenStream) -> Vec<TokenStream> {
    let mut out = vec![]; let mut cur = TokenStream::new(); let mut any = false;
    for t in ts {
        if let TokenTree::Punct(p) = &t { if p.as_char() == ',' { out.push(std::mem::take(&mut cur)); any = false; continue } }
        any = true; cur.extend([t]);
    }
    if any { out.push(cur) }
    out
}
impl Exp {
    fn inst(&mut self, m: &Macro) -> Option<TokenStream> {
        let n = m.path.get_ident()?.to_string();
        let r = self.rules.get(&n)?.clone();
        let a = args(m.tokens.clone());
        if a.len() != r.params.len() { self.err = Some(format!("macro {} called with {} arguments", n, a.len())); return None }
        // `$x:expr` arguments are grouped so that precedence is kept
        let map = r.params.iter().cloned().zip(a.into_iter()).collect();
        Some(subst(r.body, &map))
    }
}
impl VisitMut for Exp {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut keep = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Item(Item::Macro(m)) = &s {
                if m.mac.path.is_ident("macro_rules") {
                    match (m.ident.as_ref(), parse_rule(m.mac.tokens.clone())) { (Some(i), Some(r)) => { self.rules.insert(i.to_string(), r); } _ => self.err = Some("unsupported macro_rules".into()) }
                    continue;
                }
            }
            keep.push(s);
        }
        for s in keep.iter_mut() {
            if let Stmt::Macro(m) = s {
                if let Some(t) = self.inst(&m.mac) {
                    let g = TokenTree::Group(Group::new(Delimiter::Brace, t));
                    match parse2::<Expr>(g.into()) { Ok(e) => *s = Stmt::Expr(e, m.semi_token), Err(e) => self.err = Some(format!("macro expansion: {}", e)) }
                }
            }
        }
        b.stmts = keep;
        visit_mut::visit_block_mut(self, b)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(t) = self.inst(&m.mac) {
                let p = parse2::<Expr>(t.clone()).or_else(|_| parse2::<Expr>(TokenTree::Group(Group::new(Delimiter::Brace, t)).into()));
                match p { Ok(x) => *e = x, Err(x) => self.err = Some(format!("macro expansion: {}", x)) }
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
}
