//! Puts the body of a helper that has no contract in place of its call, so that extracting a helper from a function under contract
//! leaves the function within reach. Only where the result is plainly the same program: the helper is in the same module, is not
//! generic or recursive, takes its parameters by name, and leaves early (`?`, `return`) only where the caller would leave as well.
use crate::load::{type_name, Crate, FnDef, Res};
use quote::ToTokens;
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn expand(b: &mut Block, krate: &Crate, f: &FnDef, known: &dyn Fn(&str) -> bool) -> Vec<String> {
    let mut i = I { krate, f, known, stack: vec![f.key.clone()], done: vec![] };
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { i.tail(e) }
    i.visit_block_mut(b);
    i.done
}
struct I<'a> { krate: &'a Crate, f: &'a FnDef, known: &'a dyn Fn(&str) -> bool, stack: Vec<String>, done: Vec<String> }

#[derive(PartialEq, Clone, Copy)]
enum Leave { No, Try, Tail }

const COMMON: &[&str] = &["starts_with", "ends_with", "strip_prefix", "strip_suffix", "is_empty", "to_string", "to_owned", "and_then", "map_err", "filter_map", "push_str", "find_map", "or_else", "ok_or", "ok_or_else", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "or_insert_with", "or_insert", "contains_key", "iter_mut", "into_iter", "get_mut", "as_str", "as_ref", "as_mut", "is_some", "is_none", "is_ok", "is_err", "take_while", "by_ref", "try_into", "try_from", "split_at", "trim_end", "trim_start", "get_or_insert_with", "to_vec", "file_name", "from_str"];

struct Bound(BTreeSet<String>);
impl<'a> Visit<'a> for Bound { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.insert(p.ident.to_string()); visit::visit_pat_ident(self, p) } }
fn bound(b: &Block) -> BTreeSet<String> { let mut v = Bound(Default::default()); v.visit_block(b); v.0 }

/// how a body leaves early, not counting closures
#[derive(Default)]
struct Leaves { early: bool, value: bool }
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_expr_try(&mut self, t: &'a ExprTry) { self.early = true; visit::visit_expr_try(self, t) }
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.early = true;
        let err = match r.expr.as_deref() { Some(Expr::Call(c)) => c.func.to_token_stream().to_string() == "Err", Some(Expr::Path(p)) => p.path.is_ident("None"), _ => false };
        if !err { self.value = true }
        visit::visit_expr_return(self, r)
    }
}
fn place(e: &Expr) -> Option<String> {
    match e { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), Expr::Field(f) => place(&f.base), Expr::Paren(p) => place(&p.expr), _ => None }
}
fn named(e: &Expr, n: &str) -> bool { matches!(e, Expr::Path(p) if p.qself.is_none() && p.path.is_ident(n)) }

/// the name stands for a place: `n.a` is `place.a`, `*n` is `place`, `n` is `&mut place` (or the place, if that is a reference itself)
struct Sub<'a> { n: &'a str, place: &'a Expr, bare: Expr, isref: bool, bad: bool }
impl<'a> VisitMut for Sub<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let p = self.place.clone();
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && named(&u.expr, self.n) => { if self.isref { *u.expr = p } else { *e = p } return }
            Expr::Field(f) if named(&f.base, self.n) => { *f.base = p; return }
            Expr::MethodCall(m) if named(&m.receiver, self.n) => { *m.receiver = p; for a in m.args.iter_mut() { self.visit_expr_mut(a) } return }
            Expr::Index(i) if named(&i.expr, self.n) => { *i.expr = p; self.visit_expr_mut(&mut i.index); return }
            Expr::Struct(s) => for f in s.fields.iter_mut() { if f.colon_token.is_none() && named(&f.expr, self.n) { f.colon_token = Some(Default::default()) } },
            x if named(x, self.n) => { *x = self.bare.clone(); return }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) { if mentions(m.tokens.clone(), self.n) { self.bad = true } }
}
fn mentions(t: proc_macro2::TokenStream, n: &str) -> bool {
    use proc_macro2::TokenTree::*;
    t.into_iter().any(|x| match x { Group(g) => mentions(g.stream(), n), Ident(i) => i == n, Literal(l) => l.to_string().contains(&format!("{{{}", n)), _ => false })
}
fn own_type(t: proc_macro2::TokenStream, ty: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, TokenTree};
    t.into_iter().flat_map(|x| match x {
        TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), own_type(g.stream(), ty)); n.set_span(g.span()); vec![TokenTree::Group(n)] }
        TokenTree::Ident(i) if i == "Self" => ty.clone().into_iter().collect(),
        x => vec![x]
    }).collect()
}

impl<'a> I<'a> {
    fn method(&self, t: &Type, n: &str) -> String { let mut k = self.f.module.clone(); k.push(type_name(t)); k.push(n.into()); k.join("::") }
    /// the helper that is called, its arguments, the receiver first
    fn callee(&self, e: &Expr) -> Option<(String, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                if p.qself.is_some() { return None }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let args = c.args.iter().cloned().collect();
                if segs.len() == 1 { if let Some(k) = self.f.nested.get(&segs[0]) { return Some((k.clone(), args)) } }
                if segs.len() == 2 && segs[0] == "Self" { return Some((self.method(self.f.self_ty.as_ref()?, &segs[1]), args)) }
                match self.krate.resolve(&self.f.module, &segs)? { Res::Fn(k) => Some((k, args)), Res::Assoc(t, r) if r.len() == 1 => Some((format!("{}::{}", t, r[0]), args)), _ => None }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let mut args = vec![(*m.receiver).clone()]; args.extend(m.args.iter().cloned());
                if named(&m.receiver, "self") && self.f.self_ty.is_some() { let k = self.method(self.f.self_ty.as_ref()?, &n); if self.krate.fns.contains_key(&k) { return Some((k, args)) } }
                if !n.contains('_') || COMMON.contains(&n.as_str()) { return None }
                let end = format!("::{}", n);
                let mut it = self.krate.fns.keys().filter(|k| k.ends_with(&end));
                let k = it.next()?.clone();
                if it.next().is_some() { return None }
                Some((k, args))
            }
            _ => None
        }
    }
    fn attempt(&mut self, e: &Expr, leave: Leave) -> Option<Expr> {
        let (k, args) = self.callee(e)?;
        if (self.known)(&k) || self.stack.contains(&k) || self.stack.len() > 6 { return None }
        let h = self.krate.fns.get(&k)?;
        if h.trait_name.is_some() || h.module != self.f.module || !h.impl_generics.params.is_empty() || h.sig.asyncness.is_some() || h.sig.unsafety.is_some() { return None }
        if h.sig.generics.params.iter().any(|g| !matches!(g, GenericParam::Lifetime(_))) { return None }
        if h.sig.inputs.len() != args.len() { return None }
        let mut body = h.block.clone();
        crate::macros::expand(&mut body).ok()?;
        let mut l = Leaves::default(); l.visit_block(&body);
        match leave { Leave::No => if l.early { return None }, Leave::Try => if l.value { return None }, Leave::Tail => {} }
        if body.stmts.iter().any(|s| matches!(s, Stmt::Item(_))) { return None }
        // its own type
        if let Some(t) = &h.self_ty {
            let same = self.f.self_ty.as_ref().map(|x| x.to_token_stream().to_string()) == Some(t.to_token_stream().to_string());
            if !same { if !matches!(t, Type::Path(_)) { return None } body = parse2(own_type(body.to_token_stream(), &t.to_token_stream())).ok()?; }
        }
        let locals = bound(&body);
        let mut lets: Vec<(Pat, Type, Expr)> = vec![];
        let mut subs: Vec<(String, Expr, Expr, bool)> = vec![];
        for (p, a) in h.sig.inputs.iter().zip(&args) {
            match p {
                FnArg::Receiver(r) => {
                    if named(a, "self") {
                        // the same receiver: nothing to do, unless it is held differently
                        let mine = self.f.sig.inputs.first().and_then(|x| if let FnArg::Receiver(r) = x { Some((r.reference.is_some(), r.mutability.is_some())) } else { None })?;
                        if mine.0 != r.reference.is_some() && body.to_token_stream().to_string().contains("* self") { return None }
                        if locals.contains("self") { return None }
                        continue
                    }
                    place(a)?;
                    let bare: Expr = match (&r.reference, &r.mutability) { (Some(_), Some(_)) => parse_quote!((&mut #a)), (Some(_), None) => parse_quote!((&#a)), _ => a.clone() };
                    subs.push(("self".into(), a.clone(), bare, false));
                }
                FnArg::Typed(t) => {
                    let Pat::Ident(i) = &*t.pat else { return None };
                    if i.by_ref.is_some() || i.subpat.is_some() { return None }
                    let n = i.ident.to_string();
                    let held = match &*t.ty { Type::Reference(r) => r.mutability.is_some(), _ => false };
                    if held || crate::lower::is_iter_type(&t.ty) {
                        if locals.contains(&n) || i.mutability.is_some() { return None }
                        match a {
                            Expr::Reference(r) if r.mutability.is_some() => { place(&r.expr)?; subs.push((n, (*r.expr).clone(), parse_quote!((&mut #a)), false)); let x = &r.expr; subs.last_mut().unwrap().2 = parse_quote!((&mut #x)); }
                            Expr::Path(_) => { place(a)?; subs.push((n, a.clone(), a.clone(), true)) }
                            _ => return None
                        }
                    } else {
                        let mut ty = (*t.ty).clone();
                        if matches!(&ty, Type::ImplTrait(_)) { return None }
                        if let (Type::Reference(r), true) = (&mut ty, true) { r.lifetime = None }
                        if let Some(s) = &h.self_ty { ty = parse2(own_type(ty.to_token_stream(), &s.to_token_stream())).ok()? }
                        lets.push(((*t.pat).clone(), ty, a.clone()))
                    }
                }
            }
        }
        // no name may be caught
        let names: Vec<String> = lets.iter().map(|(p, _, _)| if let Pat::Ident(i) = p { i.ident.to_string() } else { String::new() }).collect();
        for (_, p, _, _) in &subs { let r = place(p)?; if locals.contains(&r) || names.contains(&r) { return None } }
        for (i, (_, _, a)) in lets.iter().enumerate() { for n in &names[..i] { if mentions(a.to_token_stream(), n) { return None } } }
        for (n, p, bare, isref) in &subs { let mut s = Sub { n, place: p, bare: bare.clone(), isref: *isref, bad: false }; s.visit_block_mut(&mut body); if s.bad { return None } }
        let mut stmts: Vec<Stmt> = vec![];
        for (p, t, a) in lets { if named(&a, &p.to_token_stream().to_string()) { continue } stmts.push(parse_quote!(let #p: #t = #a;)); }
        stmts.append(&mut body.stmts);
        body.stmts = stmts;
        self.stack.push(k.clone());
        if leave == Leave::Tail { if let Some(Stmt::Expr(x, None)) = body.stmts.last_mut() { self.tail(x) } }
        self.visit_block_mut(&mut body);
        self.stack.pop();
        self.done.push(k);
        if body.stmts.len() == 1 { if let Some(Stmt::Expr(x, None)) = body.stmts.first() { return Some(parse_quote!((#x))) } }
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: body }))
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) if b.label.is_none() => if let Some(Stmt::Expr(x, None)) = b.block.stmts.last_mut() { self.tail(x) },
            Expr::If(i) => { if let Some(Stmt::Expr(x, None)) = i.then_branch.stmts.last_mut() { self.tail(x) } if let Some((_, x)) = &mut i.else_branch { self.tail(x) } }
            Expr::Match(m) => for a in m.arms.iter_mut() { self.tail(&mut a.body) },
            Expr::Call(_) | Expr::MethodCall(_) => {
                let Some((k, _)) = self.callee(e) else { return };
                let head = |s: &Signature| match &s.output { ReturnType::Default => "()".to_string(), ReturnType::Type(_, t) => match &**t { Type::Path(p) if matches!(p.path.segments.last().unwrap().ident.to_string().as_str(), "Result" | "Option") => p.path.segments.last().unwrap().ident.to_string(), t => t.to_token_stream().to_string() } };
                if self.krate.fns.get(&k).map(|h| head(&h.sig)) != Some(head(&self.f.sig)) || self.stack.len() > 1 { return }
                if let Some(x) = self.attempt(e, Leave::Tail) { *e = x }
            }
            _ => {}
        }
    }
}
impl<'a> VisitMut for I<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Try(t) => if let Some(x) = self.attempt(&t.expr, Leave::Try) { *t.expr = x },
            Expr::Call(_) | Expr::MethodCall(_) => if let Some(x) = self.attempt(e, Leave::No) { *e = x },
            _ => {}
        }
    }
}
