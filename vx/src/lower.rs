//! Lowers a function body of the real source into the subset the verifier reads.
use crate::contracts::Contract;
use crate::load::*;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeSet, HashMap};
use syn::*;

pub struct Lower<'a> {
    pub krate: &'a Crate,
    pub f: FnDef,
    pub c: Contract,
    pub types: BTreeSet<String>,
    pub fns: BTreeSet<String>,
    pub strs: BTreeSet<String>,
    pub keys: BTreeSet<String>,
    pub ghosts: Vec<String>,
    pub nloops: usize,
    /// what the loops are, in order
    pub shape: Vec<String>,
    pub env: Vec<HashMap<String, Type>>,
    pub errs: Vec<String>,
    /// copies of functions for the closure they are handed
    pub specials: Vec<FnDef>,
    pub generics: Vec<String>,
    pub dropped: BTreeSet<String>,
    pub calls: BTreeSet<String>,
    /// type parameters that are a serde Serializer ("ser") or Deserializer ("de")
    pub serde: HashMap<String, &'static str>,
    /// parameters that are iterators taken by value: they are handed over as `&mut`
    pub iters: BTreeSet<String>,
}
fn ident(s: &str) -> Ident { if let Some(r) = s.strip_prefix("r#") { Ident::new_raw(r, proc_macro2::Span::call_site()) } else { Ident::new(s, proc_macro2::Span::call_site()) } }
pub fn abs_path(k: &str) -> Path {
    let mut segs: syn::punctuated::Punctuated<PathSegment, Token![::]> = Default::default();
    segs.push(ident("crate").into());
    for s in k.split("::") { segs.push(ident(s).into()) }
    Path { leading_colon: None, segments: segs }
}
pub fn vp(n: &str) -> Expr { let i = ident(n); parse_quote!(crate::vp::#i) }
const ITER: &[&str] = &["iter", "into_iter", "iter_mut", "chars", "lines", "split", "bytes", "values", "keys", "into_values", "enumerate", "skip", "take_while", "filter_map", "by_ref", "rev", "peekable", "chain", "drain"];
fn segs(p: &Path) -> Vec<String> { p.segments.iter().map(|s| s.ident.to_string()).collect() }
/// the emitted name of a hoisted (nested) function
pub fn hoisted_name(f: &FnDef) -> String {
    let m = key(&f.module);
    let k = if m.is_empty() { f.key.clone() } else { f.key[m.len() + 2..].to_string() };
    k.replace("::", "__").replace('@', "_")
}

impl<'a> Lower<'a> {
    pub fn new(krate: &'a Crate, f: FnDef, c: Contract) -> Self {
        Lower { krate, f, c, types: Default::default(), fns: Default::default(), strs: Default::default(), keys: Default::default(), ghosts: vec![], nloops: 0, shape: vec![], env: vec![HashMap::new()], errs: vec![], specials: vec![], generics: vec![], dropped: Default::default(), calls: Default::default(), serde: Default::default(), iters: Default::default() }
    }
    pub fn bad(&mut self, m: impl Into<String>) { let m = m.into(); if self.errs.len() < 20 { self.errs.push(format!("{}: {}", self.f.key, m)) } }
    fn ghost(&mut self, s: String) -> Stmt { let n = self.ghosts.len(); self.ghosts.push(s); let l = LitInt::new(&n.to_string(), proc_macro2::Span::call_site()); parse_quote!(__vp_ghost!(#l);) }
    fn hint(&mut self, k: &str) -> Option<Stmt> { let h = self.c.hints.get(k).cloned()?; Some(self.ghost(h)) }

    // ------------------------------------------------------------ types
    pub fn ty(&mut self, t: &Type) -> Type {
        match t {
            Type::Path(p) if p.qself.is_none() => {
                let mut path = p.path.clone();
                let s = segs(&path);
                if let Some(k) = self.serde.get(&s[0]) {
                    if *k == "err" { return parse_quote!(crate::vp::VpErr) }
                    if s.len() == 1 { return if *k == "ser" { parse_quote!(crate::vp::VpSer) } else { parse_quote!(crate::vp::VpDe) } }
                    return if s[1] == "Ok" { parse_quote!(crate::vp::VpJ) } else { parse_quote!(crate::vp::VpErr) };
                }
                if s[0] == "Self" && s.len() == 2 {
                    if let Some(a) = self.f.assoc.get(&s[1]).cloned() { return self.ty(&a) }
                    return parse_quote!(crate::vp::VpErr);
                }
                let last = s.last().unwrap().clone();
                if last == "Result" {
                    if let PathArguments::AngleBracketed(a) = &path.segments.last().unwrap().arguments {
                        let first = a.args.iter().next().cloned();
                        if let Some(GenericArgument::Type(t0)) = first { let t0 = self.ty(&t0); return parse_quote!(Result<#t0, crate::vp::VpErr>) }
                    }
                    if s.len() > 1 { self.bad("result alias"); }
                }
                for seg in path.segments.iter_mut() { self.args(&mut seg.arguments) }
                let a = path.segments.last().unwrap().arguments.clone();
                if s.len() == 1 && self.generics.contains(&s[0]) { return Type::Path(TypePath { qself: None, path }) }
                if s.len() == 3 && s[0] == "crate" && s[1] == "vp" { return Type::Path(TypePath { qself: None, path }) }
                match self.krate.resolve(&self.f.module, &s) {
                    Some(Res::Type(k)) => {
                        if let Some(Item::Type(al)) = self.krate.type_item(&k) { let t = (*al.ty).clone(); let save = self.f.module.clone(); self.f.module = self.krate.type_module(&k); let r = self.ty(&t); self.f.module = save; return r }
                        self.types.insert(k.clone());
                        let mut p = abs_path(&k); p.segments.last_mut().unwrap().arguments = a;
                        Type::Path(TypePath { qself: None, path: p })
                    }
                    Some(Res::External(x)) => self.ext_type(&x, a),
                    _ => match s[0].as_str() {
                        "String" | "Vec" | "Option" | "Box" | "bool" | "char" | "str" | "Self" | "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" | "f32" | "f64" if s.len() == 1 => Type::Path(TypePath { qself: None, path }),
                        _ => { self.bad(format!("type {}", s.join("::"))); t.clone() }
                    }
                }
            }
            Type::Path(p) => {
                // <X as Iterator>::Item and the like
                let txt = p.to_token_stream().to_string();
                if txt.contains("as Iterator > :: Item") { let q = &p.qself.as_ref().unwrap().ty; let q = self.ty(q); return parse_quote!(<#q as crate::vp::VpIterator>::Item) }
                self.bad(format!("type {}", txt)); t.clone()
            }
            Type::Reference(r) => { let mut r = r.clone(); *r.elem = self.ty(&r.elem); Type::Reference(r) }
            Type::Tuple(x) => { let mut x = x.clone(); for e in x.elems.iter_mut() { *e = self.ty(e) } Type::Tuple(x) }
            Type::Slice(x) => { let mut x = x.clone(); *x.elem = self.ty(&x.elem); Type::Slice(x) }
            Type::Array(x) => { let mut x = x.clone(); *x.elem = self.ty(&x.elem); Type::Array(x) }
            Type::ImplTrait(x) => {
                let mut x = x.clone();
                for b in x.bounds.iter_mut() { self.bound(b) }
                Type::ImplTrait(x)
            }
            Type::Infer(_) => t.clone(),
            Type::Paren(p) => self.ty(&p.elem),
            _ => { self.bad(format!("type {}", t.to_token_stream())); t.clone() }
        }
    }
    pub fn bound(&mut self, b: &mut TypeParamBound) {
        if let TypeParamBound::Trait(t) = b {
            let l = t.path.segments.last_mut().unwrap();
            if l.ident == "Iterator" {
                l.ident = ident("VpIterator");
                if let PathArguments::AngleBracketed(a) = &mut l.arguments { for g in a.args.iter_mut() { if let GenericArgument::AssocType(x) = g { x.ty = self.ty(&x.ty) } } }
                let seg = l.clone();
                t.path = parse_quote!(crate::vp::VpIterator);
                *t.path.segments.last_mut().unwrap() = seg;
            } else if l.ident == "ToString" { t.path = parse_quote!(crate::vp::VpDisp) }
            else { self.bad(format!("bound {}", t.to_token_stream())) }
        }
    }
    fn args(&mut self, a: &mut PathArguments) {
        if let PathArguments::AngleBracketed(a) = a { for g in a.args.iter_mut() { if let GenericArgument::Type(t) = g { *t = self.ty(t) } } }
    }
    fn ext_type(&mut self, x: &[String], a: PathArguments) -> Type {
        let n = x.last().unwrap().as_str();
        let to = match n { "LinkedHashMap" | "HashMap" | "PathBuf" | "Path" | "Cbc" | "Aes128" | "Pkcs7" => n, _ => { if n.ends_with("Error") { return parse_quote!(crate::vp::VpErr) } self.bad(format!("external type {}", x.join("::"))); n } };
        let i = ident(to);
        let mut p: Path = parse_quote!(crate::vp::#i);
        p.segments.last_mut().unwrap().arguments = a;
        Type::Path(TypePath { qself: None, path: p })
    }

    // ------------------------------------------------------------ light type inference (source types)
    fn strip(t: &Type) -> Type { match t { Type::Reference(r) => Self::strip(&r.elem), Type::Paren(p) => Self::strip(&p.elem), t => t.clone() } }
    pub fn var(&self, n: &str) -> Option<Type> { self.env.iter().rev().find_map(|e| e.get(n).cloned()) }
    fn bind(&mut self, n: &str, t: Type) { self.env.last_mut().unwrap().insert(n.to_string(), t); }
    /// the type of an already lowered expression (absolute paths), references stripped
    pub fn tyof(&mut self, e: &Expr) -> Option<Type> {
        match e {
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                if n == "self" { let t = self.f.self_ty.clone()?; return Some(self.ty(&t)) }
                self.var(&n).map(|t| Self::strip(&t))
            }
            Expr::Paren(p) => self.tyof(&p.expr),
            Expr::Cast(c) => Some((*c.ty).clone()),
            Expr::Reference(r) => self.tyof(&r.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_) | UnOp::Neg(_)) => self.tyof(&u.expr),
            Expr::Lit(l) => match &l.lit { Lit::Str(_) => Some(parse_quote!(str)), Lit::Bool(_) => Some(parse_quote!(bool)), Lit::Char(_) => Some(parse_quote!(char)), Lit::Int(i) if !i.suffix().is_empty() => parse_str(i.suffix()).ok(), _ => None },
            Expr::Field(f) => {
                let t = self.tyof(&f.base)?;
                let k = self.tkey(&t)?;
                let it = self.krate.type_item(&k)?.clone();
                let Item::Struct(s) = it else { return None };
                let m = match &f.member { Member::Named(n) => s.fields.iter().find(|x| x.ident.as_ref() == Some(n)).cloned(), Member::Unnamed(i) => s.fields.iter().nth(i.index as usize).cloned() }?;
                let save = self.f.module.clone();
                self.f.module = self.krate.type_module(&k);
                let n = self.errs.len();
                let r = self.ty(&m.ty);
                self.errs.truncate(n);
                self.f.module = save;
                Some(Self::strip(&r))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "timestamp" if self.tyof(&m.receiver).is_none() => return Some(parse_quote!(i64)),
                    "as_str" | "vp_trim" | "vp_trim_end" => return Some(parse_quote!(str)),
                    "vp_to_string" => return Some(parse_quote!(String)),
                    "vp_owned" | "as_ref" => { let t = self.tyof(&m.receiver)?; return Some(if t == parse_quote!(str) { parse_quote!(String) } else { t }) }
                    _ => {}
                }
                let t = self.tyof(&m.receiver)?;
                let k = self.tkey(&t)?;
                self.ret(&format!("{}::{}", k, n))
            }
            Expr::Try(t) => {
                if let Expr::Call(c) = &*t.expr { if let Expr::Path(p) = &*c.func {
                    let s = segs(&p.path);
                    // de::<T>(..)?, parse::<T, _>(..)?
                    if s[0] == "crate" && matches!(s.last().unwrap().as_str(), "de" | "parse" | "json_from_str") { if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments { return a.args.iter().find_map(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None }) } }
                } }
                let t = self.tyof(&t.expr)?;
                targ(&t)
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = segs(&p.path);
                    if s[0] == "crate" { return self.ret(&s[1..].join("::")) }
                    if s.len() == 2 && s[0] == "String" { return Some(parse_quote!(String)) }
                }
                None
            }
            _ => None
        }
    }
    pub fn tkey(&self, t: &Type) -> Option<String> {
        match t { Type::Path(p) => { let s = segs(&p.path); if s[0] == "crate" { Some(s[1..].join("::")) } else { None } } _ => None }
    }
    fn ret(&mut self, k: &str) -> Option<Type> {
        let f = self.krate.fns.get(k)?.clone();
        let ReturnType::Type(_, t) = &f.sig.output else { return None };
        let save = self.f.clone();
        self.f = f.clone(); self.f.key = save.key.clone();
        let n = self.errs.len();
        let r = self.ty(t);
        self.errs.truncate(n);
        self.f = save;
        Some(Self::strip(&r))
    }
    fn is_strish(&mut self, e: &Expr) -> bool { matches!(self.tyof(e), Some(t) if t == parse_quote!(str) || t == parse_quote!(String)) }
    fn is_result(&mut self, e: &Expr) -> bool {
        if let Some(Type::Path(p)) = self.tyof(e) { return p.path.segments[0].ident == "Result" }
        if let Expr::Call(c) = e { let t = c.func.to_token_stream().to_string().replace(' ', ""); if t.starts_with("crate::vp::map_err") || t.starts_with("crate::vp::parse") || t.starts_with("crate::vp::ok_or") || t.starts_with("crate::vp::json_") || t.starts_with("crate::vp::de::<") { return true } }
        false
    }

    // ------------------------------------------------------------ statements
    pub fn block(&mut self, b: Block) -> Block {
        self.env.push(HashMap::new());
        let mut out = vec![];
        for s in b.stmts { self.stmt(s, &mut out) }
        self.env.pop();
        Block { brace_token: b.brace_token, stmts: out }
    }
    fn stmt(&mut self, s: Stmt, out: &mut Vec<Stmt>) {
        match s {
            Stmt::Local(mut l) => {
                let mut decl: Option<Type> = None;
                if let Pat::Type(pt) = &mut l.pat { let t = self.ty(&pt.ty); pt.ty = Box::new(t.clone()); decl = Some(t); }
                if let Some(init) = &mut l.init {
                    let e = self.ex(*init.expr.clone());
                    if decl.is_none() { decl = self.tyof(&e); }
                    init.expr = Box::new(e);
                    if let Some((_, d)) = &mut init.diverge { let x = self.ex((**d).clone()); *d = Box::new(x) }
                }
                l.pat = self.pat(l.pat, None);
                if let Some(t) = decl { let p = match &l.pat { Pat::Type(p) => (*p.pat).clone(), p => p.clone() }; if let Pat::Ident(i) = &p { let n = i.ident.to_string(); self.bind(&n, t) } }
                out.push(Stmt::Local(l));
            }
            Stmt::Item(Item::Use(u)) => { self.bad(format!("use inside a function: {}", u.to_token_stream())) }
            Stmt::Item(i) => self.bad(format!("item inside a function: {}", i.to_token_stream().to_string().chars().take(60).collect::<String>())),
            Stmt::Expr(e, semi) => { let e = self.ex(e); out.push(Stmt::Expr(e, semi)) }
            Stmt::Macro(m) => { let e = self.ex(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac })); out.push(Stmt::Expr(e, Some(Default::default()))) }
        }
    }
    pub fn pat(&mut self, p: Pat, scrut: Option<&Type>) -> Pat {
        match p {
            Pat::Ident(mut i) => {
                if let Some((_, s)) = &mut i.subpat { let x = self.pat((**s).clone(), None); *s = Box::new(x) }
                let n = i.ident.to_string();
                // a new binding hides what was known under this name
                if let Some(t) = scrut { self.bind(&n, t.clone()) } else { self.env.last_mut().unwrap().insert(n, parse_quote!(_)); }
                Pat::Ident(i)
            }
            Pat::Type(mut t) => { let ty = self.ty(&t.ty); t.pat = Box::new(self.pat(*t.pat, Some(&ty))); t.ty = Box::new(ty); Pat::Type(t) }
            Pat::Tuple(mut t) => { for e in t.elems.iter_mut() { *e = self.pat(e.clone(), None) } Pat::Tuple(t) }
            Pat::TupleStruct(mut t) => { t.path = self.vpath(&t.path); for e in t.elems.iter_mut() { *e = self.pat(e.clone(), None) } Pat::TupleStruct(t) }
            Pat::Struct(mut t) => {
                t.path = self.vpath(&t.path);
                for f in t.fields.iter_mut() { let q = self.pat((*f.pat).clone(), None); f.pat = Box::new(q); }
                Pat::Struct(t)
            }
            Pat::Path(mut t) => { t.path = self.vpath(&t.path); Pat::Path(t) }
            Pat::Or(mut t) => { for e in t.cases.iter_mut() { *e = self.pat(e.clone(), None) } Pat::Or(t) }
            Pat::Reference(mut t) => { t.pat = Box::new(self.pat(*t.pat, None)); Pat::Reference(t) }
            Pat::Paren(t) => self.pat(*t.pat, scrut),
            Pat::Lit(l) => { if let Lit::Str(_) = &l.lit { self.bad("string literal pattern") } Pat::Lit(l) }
            Pat::Wild(_) | Pat::Rest(_) | Pat::Range(_) => p,
            p => { self.bad(format!("pattern {}", p.to_token_stream())); p }
        }
    }
    /// a path to a variant, constructor or constant
    fn vpath(&mut self, p: &Path) -> Path {
        let s = segs(p);
        if s[0] == "Self" || matches!(s[0].as_str(), "String" | "Vec" | "Box" | "Option") || matches!(s[0].as_str(), "Some" | "None" | "Ok" | "Err") && s.len() == 1 { return p.clone() }
        match self.krate.resolve(&self.f.module, &s) {
            Some(Res::Type(k)) => { self.need_type(&k); abs_path(&self.unalias(&k)) }
            Some(Res::Assoc(k, rest)) => {
                if let Some(Item::Type(al)) = self.krate.type_item(&k).cloned() {
                    let save = self.f.module.clone(); self.f.module = self.krate.type_module(&k);
                    let t = self.ty(&al.ty); self.f.module = save;
                    if let (Type::Path(t), true) = (&t, self.tkey(&t).is_none()) {
                        let mut q = t.path.clone();
                        if let PathArguments::AngleBracketed(a) = &mut q.segments.last_mut().unwrap().arguments { a.colon2_token = Some(Default::default()) }
                        for r in &rest { q.segments.push(ident(r).into()) }
                        return q
                    }
                }
                let k = self.unalias(&k);
                self.need_type(&k);
                let mut q = abs_path(&k);
                for r in &rest { q.segments.push(ident(r).into()) }
                let fk = format!("{}::{}", k, rest.join("::"));
                if self.krate.fns.contains_key(&fk) { self.fns.insert(fk); }
                q
            }
            Some(Res::Fn(k)) => { self.fns.insert(k.clone()); abs_path(&k) }
            Some(Res::External(x)) if x.last().map(|l| l == "new").unwrap_or(false) => {
                let t = self.ext_type(&x[..x.len() - 1], PathArguments::None);
                if let Type::Path(t) = t { let mut q = t.path; q.segments.push(ident("new").into()); return q }
                p.clone()
            }
            _ => p.clone()
        }
    }
    fn need_type(&mut self, k: &str) { let k = self.unalias(k); if self.krate.type_item(&k).is_some() { self.types.insert(k); } }
    fn unalias(&mut self, k: &str) -> String {
        if let Some(Item::Type(al)) = self.krate.type_item(k) {
            let t = (*al.ty).clone();
            let save = self.f.module.clone(); self.f.module = self.krate.type_module(k);
            let r = self.ty(&t); self.f.module = save;
            if let Some(k) = self.tkey(&r) { return k }
        }
        k.to_string()
    }

    // ------------------------------------------------------------ expressions
    pub fn ex(&mut self, e: Expr) -> Expr {
        match e {
            Expr::Lit(l) => { if let Lit::Str(s) = &l.lit { self.strs.insert(s.value()); } Expr::Lit(l) }
            Expr::Path(p) => {
                if p.qself.is_some() {
                    // <X as Trait>::f  ->  X::f
                    let q = p.qself.as_ref().unwrap();
                    let t = self.ty(&q.ty);
                    let l = p.path.segments.last().unwrap().ident.clone();
                    if let Some(k) = self.tkey(&t) { let fk = format!("{}::{}", k, l); if self.krate.fns.contains_key(&fk) { self.fns.insert(fk); } let mut a = abs_path(&k); a.segments.push(l.into()); return Expr::Path(ExprPath { attrs: vec![], qself: None, path: a }) }
                    self.bad(format!("qualified path {}", p.to_token_stream()));
                    return Expr::Path(p)
                }
                let s = segs(&p.path);
                if s.len() == 1 {
                    if let Some(k) = self.f.nested.get(&s[0]).cloned() { if self.var(&s[0]).is_none() { self.fns.insert(k.clone()); return self.fn_path(&k) } }
                    if self.var(&s[0]).is_some() || s[0] == "self" { return Expr::Path(p) }
                }
                if s[0] == "Self" && s.len() == 2 {
                    if let Some(t) = self.f.self_ty.clone() { let t = self.ty(&t); if let Some(k) = self.tkey(&t) { let fk = format!("{}::{}", k, s[1]); if self.krate.fns.contains_key(&fk) { self.fns.insert(fk); } } }
                    return Expr::Path(p)
                }
                if let Some(Res::Type(k)) = self.krate.resolve(&self.f.module, &s) { if let Some(Item::Const(c)) = self.krate.type_item(&k) {
                    // a constant with a literal value
                    if let Expr::Lit(l) = &*c.expr { return self.ex(Expr::Lit(l.clone())) }
                } }
                let mut q = self.vpath(&p.path);
                // keep generic arguments of the last segment
                let a = p.path.segments.last().unwrap().arguments.clone();
                if !a.is_none() { let mut a = a; self.args(&mut a); if q.segments.last().unwrap().arguments.is_none() { q.segments.last_mut().unwrap().arguments = a } }
                Expr::Path(ExprPath { path: q, ..p })
            }
            Expr::Call(c) => self.call(c),
            Expr::MethodCall(m) => self.method(m),
            Expr::Macro(m) => self.mac(m.mac),
            Expr::Field(mut f) => { f.base = Box::new(self.ex(*f.base)); Expr::Field(f) }
            Expr::Paren(mut p) => { p.expr = Box::new(self.ex(*p.expr)); Expr::Paren(p) }
            Expr::Group(p) => { let x = self.ex(*p.expr); parse_quote!((#x)) }
            Expr::Reference(mut r) => {
                if let Expr::Index(i) = &*r.expr { if let Expr::Range(rg) = &*i.index { return self.slice(*i.expr.clone(), rg.clone()) } }
                if let Expr::Unary(u) = &*r.expr { if matches!(u.op, UnOp::Deref(_)) {
                    // &*s : a string slice of an owned string, or a plain reborrow
                    let inner = self.ex((*u.expr).clone());
                    if matches!(&inner, Expr::Field(_)) && matches!(inner.to_token_stream().to_string().as_str(), s if s.ends_with("__done")) { return parse_quote!(#inner.as_str()) }
                    if self.is_strish(&inner) || matches!(&inner, Expr::MethodCall(m) if m.method == "done") { return parse_quote!(#inner.as_str()) }
                    return parse_quote!(&*#inner)
                } }
                // a mutable reference of a mutable reference: the same reference again
                if let (Expr::Path(p), true) = (&*r.expr, r.mutability.is_some()) { if let Some(i) = p.path.get_ident() { if matches!(self.var(&i.to_string()), Some(Type::Reference(t)) if t.mutability.is_some()) { return parse_quote!(&mut *#i) } } }
                r.expr = Box::new(self.ex(*r.expr)); Expr::Reference(r)
            }
            Expr::Unary(mut u) => { u.expr = Box::new(self.ex(*u.expr)); Expr::Unary(u) }
            Expr::Binary(b) => self.binary(b),
            Expr::Assign(mut a) => { a.left = Box::new(self.ex(*a.left)); a.right = Box::new(self.ex(*a.right)); Expr::Assign(a) }
            Expr::Cast(c) if self.disc(&c).is_some() => self.disc(&c).unwrap(),
            Expr::Cast(c) if self.numcast(&c).is_some() => self.numcast(&c).unwrap(),
            Expr::Cast(mut c) => { c.expr = Box::new(self.ex(*c.expr)); c.ty = Box::new(self.ty(&c.ty)); Expr::Cast(c) }
            Expr::Tuple(mut t) => { for e in t.elems.iter_mut() { *e = self.ex(e.clone()) } Expr::Tuple(t) }
            Expr::Array(mut t) => { for e in t.elems.iter_mut() { *e = self.ex(e.clone()) } Expr::Array(t) }
            Expr::Struct(mut s) => {
                if s.path.is_ident("Self") { if let Some(t) = self.f.self_ty.clone() { let t = self.ty(&t); if let Some(k) = self.tkey(&t) { s.path = abs_path(&k) } } } else { s.path = self.vpath(&s.path) }
                for f in s.fields.iter_mut() { f.expr = self.ex(f.expr.clone()); if f.colon_token.is_none() { f.colon_token = Some(Default::default()) } }
                if let Some(r) = &mut s.rest { let x = self.ex((**r).clone()); *r = Box::new(x) }
                Expr::Struct(s)
            }
            Expr::Index(i) if matches!(&*i.index, Expr::Range(_)) => { let Expr::Range(rg) = *i.index else { unreachable!() }; self.slice(*i.expr, rg) }
            Expr::Index(mut i) => { i.expr = Box::new(self.ex(*i.expr)); i.index = Box::new(self.ex(*i.index)); Expr::Index(i) }
            Expr::Range(_) => { self.bad("range expression"); e }
            Expr::Block(mut b) => { if b.label.is_some() { self.bad("labelled block") } b.block = self.block(b.block); Expr::Block(b) }
            Expr::If(mut i) => {
                self.env.push(HashMap::new());
                i.cond = Box::new(self.ex(*i.cond));
                i.then_branch = self.block(i.then_branch);
                self.env.pop();
                if let Some((_, x)) = &mut i.else_branch { let y = self.ex((**x).clone()); *x = Box::new(y) }
                Expr::If(i)
            }
            Expr::Let(mut l) => {
                l.expr = Box::new(self.ex(*l.expr));
                l.pat = Box::new(self.pat(*l.pat, None));
                Expr::Let(l)
            }
            Expr::Match(m) => self.matches(m),
            Expr::Return(mut r) => { if let Some(x) = r.expr { r.expr = Some(Box::new(self.ex(*x))) } Expr::Return(r) }
            Expr::Break(b) => { if b.label.is_some() || b.expr.is_some() { self.bad("break with label or value") } Expr::Break(b) }
            Expr::Continue(b) => { if b.label.is_some() { self.bad("continue with label") } Expr::Continue(b) }
            Expr::Try(mut t) => {
                if let Expr::Call(c) = &*t.expr { if let Expr::Path(p) = &*c.func { if p.path.is_ident("Err") { self.drop_payload(&c.args[0]); return parse_quote!((return Err(crate::vp::VpErr))) } } }
                t.expr = Box::new(self.ex(*t.expr)); Expr::Try(t)
            }
            Expr::Loop(l) => {
                if l.label.is_some() { self.bad("labelled loop") }
                let k = self.nloops; self.nloops += 1;
                self.shape.push("loop".into());
                let mut b = self.block(l.body);
                self.decorate(k, &mut b, None);
                self.surround(k, parse_quote!(loop #b))
            }
            Expr::While(w) => {
                if w.label.is_some() { self.bad("labelled loop") }
                let k = self.nloops; self.nloops += 1;
                self.shape.push(if matches!(&*w.cond, Expr::Let(_)) { "while let".into() } else { "while".into() });
                self.env.push(HashMap::new());
                let r = if let Expr::Let(l) = *w.cond {
                    let e = self.ex(*l.expr); let p = self.pat(*l.pat, None);
                    let mut b = self.block(w.body);
                    self.user(k, &mut b);
                    let mk = self.marker(k, None);
                    parse_quote!(loop { #mk match #e { #p => #b _ => { break; } } })
                } else {
                    let c = self.ex(*w.cond);
                    let mut b = self.block(w.body);
                    self.decorate(k, &mut b, None);
                    parse_quote!(while #c #b)
                };
                self.env.pop();
                self.surround(k, r)
            }
            Expr::ForLoop(f) => {
                if f.label.is_some() { self.bad("labelled loop") }
                let (src, ad) = self.chain(&f.expr);
                let item_t: Option<Type> = match &src { Expr::MethodCall(m) if ad.is_empty() => match m.method.to_string().as_str() { "split" | "lines" | "split_whitespace" => Some(parse_quote!(str)), "chars" => Some(parse_quote!(char)), _ => None }, _ => None };
                let body = f.body.clone();
                self.env.push(HashMap::new());
                let r = self.iterate(src, ad, true, &mut |me, item| {
                    let p = me.pat((*f.pat).clone(), item_t.as_ref());
                    let mut out: Vec<Stmt> = vec![parse_quote!(let #p = #item;)];
                    let b = me.block(body.clone());
                    out.extend(b.stmts);
                    if let Some(Stmt::Expr(_, semi @ None)) = out.last_mut() { *semi = Some(Default::default()) }
                    out
                });
                self.env.pop();
                parse_quote!({ #(#r)* })
            }
            Expr::Closure(_) => { self.bad("closure used as a value"); e }
            e => { self.bad(format!("expression {}", e.to_token_stream().to_string().chars().take(80).collect::<String>())); e }
        }
    }
    fn drop_payload(&mut self, e: &Expr) { self.dropped.insert(e.to_token_stream().to_string().chars().take(100).collect()); }
    fn fn_path(&mut self, k: &str) -> Expr {
        let f = &self.krate.fns[k];
        let n = if f.hoisted { hoisted_name(f) } else { k.rsplit("::").next().unwrap().to_string() };
        let m = key(&f.module);
        let p = abs_path(&if m.is_empty() { n } else { format!("{}::{}", m, n) });
        Expr::Path(ExprPath { attrs: vec![], qself: None, path: p })
    }
    fn slice(&mut self, s: Expr, r: ExprRange) -> Expr {
        let s = self.ex(s);
        if !matches!(r.limits, RangeLimits::HalfOpen(_)) { self.bad("inclusive range") }
        let a = r.start.map(|e| self.ex(*e)); let b = r.end.map(|e| self.ex(*e));
        match (a, b) {
            (Some(a), None) => parse_quote!(crate::vp::VpStr::vp_from(&#s, #a)),
            (Some(a), Some(b)) => parse_quote!(crate::vp::VpStr::vp_range(&#s, #a, #b)),
            (None, Some(b)) => parse_quote!(crate::vp::VpStr::vp_range(&#s, 0, #b)),
            _ => s
        }
    }
    /// conversions between number types that may change the value
    fn numcast(&mut self, c: &ExprCast) -> Option<Expr> {
        let from = self.tyof(&c.expr)?.to_token_stream().to_string();
        let to = c.ty.to_token_stream().to_string();
        let f = match (from.as_str(), to.as_str()) {
            ("i64", "f64") => "i64_f64", ("f64", "i32") => "f64_i32", ("i32", "u32") => "i32_u32", ("u32", "i32") => "u32_i32", ("u64", "i64") => "u64_i64", ("i64", "u64") => "i64_u64",
            _ => return None
        };
        let x = self.ex((*c.expr).clone());
        let f = ident(f);
        Some(parse_quote!(crate::vp::#f(#x)))
    }
    /// an enum value cast to a number: the discriminants are written out
    fn disc(&mut self, c: &ExprCast) -> Option<Expr> {
        let inner = self.ex((*c.expr).clone());
        let mut variant = None;
        let k = if let Expr::Path(p) = &inner {
            let s = segs(&p.path);
            if s.len() > 2 && s[0] == "crate" { variant = Some(s[s.len() - 1].clone()); s[1..s.len() - 1].join("::") } else { let t = self.tyof(&inner)?; self.tkey(&t)? }
        } else { let t = self.tyof(&c.expr)?; self.tkey(&t)? };
        let Some(Item::Enum(e)) = self.krate.type_item(&k).cloned() else { return None };
        let ty = &c.ty;
        let mut last: Expr = parse_quote!(0);
        let mut off = 0usize;
        let mut arms: Vec<Arm> = vec![];
        let path = abs_path(&k);
        for v in &e.variants {
            if !v.fields.is_empty() { return None }
            if let Some((_, d)) = &v.discriminant { last = d.clone(); off = 0; }
            let l = &last; let o = proc_macro2::Literal::usize_unsuffixed(off);
            let val: Expr = if let (true, Expr::Lit(_)) = (off == 0, l) { parse_quote!((#l as #ty)) } else if let Expr::Binary(b) = l {
                // 1 << k
                let n: u64 = match (&*b.left, &b.op, &*b.right) { (Expr::Lit(x), BinOp::Shl(_), Expr::Lit(y)) => { let g = |e: &ExprLit| if let Lit::Int(i) = &e.lit { i.base10_parse::<u64>().ok() } else { None }; g(x)? << g(y)? } _ => return None };
                let n = proc_macro2::Literal::u64_unsuffixed(n + off as u64);
                parse_quote!((#n as #ty))
            } else { parse_quote!(((#l + #o) as #ty)) };
            off += 1;
            let id = &v.ident;
            if variant.as_deref() == Some(&id.to_string()) { return Some(val) }
            arms.push(parse_quote!(#path::#id => #val,));
        }
        if variant.is_some() { return None }
        self.types.insert(k);
        Some(parse_quote!((match #inner { #(#arms)* })))
    }
    fn binary(&mut self, mut b: ExprBinary) -> Expr {
        let l = self.ex(*b.left); let r = self.ex(*b.right);
        if let BinOp::AddAssign(_) = b.op { if self.c.flags.contains_key("wrap") { return parse_quote!({ #l = crate::vp::wrap_add(#l, #r); }) } }
        if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) {
            let ne = matches!(b.op, BinOp::Ne(_));
            let lit = |e: &Expr| matches!(e, Expr::Lit(l) if matches!(l.lit, Lit::Str(_)));
            let neg = |e: Expr| -> Expr { if ne { parse_quote!(!#e) } else { e } };
            if lit(&l) || lit(&r) || self.is_strish(&l) || self.is_strish(&r) { return neg(parse_quote!(crate::vp::streq(&#l, &#r))) }
            for (x, y) in [(&l, &r), (&r, &l)] {
                if let Expr::Path(p) = x { let s = segs(&p.path); if s.len() > 2 && s[0] == "crate" {
                    let k = s[1..s.len() - 1].join("::");
                    if let Some(Item::Enum(_)) = self.krate.type_item(&k) { let y = (*y).clone(); let p = p.path.clone(); return neg(parse_quote!((match #y { #p => true, _ => false }))) }
                } }
            }
        }
        b.left = Box::new(l); b.right = Box::new(r);
        Expr::Binary(b)
    }
    fn matches(&mut self, mut m: ExprMatch) -> Expr {
        fn strs(p: &Pat) -> Option<Vec<LitStr>> {
            match p {
                Pat::Lit(l) => if let Lit::Str(s) = &l.lit { Some(vec![s.clone()]) } else { None },
                Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.extend(strs(c)?) } Some(v) }
                _ => None
            }
        }
        let has = m.arms.iter().any(|a| strs(&a.pat).is_some());
        // a borrowed character against character literals
        if let (Expr::Reference(r), true) = (&*m.expr, m.arms.iter().all(|a| match &a.pat { Pat::Lit(l) => matches!(l.lit, Lit::Char(_)), Pat::Wild(_) => true, _ => false })) { let x = r.expr.clone(); m.expr = x; }
        let s = self.ex(*m.expr);
        if !has {
            m.expr = Box::new(s);
            for a in m.arms.iter_mut() {
                self.env.push(HashMap::new());
                a.pat = self.pat(a.pat.clone(), None);
                if let Some((_, g)) = &mut a.guard { let x = self.ex((**g).clone()); *g = Box::new(x) }
                a.body = Box::new(self.ex((*a.body).clone()));
                if a.comma.is_none() { a.comma = Some(Default::default()) }
                self.env.pop();
            }
            return Expr::Match(m);
        }
        // string match: a chain of comparisons
        let mut acc: Option<Expr> = None;
        for a in m.arms.into_iter().rev() {
            self.env.push(HashMap::new());
            let body_of = |me: &mut Self, a: &Arm| me.ex((*a.body).clone());
            let e: Expr = match strs(&a.pat) {
                Some(v) => {
                    let g = a.guard.as_ref().map(|(_, g)| self.ex((**g).clone()));
                    let body = body_of(self, &a);
                    for l in &v { self.strs.insert(l.value()); self.keys.insert(l.value()); }
                    let mut c: Expr = { let l = &v[0]; parse_quote!(crate::vp::streq(vp_m, #l)) };
                    for l in &v[1..] { c = parse_quote!(#c || crate::vp::streq(vp_m, #l)) }
                    if let Some(g) = g { c = parse_quote!((#c) && #g) }
                    match acc { Some(x) => parse_quote!(if #c { #body } else { #x }), None => { self.bad("string match without a default"); body } }
                }
                None => {
                    let p = self.pat(a.pat.clone(), Some(&parse_quote!(str)));
                    let g = a.guard.as_ref().map(|(_, g)| self.ex((**g).clone()));
                    let body = body_of(self, &a);
                    let bound: Option<Stmt> = match &p { Pat::Wild(_) => None, Pat::Ident(i) => { let i = &i.ident; Some(parse_quote!(let #i = vp_m;)) } p => { self.bad(format!("pattern {} in a string match", p.to_token_stream())); None } };
                    match (g, acc) {
                        (None, _) => parse_quote!({ #bound #body }),
                        (Some(g), Some(x)) => parse_quote!({ #bound if #g { #body } else { #x } }),
                        (Some(_), None) => { self.bad("string match without a default"); body }
                    }
                }
            };
            acc = Some(e);
            self.env.pop();
        }
        let a = acc.unwrap();
        let s: Expr = if self.is_strish(&s) || matches!(&s, Expr::MethodCall(m) if m.method == "as_str") { parse_quote!(&*#s) } else { s };
        let s: Expr = if s.to_token_stream().to_string().ends_with("as_str ()") { match s { Expr::Reference(r) => match *r.expr { Expr::Unary(u) => *u.expr, x => x }, s => s } } else { s };
        // (a match keeps temporaries alive)
        if s.to_token_stream().to_string().contains('?') { return parse_quote!((match #s { vp_m => #a })) }
        parse_quote!({ let vp_m = #s; #a })
    }

    // ------------------------------------------------------------ macros
    fn mac(&mut self, m: Macro) -> Expr {
        let n = m.path.segments.last().unwrap().ident.to_string();
        match n.as_str() {
            "vec" => {
                if m.tokens.is_empty() { return parse_quote!(Vec::new()) }
                let p = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                match p { Ok(es) => { let es: Vec<Expr> = es.into_iter().map(|e| self.ex(e)).collect(); parse_quote!({ let mut vp_v = Vec::new(); #(vp_v.push(#es);)* vp_v }) } Err(_) => { self.bad("vec! with repetition"); parse_quote!(Vec::new()) } }
            }
            "format" => self.format(m),
            "panic" | "unreachable" | "unimplemented" | "todo" => parse_quote!(crate::vp::panics()),
            "matches" => {
                struct M { e: Expr, p: Pat, g: Option<Expr> }
                impl syn::parse::Parse for M { fn parse(i: syn::parse::ParseStream) -> Result<Self> { let e = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?; let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None }; let _ = i.parse::<Option<Token![,]>>(); Ok(M { e, p, g }) } }
                match parse2::<M>(m.tokens) {
                    Ok(M { e, p, g }) => { let mm: ExprMatch = match g { Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }), None => parse_quote!(match #e { #p => true, _ => false }) }; let x = self.matches(mm); parse_quote!((#x)) }
                    Err(_) => { self.bad("matches!"); parse_quote!(false) }
                }
            }
            "custom" => parse_quote!(()),
            "println" | "eprintln" | "print" | "eprint" | "debug" | "trace" | "info" => parse_quote!({}),
            _ => { self.bad(format!("macro {}!", n)); parse_quote!(()) }
        }
    }
    fn format(&mut self, m: Macro) -> Expr {
        let Ok(es) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) else { self.bad("format!"); return parse_quote!(String::new()) };
        let es: Vec<Expr> = es.into_iter().collect();
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) = es.first() else { self.bad("format! without literal"); return parse_quote!(String::new()) };
        let f = f.value();
        let mut named: HashMap<String, Expr> = HashMap::new();
        let mut pos: Vec<Expr> = vec![];
        for e in es[1..].iter() { match e { Expr::Assign(a) => { named.insert(a.left.to_token_stream().to_string(), (*a.right).clone()); } e => pos.push(e.clone()) } }
        let mut acc: Expr = parse_quote!(crate::vp::VpFmt::new());
        let mut lit = String::new();
        let cs: Vec<char> = f.chars().collect();
        let (mut i, mut next) = (0, 0);
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => { lit.push('{'); i += 2 }
                '}' => { lit.push('}'); i += 2 }
                '{' => {
                    let j = (i..cs.len()).find(|&j| cs[j] == '}').unwrap_or(i);
                    let inner: String = cs[i + 1..j].iter().collect();
                    let (name, spec) = match inner.split_once(':') { Some((a, b)) => (a.to_string(), b.to_string()), None => (inner, String::new()) };
                    if !lit.is_empty() { self.strs.insert(lit.clone()); acc = parse_quote!(#acc.lit(#lit)); lit.clear() }
                    let arg = if name.is_empty() { let a = pos.get(next).cloned(); next += 1; a } else if let Ok(k) = name.parse::<usize>() { pos.get(k).cloned() } else { Some(named.get(&name).cloned().unwrap_or_else(|| { let i = ident(&name); parse_quote!(#i) })) };
                    let Some(arg) = arg else { self.bad("format! argument"); return acc };
                    let arg = self.ex(arg);
                    let meth = match spec.as_str() { "" => "arg", "02" | "0>2" => "arg_02", "03" => "arg_03", "04" | "0>4" => "arg_04", "#010x" => "arg_hex", _ => { self.bad(format!("format spec {}", spec)); "arg" } };
                    let meth = ident(meth);
                    acc = parse_quote!(#acc.#meth(&#arg));
                    i = j + 1;
                }
                c => { lit.push(c); i += 1 }
            }
        }
        if !lit.is_empty() { self.strs.insert(lit.clone()); acc = parse_quote!(#acc.lit(#lit)); }
        parse_quote!(#acc.done())
    }

    // ------------------------------------------------------------ calls
    fn call(&mut self, c: ExprCall) -> Expr {
        let mut args: Vec<Expr> = c.args.iter().cloned().collect();
        if let Expr::Path(p) = &*c.func {
            let s = segs(&p.path);
            let last = s.last().unwrap().clone();
            if s.len() == 1 && last == "Err" { self.drop_payload(&args[0]); return parse_quote!(Err(crate::vp::VpErr)) }
            if s.len() == 1 && (last == "Ok" || last == "Some") { let a = self.ex(args.remove(0)); let i = ident(&last); return if last == "Ok" { parse_quote!(Ok::<_, crate::vp::VpErr>(#a)) } else { parse_quote!(#i(#a)) } }
            let ext = |me: &Self| match me.krate.resolve(&me.f.module, &s) { Some(Res::External(x)) => Some(x.join("::")), None => Some(s.join("::")), _ => None };
            if let Some(x) = ext(self) {
                let lowered: Option<&str> = match x.as_str() {
                    "serde_json::from_str" => Some("json_from_str"),
                    "serde_json::to_string" => Some("json_to_string"),
                    "String::from_utf8" => Some("from_utf8"),
                    "std::fs::read" => Some("fs_read"),
                    "std::fs::write" => Some("fs_write"),
                    "Vec::from" => Some("vec_from"),
                    "u32::from_str_radix" => Some("u32_from_str_radix"),
                    "rand::random" => Some("random"),
                    "chrono::NaiveDate::from_ymd_opt" => Some("date_from_ymd_opt"),
                    "chrono::NaiveDateTime::from_timestamp_opt" => Some("date_from_timestamp_opt"),
                    "String::from" => Some("string_from"),
                    "u32::from_str" | "u16::from_str" | "i32::from_str" | "u8::from_str" | "f64::from_str" => Some("parse"),
                    "std::mem::take" => Some("take"),
                    _ => None
                };
                if last == "deserialize" && s.len() == 2 && matches!(s[0].as_str(), "String" | "u8" | "u16" | "u32" | "u64" | "i8" | "i16" | "i32" | "bool") {
                    let t = ident(&s[0]); let a = self.ex(args.remove(0));
                    return parse_quote!(crate::vp::de::<#t>(#a));
                }
                if let Some(l) = lowered {
                    let a: Vec<Expr> = args.into_iter().map(|a| self.ex(a)).collect();
                    let i = ident(l);
                    if l == "parse" { let t = ident(&s[0]); return parse_quote!(crate::vp::parse::<#t, _>(#(&#a),*)) }
                    return parse_quote!(crate::vp::#i(#(#a),*));
                }
                if s[0] == "Vec" || s[0] == "String" || s[0] == "Box" || x == "Default::default" || s[0] == "Self" || s[0] == "Option" {
                    if last == "with_capacity" { return { let i = ident(&s[0]); parse_quote!(#i::new()) } }
                    let a: Vec<Expr> = args.into_iter().map(|a| self.ex(a)).collect();
                    let func = self.ex(*c.func);
                    return parse_quote!(#func(#(#a),*));
                }
                if x.ends_with("LinkedHashMap::new") || x.ends_with("HashMap::new") {
                    let mut p = p.path.clone();
                    let n = p.segments.len();
                    let mut a = p.segments[n - 2].arguments.clone(); self.args(&mut a);
                    let which = ident(&s[s.len() - 2].clone());
                    p = parse_quote!(crate::vp::#which::new);
                    let n = p.segments.len(); p.segments[n - 2].arguments = a;
                    return parse_quote!(#p());
                }
            }
            // a closure handed to a program function: a copy of that function for this closure
            if args.iter().any(|a| matches!(a, Expr::Closure(_))) { self.bad(format!("closure argument to {}", s.join("::"))) }
        }
        let func = self.ex(*c.func);
        self.note_call(&func);
        let mut a: Vec<Expr> = args.into_iter().map(|a| self.ex(a)).collect();
        if let Expr::Path(p) = &func { let s = segs(&p.path); if s[0] == "crate" { if let Some(f) = self.krate.fns.get(&s[1..].join("::")) {
            for (k, x) in f.sig.inputs.iter().enumerate() { if let (FnArg::Typed(t), Some(e)) = (x, a.get_mut(k)) { if is_iter_type(&t.ty) && !matches!(e, Expr::Reference(r) if r.mutability.is_some()) && !matches!(e, Expr::Path(_)) { let x = e.clone(); *e = parse_quote!(&mut #x) } } }
        } } }
        parse_quote!(#func(#(#a),*))
    }
    fn note_call(&mut self, f: &Expr) { if let Expr::Path(p) = f { let s = segs(&p.path); if s[0] == "crate" { self.calls.insert(s[1..].join("::")); } } }

    fn closure(&mut self, e: &Expr) -> Option<(Vec<Pat>, Expr)> {
        match e {
            Expr::Closure(c) => Some((c.inputs.iter().cloned().collect(), (*c.body).clone())),
            _ => None
        }
    }
    /// a program function that is handed a closure: a copy of the function in which the closure's text stands where it is called,
    /// and what it captures (parameters of this function) are further parameters
    fn special(&mut self, k: &str, args: &[Expr]) -> Option<(Ident, Vec<Expr>)> {
        let callee = self.krate.fns[k].clone();
        if key(&callee.module) != key(&self.f.module) || callee.hoisted || !callee.impl_generics.params.is_empty() { return None }
        let at: Vec<usize> = args.iter().enumerate().filter(|(_, a)| matches!(a, Expr::Closure(_))).map(|x| x.0).collect();
        if at.len() != 1 { return None }
        let Expr::Closure(c) = &args[at[0]] else { return None };
        if c.inputs.len() != 1 { return None }
        let cpat = c.inputs[0].clone();
        let own: BTreeSet<String> = idents(&cpat);
        // parameters of the callee, without self
        let params: Vec<(String, Type)> = callee.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(p) = a { if let Pat::Ident(i) = &*p.pat { Some((i.ident.to_string(), (*p.ty).clone())) } else { None } } else { None }).collect();
        let (pn, pt) = params.get(at[0])?.clone();
        // what the closure captures
        struct Free(BTreeSet<String>, bool);
        impl<'b> visit::Visit<'b> for Free {
            fn visit_expr(&mut self, e: &'b Expr) {
                match e { Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => { self.0.insert(p.path.segments[0].ident.to_string()); } Expr::Try(_) | Expr::Return(_) | Expr::Macro(_) | Expr::Break(_) | Expr::Continue(_) | Expr::Closure(_) => self.1 = true, _ => {} }
                visit::visit_expr(self, e)
            }
            fn visit_local(&mut self, _: &'b Local) { self.1 = true }
        }
        let mut fr = Free(Default::default(), false);
        visit::Visit::visit_expr(&mut fr, &c.body);
        if fr.1 { return None }
        let mut caps: Vec<(String, Type)> = vec![];
        for n in &fr.0 {
            if own.contains(n) { continue }
            if n == "self" { return None }
            if self.var(n).is_some() {
                let t = self.f.sig.inputs.iter().find_map(|a| if let FnArg::Typed(p) = a { if matches!(&*p.pat, Pat::Ident(i) if &i.ident == n) { Some((*p.ty).clone()) } else { None } } else { None })?;
                if !matches!(&t, Type::Reference(_)) { return None }
                caps.push((n.clone(), t));
            }
        }
        // no name of the callee hides a captured one
        struct Names(BTreeSet<String>);
        impl<'b> visit::Visit<'b> for Names { fn visit_pat_ident(&mut self, i: &'b PatIdent) { self.0.insert(i.ident.to_string()); visit::visit_pat_ident(self, i) } }
        let mut nm = Names(params.iter().map(|p| p.0.clone()).collect());
        visit::Visit::visit_block(&mut nm, &callee.block);
        if caps.iter().any(|c| nm.0.contains(&c.0)) || fr.0.iter().any(|n| nm.0.contains(n) && !own.contains(n)) { return None }
        struct Put<'x>(&'x str, &'x Pat, &'x Expr, bool);
        impl<'x> visit_mut::VisitMut for Put<'x> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Call(c) = e { if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.0)) {
                    if c.args.len() != 1 { self.3 = true; return }
                    let mut a = c.args[0].clone(); visit_mut::VisitMut::visit_expr_mut(self, &mut a);
                    let (p, b) = (self.1, self.2);
                    *e = parse_quote!({ let #p = #a; #b }); return
                } }
                if matches!(e, Expr::Path(p) if p.path.is_ident(self.0)) { self.3 = true }
                visit_mut::visit_expr_mut(self, e)
            }
        }
        let mut f = callee.clone();
        let mut put = Put(&pn, &cpat, &c.body, false);
        visit_mut::VisitMut::visit_block_mut(&mut put, &mut f.block);
        if put.3 { return None }
        let caller = self.f.key.rsplit("::").next().unwrap().split('@').next().unwrap().to_string();
        f.key = format!("{}@{}", callee.key, caller);
        let mut inputs: punctuated::Punctuated<FnArg, Token![,]> = Default::default();
        let mut j = 0;
        for a in &callee.sig.inputs { match a { FnArg::Receiver(_) => inputs.push(a.clone()), FnArg::Typed(_) => { if j != at[0] { inputs.push(a.clone()) } j += 1 } } }
        for (n, t) in &caps { let i = ident(n); inputs.push(parse_quote!(#i: #t)) }
        f.sig.inputs = inputs;
        // the closure's type parameter goes
        if let Type::Path(tp) = &pt { if let Some(i) = tp.path.get_ident() {
            let g = i.to_string();
            f.sig.generics.params = f.sig.generics.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == g)).cloned().collect();
            if let Some(w) = &mut f.sig.generics.where_clause { w.predicates = w.predicates.iter().filter(|p| !matches!(p, WherePredicate::Type(t) if t.bounded_ty.to_token_stream().to_string() == g)).cloned().collect(); if w.predicates.is_empty() { f.sig.generics.where_clause = None } }
        } }
        for (n, k) in &self.f.nested { f.nested.insert(n.clone(), k.clone()); }
        self.fns.insert(f.key.clone()); self.calls.insert(f.key.clone());
        let name = format_ident!("{}__{}", callee.sig.ident, caller);
        self.specials.push(f);
        let mut rest: Vec<Expr> = vec![];
        for (i, a) in args.iter().enumerate() { if i != at[0] { let x = self.ex(a.clone()); rest.push(x) } }
        for (n, _) in &caps { let i = ident(n); rest.push(parse_quote!(#i)) }
        Some((name, rest))
    }
    /// applies a closure or function value to an expression: statements that bind, and the value
    fn apply(&mut self, f: &Expr, arg: Expr) -> Expr { self.apply_t(f, arg, None) }
    fn apply_t(&mut self, f: &Expr, arg: Expr, t: Option<Type>) -> Expr {
        match self.closure(f) {
            Some((ps, body)) => {
                self.env.push(HashMap::new());
                let r: Expr = if ps.is_empty() { self.ex(body) } else {
                    let mut p = self.pat(ps[0].clone(), t.as_ref());
                    if let Pat::Type(t) = &p { p = (*t.pat).clone() }
                    let b = self.ex(body);
                    parse_quote!({ let #p = #arg; #b })
                };
                self.env.pop();
                r
            }
            None => { let g = self.ex(f.clone()); self.note_call(&g); let g: Expr = g; parse_quote!(#g(#arg)) }
        }
    }
    fn is_iter(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => { let n = m.method.to_string(); ITER.contains(&n.as_str()) || (n == "map" || n == "filter" || n == "cloned") && self.is_iter(&m.receiver) }
            Expr::Paren(p) => self.is_iter(&p.expr),
            _ => false
        }
    }
    fn method(&mut self, m: ExprMethodCall) -> Expr {
        let n = m.method.to_string();
        if let Expr::If(_) = &*m.receiver {
            // (if a { &mut x } else { &mut y }).f(z): the call goes into the branches
            let mut r = (*m.receiver).clone();
            into_branches(&mut r, &m);
            return self.ex(r);
        }
        let arg = m.args.first().cloned();
        let turbo: Option<Type> = m.turbofish.as_ref().and_then(|t| t.args.iter().find_map(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None }));
        if self.is_iter(&m.receiver) {
            match n.as_str() {
                "collect" | "fold" | "try_fold" | "for_each" | "find_map" | "find" | "all" | "any" => return self.terminal(&m, turbo),
                "nth" => {
                    if let Expr::MethodCall(c) = &*m.receiver { if c.method == "chars" { let s = self.ex((*c.receiver).clone()); let a = self.ex(arg.unwrap()); return parse_quote!(crate::vp::VpStr::vp_nth(&#s, #a)) } }
                }
                _ => {}
            }
        }
        match n.as_str() {
            "deserialize_any" => {
                let vis = self.ex(arg.unwrap());
                let d = self.ex(*m.receiver);
                let k = self.tyof(&vis).and_then(|t| self.tkey(&t)).or_else(|| if let Expr::Path(p) = &vis { let s = segs(&p.path); if s[0] == "crate" { Some(s[1..].join("::")) } else { None } } else { None });
                let Some(k) = k else { self.bad("deserialize_any"); return d };
                let mut arms: Vec<Arm> = vec![];
                for (v, f) in [("I", "visit_i64"), ("U", "visit_u64"), ("F", "visit_f64"), ("B", "visit_bool"), ("S", "visit_str")] {
                    let fk = format!("{}::{}", k, f);
                    let (v, f) = (ident(v), ident(f));
                    if self.krate.fns.contains_key(&fk) { self.fns.insert(fk.clone()); self.calls.insert(fk); arms.push(if v == "S" { parse_quote!(crate::vp::VpAny::#v(vp_v) => #vis.#f(vp_v.as_str()),) } else { parse_quote!(crate::vp::VpAny::#v(vp_v) => #vis.#f(vp_v),) }) }
                }
                // other visit functions: not among the values described here
                if self.krate.fns.keys().any(|f| f.starts_with(&format!("{}::visit_", k)) && !["visit_i64", "visit_u64", "visit_f64", "visit_bool", "visit_str"].iter().any(|n| f.ends_with(n))) { self.bad("visitor") }
                return parse_quote!((match crate::vp::de_any(#d) { #(#arms)* _ => Err(crate::vp::VpErr) }))
            }
            "contains" if matches!(strip_paren(&m.receiver), Expr::Range(_)) => {
                let Expr::Range(r) = strip_paren(&m.receiver) else { unreachable!() };
                let (Some(a), Some(b)) = (r.start.clone(), r.end.clone()) else { self.bad("range"); return Expr::MethodCall(m) };
                let (a, b) = (self.ex(*a), self.ex(*b));
                let x = match arg.unwrap() { Expr::Reference(r) => self.ex(*r.expr), e => { let e = self.ex(e); parse_quote!(*#e) } };
                return if matches!(r.limits, RangeLimits::Closed(_)) { parse_quote!({ let vp_c = #x; #a <= vp_c && vp_c <= #b }) } else { parse_quote!({ let vp_c = #x; #a <= vp_c && vp_c < #b }) }
            }
            "map_err" => {
                if let Expr::MethodCall(c) = &*m.receiver { if c.method == "collect" && self.is_iter(&c.receiver) { return self.ex((*m.receiver).clone()) } }
                if let Some(a) = &arg { self.drop_payload(a) }
                let r = self.ex(*m.receiver); return parse_quote!(crate::vp::map_err(#r))
            }
            "ok_or_else" | "ok_or" => { if let Some(a) = &arg { self.drop_payload(a) } let r = self.ex(*m.receiver); return parse_quote!(crate::vp::ok_or(#r)) }
            "ok" => { let r = self.ex(*m.receiver); return parse_quote!(crate::vp::ok(#r)) }
            "expect" => { let r = self.ex(*m.receiver); return parse_quote!(#r.unwrap()) }
            "unwrap_or_else" | "unwrap_or" | "unwrap_or_default" => {
                let r = self.ex(*m.receiver);
                let res = self.is_result(&r);
                let d: Expr = match n.as_str() { "unwrap_or" => self.ex(arg.unwrap()), "unwrap_or_default" => parse_quote!(Default::default()), _ => { let a = arg.unwrap(); match self.closure(&a) { Some((_, b)) => { let b = self.ex(b); parse_quote!({ #b }) } None => { let g = self.ex(a); parse_quote!(#g()) } } } };
                return if res { parse_quote!((match #r { Ok(vp_o) => vp_o, Err(_) => #d })) } else { parse_quote!((match #r { Some(vp_o) => vp_o, None => #d })) }
            }
            "map" | "and_then" => {
                if self.is_iter(&m.receiver) { self.bad("iterator chain as a value"); return Expr::MethodCall(m) }
                let r = self.ex(*m.receiver);
                let res = self.is_result(&r);
                let t = self.tyof(&r).and_then(|t| targ(&t));
                let v = self.apply_t(&arg.unwrap(), parse_quote!(vp_o), t);
                let wrap = n == "map";
                return match (res, wrap) {
                    (true, true) => parse_quote!((match #r { Ok(vp_o) => Ok(#v), Err(vp_e) => Err(vp_e) })),
                    (true, false) => parse_quote!((match #r { Ok(vp_o) => #v, Err(vp_e) => Err(vp_e) })),
                    (false, true) => parse_quote!((match #r { Some(vp_o) => Some(#v), None => None })),
                    (false, false) => parse_quote!((match #r { Some(vp_o) => #v, None => None })),
                }
            }
            "filter" => { let r = self.ex(*m.receiver); let v = self.apply(&arg.unwrap(), parse_quote!(&vp_o)); return parse_quote!((match #r { Some(vp_o) => if #v { Some(vp_o) } else { None }, None => None })) }
            "then" => { let r = self.ex(*m.receiver); let Some((_, b)) = self.closure(&arg.unwrap()) else { self.bad("then"); return r }; let b = self.ex(b); return parse_quote!((if #r { Some(#b) } else { None })) }
            "or_else" | "or" => {
                let r = self.ex(*m.receiver);
                let res = self.is_result(&r);
                let a = arg.unwrap();
                let d: Expr = if n == "or" { self.ex(a) } else { match self.closure(&a) { Some((_, b)) => { let b = self.ex(b); parse_quote!({ #b }) } None => { let g = self.ex(a); self.note_call(&g); parse_quote!(#g()) } } };
                return if res { parse_quote!((match #r { Ok(vp_o) => Ok(vp_o), Err(_) => #d })) } else { parse_quote!((match #r { Some(vp_o) => Some(vp_o), None => #d })) }
            }
            "map_or" | "map_or_else" | "is_some_and" | "is_ok_and" | "is_none_or" => {
                let r = self.ex(*m.receiver);
                let res = self.is_result(&r) || n == "is_ok_and";
                let t = self.tyof(&r).and_then(|t| targ(&t));
                let (d, f): (Expr, Expr) = match n.as_str() {
                    "map_or" => (self.ex(m.args[0].clone()), m.args[1].clone()),
                    "map_or_else" => (match self.closure(&m.args[0]) { Some((_, b)) => { let b = self.ex(b); parse_quote!({ #b }) } None => { let g = self.ex(m.args[0].clone()); self.note_call(&g); parse_quote!(#g()) } }, m.args[1].clone()),
                    "is_none_or" => (parse_quote!(true), m.args[0].clone()),
                    _ => (parse_quote!(false), m.args[0].clone())
                };
                let v = self.apply_t(&f, parse_quote!(vp_o), t);
                return if res { parse_quote!((match #r { Ok(vp_o) => #v, Err(_) => #d })) } else { parse_quote!((match #r { Some(vp_o) => #v, None => #d })) }
            }
            "then_some" => { let r = self.ex(*m.receiver); let b = self.ex(arg.unwrap()); return parse_quote!((if #r { Some(#b) } else { None })) }
            "transpose" => { let r = self.ex(*m.receiver); return parse_quote!(crate::vp::transpose(#r)) }
            "parse" => { let r = self.ex(*m.receiver); let r: Expr = parse_quote!(&#r); return match turbo { Some(t) => { let t = self.ty(&t); parse_quote!(crate::vp::parse::<#t, _>(#r)) } None => parse_quote!(crate::vp::parse(#r)) } }
            "or_insert_with" => {
                if let Expr::MethodCall(c) = &*m.receiver { if c.method == "entry" {
                    let mp = self.ex((*c.receiver).clone()); let k = self.ex(c.args[0].clone());
                    let Some((_, b)) = self.closure(&arg.unwrap()) else { self.bad("or_insert_with"); return mp };
                    let b = self.ex(b);
                    return parse_quote!(#mp.vp_entry(#k, #b))
                } }
            }
            "by_ref" => { return self.ex(*m.receiver) }
            "drain" if matches!(&arg, Some(Expr::Range(r)) if r.start.is_none() && r.end.is_none()) => { let r = self.ex(*m.receiver); return parse_quote!(crate::vp::vp_drain(&mut #r)) }
            "append" => if let Some(Expr::Reference(rf)) = &arg { if !matches!(&*rf.expr, Expr::Path(_) | Expr::Field(_)) {
                let v = self.ex((*rf.expr).clone()); let r = self.ex(*m.receiver);
                return parse_quote!({ let mut vp_t = #v; #r.append(&mut vp_t); })
            } }
            _ => {}
        }
        if m.args.iter().any(|a| matches!(a, Expr::Closure(_))) {
            let recv = self.ex((*m.receiver).clone());
            let k = match self.tyof(&recv).and_then(|t| self.tkey(&t)) {
                Some(k) => Some(format!("{}::{}", k, n)).filter(|k| self.krate.fns.contains_key(k)),
                None => { let c: Vec<String> = self.krate.fns.iter().filter(|(_, f)| f.self_ty.is_some() && !f.hoisted && f.sig.ident == n && f.sig.receiver().is_some()).map(|(k, _)| k.clone()).collect(); if c.len() == 1 { Some(c[0].clone()) } else { None } }
            };
            let args: Vec<Expr> = m.args.iter().cloned().collect();
            if let Some((name, rest)) = k.and_then(|k| self.special(&k, &args)) { return parse_quote!(#recv.#name(#(#rest),*)) }
            self.bad(format!("closure argument to {}", n));
            return recv;
        }
        // plain renames
        let to = match n.as_str() {
            "to_owned" | "clone" | "to_vec" => "vp_owned",
            "cloned" => "vp_cloned",
            "to_string" => "vp_to_string",
            "starts_with" | "ends_with" | "strip_suffix" | "strip_prefix" | "split_once" | "trim" | "trim_end" | "trim_start" | "is_empty" | "contains" | "split" | "lines" | "chars" | "bytes" | "next" | "iter" | "into_iter" | "values" | "keys" | "into_values" | "skip" | "chain" | "peekable" | "peek" | "is_negative" | "to_ascii_uppercase" | "is_ascii_digit" | "drain" | "rev" | "to_lowercase" | "to_uppercase" | "to_ascii_lowercase" | "repeat" | "replace" | "replacen" | "eq_ignore_ascii_case" | "rfind" | "rsplit_once" | "rsplit" | "splitn" | "trim_matches" | "trim_start_matches" | "trim_end_matches" | "split_whitespace" | "first" | "last" | "front" => "",
            _ => n.as_str()
        };
        let r = self.ex(*m.receiver);
        if (n == "as_ref" || n == "as_bytes") && self.is_strish(&r) { return parse_quote!(crate::vp::str_bytes(&#r)) }
        if n == "push" && self.is_strish(&r) { let a = self.ex(arg.unwrap()); return parse_quote!(crate::vp::VpPush::vp_push(&mut #r, #a)) }
        if n == "pop" && self.is_strish(&r) { return parse_quote!(crate::vp::str_pop(&mut #r)) }
        if n == "push_str" { let a = self.ex(arg.unwrap()); let a: Expr = match a { Expr::Reference(r) => (*r.expr).clone(), a => parse_quote!(*#a) }; return parse_quote!(crate::vp::push_str(&mut #r, &#a)) }
        if n == "len" && self.is_strish(&r) { return parse_quote!(crate::vp::VpStr::vp_byte_len(&#r)) }
        if n == "contains" { if !self.is_strish(&r) { let a = self.ex(arg.unwrap()); return parse_quote!(#r.contains(#a)) } }
        let name = if to.is_empty() { format!("vp_{}", n) } else { to.to_string() };
        let own = self.tyof(&r).and_then(|t| self.tkey(&t)).map(|k| self.krate.fns.contains_key(&format!("{}::{}", k, n))).unwrap_or(false);
        if (n == "try_into" || n == "into") && !own {
            if let Some(t) = self.c.flags.get(&n).cloned() {
                let p: Path = parse_str(&t).unwrap();
                let s = segs(&p);
                if s[0] == "crate" { self.fns.insert(format!("{}::{}", s[1..].join("::"), if n == "into" { "from" } else { "try_from" })); }
                let f = ident(if n == "into" { "from" } else { "try_from" });
                return parse_quote!(#p::#f(#r));
            }
        }
        // which function is this?
        if let Some(t) = self.tyof(&r) { if let Some(k) = self.tkey(&t) { let fk = format!("{}::{}", k, n); if self.krate.fns.contains_key(&fk) { self.fns.insert(fk.clone()); self.calls.insert(fk); } } }
        else { for (k, f) in &self.krate.fns { if f.self_ty.is_some() && !f.hoisted && f.sig.ident == n && f.sig.receiver().is_some() && !matches!(n.as_str(), "to_string" | "next" | "clone" | "default" | "fmt" | "into" | "try_into" | "into_iter") { self.fns.insert(format!("?{}", k)); } } }
        let i = ident(&name);
        let pattern = matches!(n.as_str(), "starts_with" | "ends_with" | "strip_suffix" | "strip_prefix" | "split_once" | "split" | "rsplit_once" | "rsplit" | "trim_matches" | "trim_start_matches" | "trim_end_matches" | "find" | "rfind" | "contains");
        let a: Vec<Expr> = m.args.into_iter().map(|a| self.ex(a)).map(|a| if pattern && matches!(&a, Expr::Lit(l) if matches!(l.lit, Lit::Char(_))) { parse_quote!(&#a) } else { a }).collect();
        let tf = m.turbofish.map(|mut t| { for g in t.args.iter_mut() { if let GenericArgument::Type(t) = g { *t = self.ty(t) } } t });
        parse_quote!(#r.#i #tf (#(#a),*))
    }

    // ------------------------------------------------------------ iterator chains
    fn chain(&mut self, e: &Expr) -> (Expr, Vec<(String, Option<Expr>)>) {
        match e {
            Expr::Paren(p) => self.chain(&p.expr),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "map" | "filter" | "filter_map" | "enumerate" | "take_while" | "cloned" if self.is_iter(&m.receiver) || self.is_iter_var(&m.receiver) => {
                        let (s, mut a) = self.chain(&m.receiver);
                        a.push((n, m.args.first().cloned()));
                        (s, a)
                    }
                    _ => (e.clone(), vec![])
                }
            }
            _ => (e.clone(), vec![])
        }
    }
    fn is_iter_var(&mut self, e: &Expr) -> bool { matches!(e, Expr::Path(_)) }
    fn marker(&mut self, k: usize, base: Option<(Expr, bool)>) -> Stmt {
        // base: iterator expression
        let txt = match &base {
            Some((it, full)) => format!("#iter{} {}", if *full { "!" } else { "" }, it.to_token_stream()),
            None => String::new()
        };
        let n = self.ghosts.len(); self.ghosts.push(txt);
        let (k, n) = (LitInt::new(&k.to_string(), proc_macro2::Span::call_site()), LitInt::new(&n.to_string(), proc_macro2::Span::call_site()));
        parse_quote!(__vp_loop!(#k, #n);)
    }
    fn user(&mut self, k: usize, b: &mut Block) {
        if let Some(h) = self.hint(&format!("loop {} start", k)) { b.stmts.insert(0, h) }
        if let Some(h) = self.hint(&format!("loop {} end", k)) {
            if let Some(Stmt::Expr(_, s @ None)) = b.stmts.last_mut() { *s = Some(Default::default()) }
            b.stmts.push(h)
        }
    }
    fn decorate(&mut self, k: usize, b: &mut Block, base: Option<(Expr, bool)>) {
        self.user(k, b);
        let m = self.marker(k, base);
        b.stmts.insert(0, m);
    }
    fn surround(&mut self, k: usize, e: Expr) -> Expr {
        let (a, b) = (self.hint(&format!("before {}", k)), self.hint(&format!("after {}", k)));
        if a.is_none() && b.is_none() { return e }
        parse_quote!({ #a #e #b })
    }
    /// a loop over `src` with adapters; `inner` produces the statements for one item
    fn iterate(&mut self, src: Expr, ad: Vec<(String, Option<Expr>)>, into: bool, inner: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        let k = self.nloops; self.nloops += 1;
        let last = match &src { Expr::MethodCall(m) => m.method.to_string(), _ => String::new() };
        self.shape.push(format!("{} {} {}", if into { "for" } else { "chain" }, last, ad.iter().map(|a| a.0.clone()).collect::<Vec<_>>().join(" ")));
        let mut pre: Vec<Stmt> = vec![];
        let by_ref = match &src { Expr::MethodCall(m) => m.method == "by_ref", Expr::Path(p) => p.path.get_ident().map(|i| self.iters.contains(&i.to_string())).unwrap_or(false), _ => false };
        let muts = matches!(&src, Expr::MethodCall(m) if m.method == "iter_mut");
        if muts && !ad.is_empty() { self.bad("adapter on iter_mut") }
        let srcl = if muts { let Expr::MethodCall(m) = src else { unreachable!() }; let r = self.ex(*m.receiver); parse_quote!(crate::vp::vp_iter_mut(&mut #r)) } else { self.ex(src) };
        let it: Expr = if by_ref { srcl } else {
            let i = format_ident!("vp_it{}", k);
            if into && !muts { pre.push(parse_quote!(let mut #i = (#srcl).vp_loop_iter();)) } else { pre.push(parse_quote!(let mut #i = #srcl;)) }
            parse_quote!(#i)
        };
        let it_s = it.to_token_stream().to_string();
        let g = if muts { self.ghost(format!("let ghost vp_all{k} = {it_s}.cur(); let ghost vp_fin{k} = {it_s}.fin(); let ghost mut vp_n{k}: int = 0;")) } else { self.ghost(format!("let ghost vp_all{k} = {it_s}.rem(); let ghost mut vp_n{k}: int = 0;")) };
        pre.push(g);
        if let Some(h) = self.hint(&format!("before {}", k)) { pre.push(h) }
        let x = format_ident!("vp_x{}", k);
        let mut body: Vec<Stmt> = vec![];
        let g = if muts { self.ghost(format!("proof {{ vp_n{k} = vp_n{k} + 1; assert(vp_all{k}.skip(vp_n{k} - 1).skip(1) =~= vp_all{k}.skip(vp_n{k})); assert(vp_fin{k}.skip(vp_n{k} - 1).skip(1) =~= vp_fin{k}.skip(vp_n{k})); }}")) } else { self.ghost(format!("proof {{ vp_n{k} = vp_n{k} + 1; assert(vp_all{k}.skip(vp_n{k} - 1).skip(1) =~= vp_all{k}.skip(vp_n{k})); }}")) };
        body.push(g);
        if let Some(h) = self.hint(&format!("loop {} start", k)) { body.push(h) }
        self.env.push(HashMap::new());
        let mut cur: Expr = parse_quote!(#x);
        for (j, (n, f)) in ad.into_iter().enumerate() {
            let v = format_ident!("vp_y{}_{}", k, j);
            match n.as_str() {
                "enumerate" => {
                    let c = format_ident!("vp_i{}", k);
                    pre.push(parse_quote!(let mut #c: usize = 0;));
                    body.push(parse_quote!(let #v = (#c, #cur);));
                    body.push(parse_quote!(#c = crate::vp::inc(#c);));
                }
                "map" => { let e = self.apply_here(&f.unwrap(), cur, &mut body); body.push(parse_quote!(let #v = #e;)) }
                "cloned" => body.push(parse_quote!(let #v = (#cur).vp_owned();)),
                "filter" => { let e = self.apply(&f.unwrap(), parse_quote!(&#cur)); body.push(parse_quote!(if !#e { continue; })); body.push(parse_quote!(let #v = #cur;)) }
                "take_while" => { let e = self.apply(&f.unwrap(), parse_quote!(&#cur)); body.push(parse_quote!(if !#e { break; })); body.push(parse_quote!(let #v = #cur;)) }
                "filter_map" => {
                    let f = f.unwrap();
                    let f = match f { Expr::Closure(mut c) => { c.body = Box::new(returns_none(*c.body)); Expr::Closure(c) } f => f };
                    let e = self.apply_here(&f, cur, &mut body);
                    body.push(parse_quote!(let #v = match #e { Some(vp_o) => vp_o, None => { continue; } };))
                }
                _ => self.bad(format!("adapter {}", n))
            }
            cur = parse_quote!(#v);
        }
        let st = inner(self, cur);
        body.extend(st);
        if let Some(h) = self.hint(&format!("loop {} end", k)) { body.push(h) }
        self.env.pop();
        let leaves = body.iter().any(has_break);
        if muts {
            // an iterator that is left early gives back what it has not handed out
            let h = self.hint(&format!("loop {} break", k));
            let g = self.ghost(format!("proof {{ assert forall|vp_j: int| vp_n{k} <= vp_j < vp_all{k}.len() implies vp_fin{k}[vp_j] == vp_all{k}[vp_j] by {{ assert(vp_fin{k}.skip(vp_n{k})[vp_j - vp_n{k}] == vp_all{k}.skip(vp_n{k})[vp_j - vp_n{k}]); }} }}"));
            let stop: Expr = parse_quote!({ #it.vp_drop(); #g #h break; });
            for s in body.iter_mut() { stop_with(s, &stop) }
        }
        let mk = if muts { self.marker(k, Some((it.clone(), !leaves))) } else { self.marker(k, Some((it.clone(), !leaves))) };
        if muts { let n = self.ghosts.len() - 1; self.ghosts[n] = self.ghosts[n].replacen("#iter", "#mutiter", 1) }
        pre.push(parse_quote!(loop { #mk match #it.vp_next() { None => { break; } Some(#x) => { #(#body)* } } }));
        if let Some(h) = self.hint(&format!("after {}", k)) { pre.push(h) }
        pre
    }
    /// like apply, but closure parameters stay visible to the statements that follow
    fn apply_here(&mut self, f: &Expr, arg: Expr, out: &mut Vec<Stmt>) -> Expr {
        match self.closure(f) {
            Some((ps, body)) => {
                let mut p = self.pat(ps[0].clone(), None);
                if let Pat::Type(t) = &p { p = (*t.pat).clone() }
                out.push(parse_quote!(let #p = #arg;));
                self.ex(body)
            }
            None => self.apply(f, arg)
        }
    }
    fn terminal(&mut self, m: &ExprMethodCall, turbo: Option<Type>) -> Expr {
        let n = m.method.to_string();
        let (src, ad) = self.chain(&m.receiver);
        let k = self.nloops;
        let out = format_ident!("vp_out{}", k);
        match n.as_str() {
            "collect" => {
                let flag = self.c.flags.get(&format!("collect{}", k)).cloned();
                let t: String = flag.unwrap_or_else(|| turbo.map(|t| t.to_token_stream().to_string()).unwrap_or_else(|| "Vec<_>".into())).replace(' ', "");
                let (res, inner_t) = match t.strip_prefix("Result<") { Some(r) => (true, r.to_string()), None => (false, t.clone()) };
                let kind = if inner_t.starts_with("LinkedHashMap") { "lhm" } else if inner_t.starts_with("HashMap") { "hm" } else if inner_t.starts_with("String") { "str" } else { "vec" };
                let init: Stmt = match kind { "lhm" => parse_quote!(let mut #out = crate::vp::LinkedHashMap::new();), "hm" => parse_quote!(let mut #out = crate::vp::HashMap::new();), "str" => parse_quote!(let mut #out = String::new();), _ => parse_quote!(let mut #out = Vec::new();) };
                let o2 = out.clone();
                if ad.is_empty() && !res && matches!(kind, "vec" | "str") && !self.c.loops.contains_key(&k) {
                    // a plain copy: what has been collected is what has been handed out
                    self.c.loops.insert(k, format!("vp_out{k}@ == vp_all{k}.take(vp_n{k}),\n"));
                    self.c.hints.entry(format!("loop {} end", k)).or_default().push_str(&format!("proof {{ assert(vp_all{k}.take(vp_n{k}) =~= vp_all{k}.take(vp_n{k} - 1).push(vp_x{k})); }}\n"));
                    let h = self.c.hints.entry(format!("after {}", k)).or_default();
                    *h = format!("proof {{ assert(vp_all{k}.take(vp_n{k}) =~= vp_all{k}); }}\n{}", h);
                    let h = self.c.hints.entry(format!("before {}", k)).or_default();
                    *h = format!("proof {{ assert(vp_all{k}.take(0) =~= Seq::empty()); }}\n{}", h);
                }
                let st = self.iterate(src, ad, false, &mut move |_me, item| {
                    let mut v: Vec<Stmt> = vec![];
                    let item: Expr = if res { v.push(parse_quote!(let vp_r = match #item { Ok(vp_o) => vp_o, Err(_) => { return Err(crate::vp::VpErr); } };)); parse_quote!(vp_r) } else { item };
                    match kind { "lhm" | "hm" => { v.push(parse_quote!(let (vp_k, vp_v) = #item;)); v.push(parse_quote!(#o2.insert(vp_k, vp_v);)) } "str" => v.push(parse_quote!(crate::vp::VpPush::vp_push(&mut #o2, #item);)), _ => v.push(parse_quote!(#o2.push(#item);)) }
                    v
                });
                // a collected Result is Ok here: an Err has returned already
                if res { parse_quote!(crate::vp::okv({ #init #(#st)* #out })) } else { parse_quote!({ #init #(#st)* #out }) }
            }
            "fold" | "try_fold" => {
                let init = self.ex(m.args[0].clone());
                let Some((ps, body)) = self.closure(&m.args[1]) else { self.bad("fold"); return parse_quote!(()) };
                self.env.push(HashMap::new());
                let Pat::Ident(acc) = (match &ps[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }) else { self.bad("fold accumulator"); return parse_quote!(()) };
                let acc = acc.ident;
                self.bind(&acc.to_string(), parse_quote!(_));
                let tr = n == "try_fold";
                let p1 = ps[1].clone();
                let st = self.iterate(src, ad, false, &mut |me, item| {
                    let mut v: Vec<Stmt> = vec![];
                    let mut p = me.pat(p1.clone(), None);
                    if let Pat::Type(t) = &p { p = (*t.pat).clone() }
                    v.push(parse_quote!(let #p = #item;));
                    let mut b = match body.clone() { Expr::Block(b) => b.block.stmts, e => vec![Stmt::Expr(e, None)] };
                    let tail = match b.pop() { Some(Stmt::Expr(e, None)) => e, _ => { me.bad("fold body"); return v } };
                    for s in b { me.stmt(s, &mut v) }
                    let tail = if tr { match tail { Expr::Call(c) if c.func.to_token_stream().to_string() == "Ok" => c.args[0].clone(), _ => { me.bad("try_fold result"); return v } } } else { tail };
                    if tail.to_token_stream().to_string() != acc.to_string() { let t = me.ex(tail); v.push(parse_quote!(#acc = #t;)) }
                    v
                });
                self.env.pop();
                let r: Expr = parse_quote!({ let mut #acc = #init; #(#st)* #acc });
                if tr { parse_quote!(crate::vp::okv(#r)) } else { r }
            }
            "for_each" => {
                let f = m.args[0].clone();
                let st = self.iterate(src, ad, false, &mut |me, item| { let e = me.apply(&f, item); vec![Stmt::Expr(e, Some(Default::default()))] });
                parse_quote!({ #(#st)* })
            }
            "all" | "any" | "find_map" | "find" => {
                let f = m.args[0].clone();
                let n2 = n.clone();
                let o2 = out.clone();
                let st = self.iterate(src, ad, false, &mut |me, item| {
                    let o2 = &o2;
                    match n2.as_str() {
                        "all" => { let e = me.apply(&f, item); vec![parse_quote!(if !#e { #o2 = false; break; })] }
                        "any" => { let e = me.apply(&f, item); vec![parse_quote!(if #e { #o2 = true; break; })] }
                        "find" => { let e = me.apply(&f, parse_quote!(&#item)); vec![parse_quote!(if #e { #o2 = Some(#item); break; })] }
                        _ => { let e = me.apply(&f, item); vec![parse_quote!(#o2 = #e;), parse_quote!(if #o2.is_some() { break; })] }
                    }
                });
                let init: Expr = match n.as_str() { "all" => parse_quote!(true), "any" => parse_quote!(false), _ => parse_quote!(None) };
                match self.c.flags.get(&format!("out{}", k)).cloned() { Some(t) => { let t: Type = parse_str(&t).expect("out type"); parse_quote!({ let mut #out: #t = #init; #(#st)* #out }) } None => parse_quote!({ let mut #out = #init; #(#st)* #out }) }
            }
            _ => unreachable!()
        }
    }
}
fn idents(p: &Pat) -> BTreeSet<String> {
    struct N(BTreeSet<String>);
    impl<'b> visit::Visit<'b> for N { fn visit_pat_ident(&mut self, i: &'b PatIdent) { self.0.insert(i.ident.to_string()); } }
    let mut n = N(Default::default());
    visit::Visit::visit_pat(&mut n, p);
    n.0
}
/// distributes a method call over the branches of a conditional
fn into_branches(r: &mut Expr, m: &ExprMethodCall) {
    fn tail(b: &mut Block, m: &ExprMethodCall) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            match e {
                Expr::Break(_) | Expr::Continue(_) | Expr::Return(_) => {}
                e => { let mut c = m.clone(); let x = match &*e { Expr::Reference(r) => (*r.expr).clone(), e => e.clone() }; c.receiver = Box::new(parse_quote!(#x)); *e = Expr::MethodCall(c) }
            }
        }
    }
    if let Expr::If(i) = r {
        tail(&mut i.then_branch, m);
        if let Some((_, x)) = &mut i.else_branch { match &mut **x { Expr::Block(b) => tail(&mut b.block, m), x => into_branches(x, m) } }
    }
}
/// `impl Iterator`, taken by value
pub fn is_iter_type(t: &Type) -> bool { matches!(t, Type::ImplTrait(x) if x.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(t) if t.path.segments.last().map(|s| s.ident == "Iterator").unwrap_or(false)))) }
fn strip_paren(e: &Expr) -> Expr { match e { Expr::Paren(p) => strip_paren(&p.expr), e => e.clone() } }
/// T of Option<T>, Vec<T>, ...
fn targ(t: &Type) -> Option<Type> {
    if let Type::Path(p) = t { let l = p.path.segments.last()?; if let PathArguments::AngleBracketed(a) = &l.arguments { return a.args.iter().find_map(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None }) } }
    None
}
/// `return None;` inside a filter_map closure skips the item
fn returns_none(e: Expr) -> Expr {
    struct V;
    impl visit_mut::VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Return(r) = e { if r.expr.as_ref().map(|x| x.to_token_stream().to_string() == "None").unwrap_or(false) { *e = parse_quote!(continue); return } }
            if let Expr::Closure(_) = e { return }
            visit_mut::visit_expr_mut(self, e)
        }
    }
    let mut e = e;
    visit_mut::VisitMut::visit_expr_mut(&mut V, &mut e);
    e
}
fn stop_with(s: &mut Stmt, stop: &Expr) {
    struct V<'c>(&'c Expr);
    impl<'c> visit_mut::VisitMut for V<'c> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e { Expr::Break(_) => *e = self.0.clone(), Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {} e => visit_mut::visit_expr_mut(self, e) }
        }
    }
    visit_mut::VisitMut::visit_stmt_mut(&mut V(stop), s);
}
/// does the statement leave the loop it stands in?
fn has_break(s: &Stmt) -> bool {
    struct V(bool);
    impl<'b> visit::Visit<'b> for V {
        fn visit_expr(&mut self, e: &'b Expr) {
            match e { Expr::Break(_) => self.0 = true, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {} e => visit::visit_expr(self, e) }
        }
    }
    let mut v = V(false);
    visit::Visit::visit_stmt(&mut v, s);
    v.0
}
#[allow(dead_code)]
fn unused() { let _ = quote!(); }
