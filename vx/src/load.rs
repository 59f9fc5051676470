//! Reads the crate: module tree, use maps, type and function definitions.
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use syn::*;

pub type Abs = Vec<String>;

#[derive(Default)]
pub struct Module { pub path: Abs, pub uses: HashMap<String, Abs>, pub globs: Vec<Abs>, pub subs: Vec<String>, pub types: BTreeMap<String, Item>, pub fns: Vec<String>, pub vals: Vec<String> }

#[derive(Clone)]
pub struct FnDef {
    pub key: String,
    pub module: Abs,
    pub self_ty: Option<Type>,
    pub impl_generics: Generics,
    pub trait_name: Option<String>,
    pub trait_arg: Option<Type>,
    pub assoc: HashMap<String, Type>,
    pub sig: Signature,
    pub block: Block,
    /// names of nested functions in scope: source name -> key
    pub nested: HashMap<String, String>,
    pub hoisted: bool,
}

#[derive(Default)]
pub struct Crate { pub modules: BTreeMap<String, Module>, pub fns: BTreeMap<String, FnDef> }

pub fn key(p: &[String]) -> String { p.join("::") }
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && quote::quote!(#a).to_string().contains("test") || a.path().is_ident("test"))
}

pub fn load(dir: &str) -> std::result::Result<Crate, String> {
    let mut c = Crate::default();
    let root = Path::new(dir);
    file(&mut c, &root.join("lib.rs"), vec![], root)?;
    let keys: Vec<String> = c.fns.keys().cloned().collect();
    for k in keys { nested(&mut c, &k)?; }
    Ok(c)
}
fn file(c: &mut Crate, f: &Path, path: Abs, dir: &Path) -> std::result::Result<(), String> {
    let s = std::fs::read_to_string(f).map_err(|e| format!("{}: {}", f.display(), e))?;
    let ast = syn::parse_file(&s).map_err(|e| format!("{}: {}", f.display(), e))?;
    items(c, ast.items, path, dir)
}
fn items(c: &mut Crate, its: Vec<Item>, path: Abs, dir: &Path) -> std::result::Result<(), String> {
    let mut m = Module { path: path.clone(), ..Default::default() };
    let mut later = vec![];
    let mut fns = vec![];
    for it in its {
        match it {
            Item::Mod(im) => {
                if is_test(&im.attrs) { continue }
                m.subs.push(im.ident.to_string());
                later.push(im);
            }
            Item::Use(u) => { if !is_test(&u.attrs) { uses(&u.tree, vec![], &mut m) } }
            Item::Struct(s) => { m.types.insert(s.ident.to_string(), Item::Struct(s)); }
            Item::Enum(s) => { m.types.insert(s.ident.to_string(), Item::Enum(s)); }
            Item::Type(s) => { m.types.insert(s.ident.to_string(), Item::Type(s)); }
            Item::Const(s) => { m.types.insert(s.ident.to_string(), Item::Const(s)); }
            Item::Static(s) => { m.vals.push(s.ident.to_string()); }
            Item::Fn(f) => {
                if is_test(&f.attrs) { continue }
                m.fns.push(f.sig.ident.to_string());
                let mut k = path.clone(); k.push(f.sig.ident.to_string());
                fns.push(FnDef { key: key(&k), module: path.clone(), self_ty: None, impl_generics: Default::default(), trait_name: None, trait_arg: None, assoc: Default::default(), sig: f.sig, block: *f.block, nested: Default::default(), hoisted: false });
            }
            Item::Impl(im) => {
                if is_test(&im.attrs) { continue }
                fns.extend(impl_fns(im, &path));
            }
            _ => {}
        }
    }
    c.modules.insert(key(&path), m);
    for f in fns {
        let mut k = f.key.clone();
        if c.fns.contains_key(&k) || f.trait_name.as_deref() == Some("Debug") {
            let t = f.trait_name.clone().unwrap_or_default();
            let a = f.trait_arg.as_ref().map(|t| type_name(t)).unwrap_or_default();
            k = format!("{}@{}{}", k, t, if a.is_empty() { a } else { format!("_{}", a) });
        }
        let mut f = f; f.key = k.clone();
        c.fns.insert(k, f);
    }
    for im in later {
        let mut p = path.clone(); p.push(im.ident.to_string());
        let sub = dir.join(im.ident.to_string());
        match im.content {
            Some((_, its)) => items(c, its, p, &sub)?,
            None => {
                let a = dir.join(format!("{}.rs", im.ident));
                let b = sub.join("mod.rs");
                if a.exists() { file(c, &a, p, &sub)? } else { file(c, &b, p, &sub)? }
            }
        }
    }
    Ok(())
}
fn impl_fns(im: ItemImpl, path: &Abs) -> Vec<FnDef> {
    let mut fns = vec![];
    let mut assoc = HashMap::new();
    for i in &im.items { if let ImplItem::Type(t) = i { assoc.insert(t.ident.to_string(), t.ty.clone()); } }
    let (tn, ta) = match &im.trait_ {
        None => (None, None),
        Some((_, p, _)) => {
            let l = p.segments.last().unwrap();
            let arg = if let PathArguments::AngleBracketed(a) = &l.arguments { a.args.iter().find_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None }) } else { None };
            (Some(l.ident.to_string()), arg)
        }
    };
    let sname = type_name(&im.self_ty);
    for i in im.items { if let ImplItem::Fn(f) = i {
        let mut k = path.clone(); k.push(sname.clone()); k.push(f.sig.ident.to_string());
        fns.push(FnDef { key: key(&k), module: path.clone(), self_ty: Some((*im.self_ty).clone()), impl_generics: im.generics.clone(), trait_name: tn.clone(), trait_arg: ta.clone(), assoc: assoc.clone(), sig: f.sig, block: f.block, nested: Default::default(), hoisted: false });
    } }
    fns
}
pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("ref_{}", type_name(&r.elem)),
        _ => "anon".into()
    }
}
fn uses(t: &UseTree, mut pre: Abs, m: &mut Module) {
    match t {
        UseTree::Path(p) => { pre.push(p.ident.to_string()); uses(&p.tree, pre, m) }
        UseTree::Name(n) => { let s = n.ident.to_string(); if s == "self" { let l = pre.last().unwrap().clone(); m.uses.insert(l, pre); } else { pre.push(s.clone()); m.uses.insert(s, pre); } }
        UseTree::Rename(r) => { let s = r.ident.to_string(); if s != "self" { pre.push(s) } m.uses.insert(r.rename.to_string(), pre); }
        UseTree::Glob(_) => m.globs.push(pre),
        UseTree::Group(g) => for t in &g.items { uses(t, pre.clone(), m) }
    }
}
/// nested functions become functions of their own
fn nested(c: &mut Crate, k: &str) -> std::result::Result<(), String> {
    let mut f = c.fns[k].clone();
    let mut out: Vec<FnDef> = vec![];
    let mut stmts = vec![];
    let mut map = f.nested.clone();
    for s in std::mem::take(&mut f.block.stmts) {
        match s {
            Stmt::Item(Item::Fn(i)) => {
                let kk = format!("{}::{}", k, i.sig.ident);
                map.insert(i.sig.ident.to_string(), kk.clone());
                out.push(FnDef { key: kk, module: f.module.clone(), self_ty: f.self_ty.clone(), impl_generics: f.impl_generics.clone(), trait_name: None, trait_arg: None, assoc: Default::default(), sig: i.sig, block: *i.block, nested: Default::default(), hoisted: true });
            }
            // types declared inside a function move to its module
            Stmt::Item(it @ (Item::Enum(_) | Item::Struct(_))) => {
                let n = match &it { Item::Enum(e) => e.ident.to_string(), Item::Struct(e) => e.ident.to_string(), _ => unreachable!() };
                let m = c.modules.get_mut(&key(&f.module)).unwrap();
                if m.types.contains_key(&n) || m.uses.contains_key(&n) { stmts.push(Stmt::Item(it)) } else { m.types.insert(n, it); }
            }
            // and so do their methods
            Stmt::Item(Item::Impl(im)) if c.modules[&key(&f.module)].types.contains_key(&type_name(&im.self_ty)) => {
                for g in impl_fns(im, &f.module) { if c.fns.contains_key(&g.key) { return Err(format!("two functions {}", g.key)) } c.fns.insert(g.key.clone(), g); }
            }
            Stmt::Item(Item::Use(u)) => {
                let mut m = Module::default();
                uses(&u.tree, vec![], &mut m);
                let own = c.modules.get_mut(&key(&f.module)).unwrap();
                for (n, p) in m.uses { if own.types.contains_key(&n) || own.fns.contains(&n) || own.uses.get(&n).map(|q| q != &p).unwrap_or(false) { return Err(format!("use of {} inside a function", n)) } own.uses.insert(n, p); }
                own.globs.extend(m.globs);
            }
            s => stmts.push(s)
        }
    }
    f.block.stmts = stmts;
    f.nested = map.clone();
    c.fns.insert(k.to_string(), f);
    for mut n in out { n.nested = map.clone(); let kk = n.key.clone(); c.fns.insert(kk.clone(), n); nested(c, &kk)?; }
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res { Type(String), Fn(String), Module(String), External(Abs), Assoc(String, Vec<String>) }

impl Crate {
    fn modn(&self, p: &[String]) -> Option<&Module> { self.modules.get(&key(p)) }
    /// resolves a path written in module `m`
    pub fn resolve(&self, m: &Abs, segs: &[String]) -> Option<Res> {
        if segs.is_empty() { return None }
        let (base, rest): (Abs, &[String]) = match segs[0].as_str() {
            "crate" => (vec![], &segs[1..]),
            "self" => (m.clone(), &segs[1..]),
            "super" => { let mut b = m.clone(); b.pop(); let mut r = &segs[1..]; while !r.is_empty() && r[0] == "super" { b.pop(); r = &r[1..] } (b, r) }
            _ => return self.lookup(m, segs, 0, false)
        };
        if rest.is_empty() { return Some(Res::Module(key(&base))) }
        self.lookup(&base, rest, 0, true)
    }
    fn lookup(&self, m: &Abs, segs: &[String], depth: usize, inner: bool) -> Option<Res> {
        if depth > 20 { return None }
        let md = self.modn(m)?;
        let s = &segs[0];
        let mut abs = m.clone(); abs.push(s.clone());
        if md.types.contains_key(s) {
            return Some(if segs.len() == 1 { Res::Type(key(&abs)) } else { Res::Assoc(key(&abs), segs[1..].to_vec()) })
        }
        if segs.len() == 1 && md.fns.contains(s) { return Some(Res::Fn(key(&abs))) }
        if md.subs.contains(s) {
            return if segs.len() == 1 { Some(Res::Module(key(&abs))) } else { self.lookup(&abs, &segs[1..], depth + 1, true) }
        }
        if let Some(u) = md.uses.get(s) {
            let mut full = u.clone(); full.extend(segs[1..].iter().cloned());
            if full == segs && !inner && m.is_empty() { return Some(Res::External(full)) }
            let first = full[0].as_str();
            if matches!(first, "crate" | "self" | "super") { return self.resolve(m, &full) }
            if md.subs.contains(&full[0]) { return self.lookup(m, &full, depth + 1, true) }
            return Some(Res::External(full));
        }
        for g in &md.globs {
            let first = g[0].as_str();
            let base = if matches!(first, "crate" | "self" | "super") { match self.resolve(m, g) { Some(Res::Module(k)) => k, _ => continue } } else { continue };
            let b: Abs = if base.is_empty() { vec![] } else { base.split("::").map(|s| s.to_string()).collect() };
            if &b == m { continue }
            if let Some(r) = self.lookup(&b, segs, depth + 1, true) { return Some(r) }
        }
        if inner { return None }
        if segs.len() > 1 { return Some(Res::External(segs.to_vec())) }
        None
    }
    pub fn type_item(&self, k: &str) -> Option<&Item> {
        let (m, n) = match k.rfind("::") { Some(i) => (&k[..i], &k[i + 2..]), None => ("", k) };
        self.modules.get(m)?.types.get(n)
    }
    pub fn type_module(&self, k: &str) -> Abs { let i = k.rfind("::"); match i { Some(i) => k[..i].split("::").map(|s| s.to_string()).collect(), None => vec![] } }
}
