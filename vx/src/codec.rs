//! JSON codecs: what serde's derive macros make of a type, as a specification read off its declaration and attributes.
use crate::load::{Crate, FnDef, Res};
use crate::lower::Lower;
use crate::contracts::Contract;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

#[derive(Default)]
pub struct Keys(BTreeMap<String, usize>);
impl Keys { fn id(&mut self, s: &str) -> usize { let n = self.0.len() + 1; *self.0.entry(s.to_string()).or_insert(n) } pub fn listing(&self) -> Vec<(String, usize)> { self.0.iter().map(|(k, v)| (k.clone(), *v)).collect() } }

/// the serde attributes of an item, a field or a variant: name -> value
fn attrs(a: &[Attribute]) -> std::result::Result<BTreeMap<String, String>, String> {
    let mut m = BTreeMap::new();
    for x in a {
        if !x.path().is_ident("serde") { continue }
        let Meta::List(l) = &x.meta else { return Err("serde attribute".into()) };
        let mut cur: Vec<TokenTree> = vec![];
        let mut flush = |c: &mut Vec<TokenTree>| -> std::result::Result<(), String> {
            if c.is_empty() { return Ok(()) }
            let n = c[0].to_string();
            let v = match c.len() { 1 => String::new(), 3 => match syn::parse2::<LitStr>(c[2].clone().into()) { Ok(s) => s.value(), Err(_) => return Err(format!("serde attribute {}", n)) }, _ => return Err(format!("serde attribute {}", n)) };
            if !["rename", "rename_all", "with", "default", "skip_serializing_if", "flatten"].contains(&n.as_str()) { return Err(format!("serde attribute {}", n)) }
            if n == "default" && !v.is_empty() { return Err("serde default with a function".into()) }
            m.insert(n, v); c.clear(); Ok(())
        };
        for t in l.tokens.clone() { if let TokenTree::Punct(p) = &t { if p.as_char() == ',' { flush(&mut cur)?; continue } } cur.push(t) }
        flush(&mut cur)?;
    }
    Ok(m)
}
fn words(s: &str) -> Vec<String> {
    // snake_case or PascalCase into words
    let mut v: Vec<String> = vec![];
    if s.contains('_') || s.chars().all(|c| !c.is_uppercase()) { return s.split('_').map(|x| x.to_string()).collect() }
    for c in s.chars() { if c.is_uppercase() || v.is_empty() { v.push(c.to_lowercase().to_string()) } else { v.last_mut().unwrap().push(c) } }
    v
}
fn cap(s: &str) -> String { let mut c = s.chars(); match c.next() { Some(x) => x.to_uppercase().collect::<String>() + c.as_str(), None => String::new() } }
fn rename(rule: Option<&String>, s: &str, field: bool) -> std::result::Result<String, String> {
    let s = s.trim_start_matches("r#");
    let w = words(s);
    Ok(match rule.map(|s| s.as_str()) {
        None => s.to_string(),
        Some("camelCase") => w.iter().enumerate().map(|(i, x)| if i == 0 { x.clone() } else { cap(x) }).collect(),
        Some("PascalCase") => w.iter().map(|x| cap(x)).collect(),
        Some("snake_case") => if field { s.to_string() } else { w.join("_") },
        Some("SCREAMING_SNAKE_CASE") => w.join("_").to_uppercase(),
        Some("lowercase") => if field { s.to_string() } else { s.to_lowercase() },
        Some("UPPERCASE") => s.to_uppercase(),
        Some(r) => return Err(format!("rename_all = {}", r)),
    })
}
fn derives(a: &[Attribute], n: &str) -> bool { a.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().replace(['(', ')', ','], " ").split_whitespace().any(|w| w == n)) }

struct Field { path: String, name: String, key: usize, ty: String, with: Option<String>, skip: bool, default: bool, nested: Option<(String, Vec<Field>)> }

fn lower<'a>(krate: &'a Crate, t: &str) -> Lower<'a> {
    let f = FnDef { key: format!("type {}", t), module: krate.type_module(t), self_ty: None, impl_generics: Default::default(), trait_name: None, trait_arg: None, assoc: Default::default(), sig: parse_quote!(fn f()), block: parse_quote!({}), nested: Default::default(), hoisted: false };
    Lower::new(krate, f, Contract::default())
}

/// (text, types whose codecs are needed, functions whose contracts the codec rests on)
pub fn codec(krate: &Crate, t: &str, keys: &mut Keys) -> std::result::Result<(String, BTreeSet<String>, BTreeSet<String>), String> {
    let it = krate.type_item(t).ok_or(format!("codec: no type {}", t))?.clone();
    let ty = format!("crate::{}", t);
    let name = t.rsplit("::").next().unwrap().to_string();
    let mut deps = BTreeSet::new();
    let mut fns = BTreeSet::new();
    let ser = krate.fns.get(&format!("{}::serialize", t));
    let imp = |enc: &str, dec: &str, good: &str, rt: &str| -> String {
        // the trees of large types are kept out of sight where they are not needed
        let big = rt.len() > 2000;
        let m = match t.rfind("::") { Some(i) => format!("crate::{}", &t[..i]), None => "crate".into() };
        let (mut pre, mut lim) = (String::new(), "");
        let (mut e, mut d, mut g, mut r) = (enc.to_string(), dec.to_string(), good.to_string(), rt.to_string());
        if big {
            lim = "#[verifier::rlimit(200)] #[verifier::spinoff_prover] ";
            let own = |x: &str| x.replace("self.", "vp_s.");
            pre = format!("#[verifier::opaque] pub open spec fn enc_{name}(vp_s: {ty}) -> Option<J> {{ {} }}\n#[verifier::opaque] pub open spec fn dec_{name}(j: J) -> Option<{ty}> {{ {dec} }}\n#[verifier::opaque] pub open spec fn good_{name}(vp_s: {ty}) -> bool {{ {} }}\n", own(enc), own(good));
            e = format!("{m}::enc_{name}(*self)"); d = format!("{m}::dec_{name}(j)"); g = format!("{m}::good_{name}(*self)");
            r = format!("reveal({m}::enc_{name}); reveal({m}::good_{name}); {rt} reveal({m}::dec_{name});");
        }
        format!("{pre}impl VpCodec for {ty} {{\n    open spec fn enc(&self) -> Option<J> {{ {e} }}\n    open spec fn dec(j: J) -> Option<Self> {{ {d} }}\n    open spec fn absent() -> Option<Self> {{ None }}\n    open spec fn good(&self) -> bool {{ {g} }}\n    {lim}proof fn rt(&self) {{ {r} }}\n}}\n")
    };
    if ser.map(|f| f.trait_name.as_deref() == Some("Serialize")).unwrap_or(false) {
        fns.insert(format!("{}::serialize", t)); fns.insert(format!("{}::deserialize", t));
        return Ok((imp(&format!("crate::sp::enc__{name}(*self)"), &format!("crate::sp::dec__{name}(j)"), &format!("crate::sp::good__{name}(*self)"), &format!("crate::sp::rt__{name}(*self)")), deps, fns));
    }
    match it {
        Item::Enum(e) => {
            if e.variants.iter().any(|v| !v.fields.is_empty()) { return Err(format!("codec: {} has fields", t)) }
            let a = attrs(&e.attrs)?;
            let (mut enc, mut dec) = (String::new(), String::new());
            if derives(&e.attrs, "Serialize_repr") && derives(&e.attrs, "Deserialize_repr") {
                let mut next: i64 = 0;
                for v in &e.variants {
                    if !attrs(&v.attrs)?.is_empty() { return Err("attribute of a variant".into()) }
                    if let Some((_, d)) = &v.discriminant { next = d.to_token_stream().to_string().replace(' ', "").parse().map_err(|_| format!("codec: discriminant of {}", v.ident))?; }
                    enc.push_str(&format!("{ty}::{} => Some(J::Int({next})), ", v.ident));
                    dec.push_str(&format!("if n == {next} {{ Some({ty}::{}) }} else ", v.ident));
                    next += 1;
                }
                return Ok((imp(&format!("match *self {{ {enc} }}"), &format!("match j {{ J::Int(n) => {dec} {{ None }}, _ => None }}"), "true", ""), deps, fns));
            }
            if !derives(&e.attrs, "Serialize") || !derives(&e.attrs, "Deserialize") { return Err(format!("codec: {} is not serializable", t)) }
            for v in &e.variants {
                let va = attrs(&v.attrs)?;
                let n = match va.get("rename") { Some(r) => r.clone(), None => rename(a.get("rename_all"), &v.ident.to_string(), false)? };
                let id = keys.id(&n);
                enc.push_str(&format!("{ty}::{} => Some(J::Name({id})), ", v.ident));
                dec.push_str(&format!("if n == {id} {{ Some({ty}::{}) }} else ", v.ident));
            }
            Ok((imp(&format!("match *self {{ {enc} }}"), &format!("match j {{ J::Name(n) => {dec} {{ None }}, _ => None }}"), "true", ""), deps, fns))
        }
        Item::Struct(s) => {
            if let Fields::Unnamed(u) = &s.fields {
                if u.unnamed.len() != 1 || !derives(&s.attrs, "Serialize") || !derives(&s.attrs, "Deserialize") || !attrs(&s.attrs)?.is_empty() { return Err(format!("codec: {}", t)) }
                let mut lo = lower(krate, t);
                let ft = lo.ty(&u.unnamed[0].ty).to_token_stream().to_string();
                if !lo.errs.is_empty() { return Err(lo.errs.join("; ")) }
                deps.extend(lo.types.iter().cloned());
                return Ok((imp("self.0.enc()", &format!("match <{ft} as VpCodec>::dec(j) {{ Some(x) => Some({ty}(x)), None => None }}"), "self.0.good()", "self.0.rt();"), deps, fns));
            }
            let fs = fields(krate, t, &s, "self", keys, &mut deps, &mut fns)?;
            let mut flat: Vec<&Field> = vec![];
            fn all<'b>(fs: &'b [Field], out: &mut Vec<&'b Field>) { for f in fs { match &f.nested { Some((_, n)) => all(n, out), None => out.push(f) } } }
            all(&fs, &mut flat);
            let mut seen = BTreeSet::new();
            for f in &flat { if !seen.insert(f.key) { return Err(format!("codec: {} has two fields of one name", t)) } }
            let enc1 = |f: &Field| match &f.with { Some(w) => format!("crate::sp::enc__{}({})", w, f.path), None => format!("{}.enc()", f.path) };
            let dom = flat.iter().map(|f| if f.skip { format!("(k == {} && {} is Some)", f.key, f.path) } else { format!("k == {}", f.key) }).collect::<Vec<_>>().join(" || ");
            let mut val = String::new();
            for f in &flat { val.push_str(&format!("if k == {} {{ {}->0 }} else ", f.key, enc1(f))) }
            let okk = flat.iter().map(|f| format!("{} is Some", enc1(f))).collect::<Vec<_>>().join(" && ");
            let dec1 = |f: &Field| match &f.with { Some(w) => format!("(if m.dom().contains({k}) {{ crate::sp::dec__{w}(m[{k}]) }} else {{ None }})", k = f.key), None => format!("jget::<{}>(m, {})", f.ty, f.key) };
            for f in &flat { if f.default && !f.ty.starts_with("Option") { return Err(format!("codec: default of {}", f.name)) } }
            let okd = flat.iter().map(|f| format!("{} is Some", dec1(f))).collect::<Vec<_>>().join(" && ");
            fn lit(fs: &[Field], dec1: &dyn Fn(&Field) -> String) -> String { fs.iter().map(|f| match &f.nested { Some((n, x)) => format!("{}: {} {{ {} }}", f.name, n, lit(x, dec1)), None => format!("{}: {}->0", f.name, dec1(f)) }).collect::<Vec<_>>().join(", ") }
            let body = lit(&fs, &dec1);
            let good = flat.iter().map(|f| match &f.with { Some(w) => format!("crate::sp::good__{}({})", w, f.path), None => format!("{}.good()", f.path) }).collect::<Vec<_>>().join(" && ");
            let big = flat.len() > 12;
            let mut rt: String = if big { String::new() } else { flat.iter().map(|f| match &f.with { Some(w) => format!("crate::sp::rt__{}({}); ", w, f.path), None => format!("{}.rt(); ", f.path) }).collect() };
            rt.push_str("if let Some(J::Obj(m)) = self.enc() { ");
            for f in &flat {
                let there = if f.skip { format!("if {} is Some {{ assert(m.dom().contains({k}) && m[{k}] == {}->0); }} else {{ assert(!m.dom().contains({k})); }} ", f.path, enc1(f), k = f.key) } else { format!("assert(m.dom().contains({k}) && m[{k}] == {}->0); ", enc1(f), k = f.key) };
                if big {
                    let r = match &f.with { Some(w) => format!("crate::sp::rt__{}({}); ", w, f.path), None => format!("{}.rt(); ", f.path) };
                    rt.push_str(&format!("assert({} == Some({})) by {{ {r} {there} }} ", dec1(f), f.path));
                } else { rt.push_str(&there) }
            }
            rt.push('}');
            Ok((imp(&format!("if {okk} {{ Some(J::Obj(IMap::new(|k: int| {dom}, |k: int| {val} {{ J::Null }}))) }} else {{ None }}"),
                &format!("match j {{ J::Obj(m) => if {okd} {{ Some({ty} {{ {body} }}) }} else {{ None }}, _ => None }}"), &good, &rt), deps, fns))
        }
        _ => Err(format!("codec: {}", t))
    }
}
fn fields(krate: &Crate, t: &str, s: &ItemStruct, base: &str, keys: &mut Keys, deps: &mut BTreeSet<String>, fns: &mut BTreeSet<String>) -> std::result::Result<Vec<Field>, String> {
    if !derives(&s.attrs, "Serialize") || !derives(&s.attrs, "Deserialize") { return Err(format!("codec: {} is not serializable", t)) }
    let a = attrs(&s.attrs)?;
    for k in a.keys() { if k != "rename_all" { return Err(format!("codec: attribute {} of {}", k, t)) } }
    let mut out = vec![];
    for f in &s.fields {
        let fa = attrs(&f.attrs)?;
        let id = f.ident.as_ref().unwrap().to_string();
        let path = format!("{}.{}", base, id);
        let mut lo = lower(krate, t);
        let ft = lo.ty(&f.ty);
        if !lo.errs.is_empty() { return Err(lo.errs.join("; ")) }
        let key = match fa.get("rename") { Some(r) => r.clone(), None => rename(a.get("rename_all"), &id, true)? };
        if fa.contains_key("flatten") {
            let k = lo.tkey(&ft).ok_or("flatten")?;
            let Some(Item::Struct(n)) = krate.type_item(&k).cloned() else { return Err("flatten".into()) };
            let x = fields(krate, &k, &n, &path, keys, deps, fns)?;
            out.push(Field { path, name: id, key: 0, ty: String::new(), with: None, skip: false, default: false, nested: Some((format!("crate::{}", k), x)) });
            continue;
        }
        let with = match fa.get("with") {
            Some(w) => {
                let segs: Vec<String> = w.split("::").map(|s| s.to_string()).collect();
                let Some(Res::Module(m)) = krate.resolve(&krate.type_module(t), &segs) else { return Err(format!("codec: with = {}", w)) };
                fns.insert(format!("{}::serialize", m)); fns.insert(format!("{}::deserialize", m));
                Some(m.rsplit("::").next().unwrap().to_string())
            }
            None => { deps.extend(lo.types.iter().cloned()); None }
        };
        let skip = match fa.get("skip_serializing_if").map(|s| s.as_str()) { None => false, Some("Option::is_none") => true, Some(x) => return Err(format!("codec: skip_serializing_if {}", x)) };
        let ty = ft.to_token_stream().to_string();
        if skip && !ty.starts_with("Option") { return Err("codec: skip_serializing_if".into()) }
        let n = keys.id(&key);
        out.push(Field { path, name: id, key: n, ty, with, skip, default: fa.contains_key("default"), nested: None });
    }
    Ok(out)
}
#[allow(dead_code)]
fn unused(_: TokenStream) {}
