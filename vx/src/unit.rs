//! Assembles one verification unit: the listed functions with bodies, the functions they call as contracts, the types they use.
use crate::contracts::{self, Contract};
use crate::load::{self, key, Crate, FnDef};
use crate::lower::{hoisted_name, Lower};
use crate::{codec, macros, print};
use quote::{quote, ToTokens};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::*;

#[derive(Default)]
struct UnitFile { codecs: Vec<String>, verify: Vec<String>, spec: String, types: Vec<String>, trusted: Vec<String> }

fn unit_file(dir: &str, name: &str) -> std::result::Result<UnitFile, String> {
    let s = std::fs::read_to_string(format!("{}/units/{}.vu", dir, name)).map_err(|e| format!("unit {}: {}", name, e))?;
    let mut u = UnitFile::default();
    let mut in_spec = false;
    for l in s.lines() {
        if in_spec { u.spec.push_str(l); u.spec.push('\n'); continue }
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') { continue }
        let (w, a) = match l.split_once(' ') { Some((a, b)) => (a, b.trim()), None => (l, "") };
        match w {
            "verify" => u.verify.push(a.into()),
            "type" => u.types.push(a.into()),
            "codec" => u.codecs.push(a.into()),
            "assume" => u.trusted.push(a.into()),
            "include" => { let t = std::fs::read_to_string(format!("{}/spec/{}.rs", dir, a)).map_err(|e| format!("{}: {}", a, e))?; u.spec.push_str(&t); u.spec.push('\n') }
            // statements proved in another unit that includes them: here their proofs are not repeated
            "borrow" => { let t = std::fs::read_to_string(format!("{}/spec/{}.rs", dir, a)).map_err(|e| format!("{}: {}", a, e))?; u.spec.push_str(&format!("\n{}", t).replace("\npub proof fn", "\n#[verifier::external_body] pub proof fn")); u.spec.push('\n') }
            "spec" => in_spec = true,
            _ => return Err(format!("unit {}: line {}", name, l))
        }
    }
    Ok(u)
}

struct Emitted { key: String, module: String, owner: Option<String>, kind: Kind, text: String }
#[derive(Clone, PartialEq)]
enum Kind { Free, Inherent, DefaultTrait, IterTrait(String) }

pub fn run(src: &str, vdir: &str, unit: &str, out: &str, extra: Option<&str>) -> std::result::Result<String, String> {
    let krate = load::load(src)?;
    let contracts = contracts::load(vdir)?;
    let u = unit_file(vdir, unit)?;
    // extra: comma separated functions that are only assumed here (their text was not accepted); or "vacuous:KEY"
    let mut demoted: BTreeSet<String> = Default::default();
    let mut vacuous: BTreeSet<String> = Default::default();
    for x in extra.unwrap_or("").split(',').filter(|x| !x.is_empty()) { match x.strip_prefix("vacuous:") { Some(k) => { vacuous.insert(k.into()); } None => { demoted.insert(x.into()); } } }

    let mut types: BTreeSet<String> = u.types.iter().cloned().collect();
    let mut todo: Vec<(String, bool)> = u.verify.iter().map(|k| (k.clone(), true)).collect();
    // codecs of serialized types, read off their declarations
    let mut keys = codec::Keys::default();
    let mut codecs: BTreeMap<String, String> = Default::default();
    let mut ctodo: Vec<String> = u.codecs.clone();
    while let Some(t) = ctodo.pop() {
        if codecs.contains_key(&t) { continue }
        let (txt, deps, fs) = codec::codec(&krate, &t, &mut keys)?;
        codecs.insert(t.clone(), txt);
        types.insert(t);
        ctodo.extend(deps);
        for k in fs { if !u.verify.contains(&k) { todo.push((k, false)) } }
    }
    for k in &u.trusted { todo.push((k.clone(), false)) }
    let mut done: BTreeMap<String, bool> = Default::default();
    let mut emitted: Vec<Emitted> = vec![];
    let mut report: BTreeMap<String, serde_json::Value> = Default::default();
    let verify: BTreeSet<String> = u.verify.iter().cloned().collect();
    // copies of functions for a closure are there once the caller has been read
    let mut specials: BTreeMap<String, FnDef> = Default::default();
    let mut waiting: Vec<String> = vec![];
    loop {
        let (k, v) = match todo.pop() { Some(x) => x, None => match waiting.pop() { Some(k) => (k, true), None => break } };
        if done.contains_key(&k) { continue }
        if !krate.fns.contains_key(&k) && !specials.contains_key(&k) && k.contains('@') && !todo.is_empty() { waiting.push(k); continue }
        let found = krate.fns.get(&k).or_else(|| specials.get(&k)).cloned();
        let Some(f) = found.as_ref() else {
            done.insert(k.clone(), false);
            report.insert(k.clone(), json!({"status": "missing"}));
            continue;
        };
        let c = contracts.get(&k).cloned();
        done.insert(k.clone(), v);
        let mut reason: Option<String> = None;
        let mut info = serde_json::Map::new();
        if v && demoted.contains(&k) { reason = Some("not accepted by the verifier's front end".into()) }
        if v && reason.is_none() {
            match emit(&krate, f, c.clone(), true, vacuous.contains(&k), &|k| verify.contains(k) || contracts.contains_key(k)) {
                Ok(e) => {
                    types.extend(e.types.iter().cloned());
                    for s in &e.specials { specials.insert(s.key.clone(), s.clone()); }
                    let mut unc = vec![];
                    for d in &e.fns {
                        let (d, sure) = match d.strip_prefix('?') { Some(d) => (d.to_string(), false), None => (d.clone(), true) };
                        if verify.contains(&d) { if !done.contains_key(&d) { todo.push((d.clone(), true)) } }
                        else if contracts.contains_key(&d) { todo.push((d.clone(), false)) }
                        else if sure { unc.push(d.clone()); todo.push((d.clone(), false)) }
                    }
                    info.insert("status".into(), json!("verify"));
                    info.insert("loops".into(), json!(e.nloops));
                    info.insert("shape".into(), json!(e.shape));
                    info.insert("calls".into(), json!(e.fns));
                    info.insert("dropped".into(), json!(e.dropped));
                    if !unc.is_empty() { info.insert("uncontracted".into(), json!(unc)); }
                    if let Some(n) = c.as_ref().and_then(|c| c.nloops) { if n != e.nloops { info.insert("loops_changed".into(), json!([n, e.nloops])); } }
                    if c.is_none() { info.insert("nocontract".into(), json!(true)); }
                    report.insert(k.clone(), info.into());
                    emitted.push(e.item);
                    continue;
                }
                Err(m) => reason = Some(m)
            }
        }
        match emit(&krate, f, c.clone(), false, false, &|_| true) {
            Ok(e) => {
                types.extend(e.types.iter().cloned());
                emitted.push(e.item);
                if v { report.insert(k.clone(), json!({"status": "unsupported", "reason": reason.unwrap_or_default()})); }
                else { report.insert(k.clone(), json!({"status": if c.is_some() { "assumed" } else { "uncontracted" }})); }
            }
            Err(m) => { report.insert(k.clone(), json!({"status": "unsupported", "reason": m})); }
        }
    }
    // types
    let mut tdone: BTreeMap<String, String> = Default::default();
    let mut opaque: Vec<String> = vec![];
    loop {
        let Some(t) = types.iter().find(|t| !tdone.contains_key(*t)).cloned() else { break };
        let (txt, deps, op) = emit_type(&krate, &t);
        if op { opaque.push(t.clone()) }
        tdone.insert(t, txt);
        types.extend(deps);
    }
    // module tree
    #[derive(Default)]
    struct Mod { subs: BTreeMap<String, Mod>, text: Vec<(String, String)> }
    let mut root = Mod::default();
    fn at<'a>(m: &'a mut Mod, p: &str) -> &'a mut Mod { let mut m = m; for s in p.split("::").filter(|s| !s.is_empty()) { m = m.subs.entry(s.to_string()).or_default() } m }
    for (t, txt) in &tdone { let m = match t.rfind("::") { Some(i) => &t[..i], None => "" }; at(&mut root, m).text.push((String::new(), txt.clone())); if let Some(c) = codecs.get(t) { at(&mut root, m).text.push((String::new(), c.clone())) } }
    // inherent methods in the order of their keys; one impl per function keeps positions simple
    emitted.sort_by(|a, b| a.key.cmp(&b.key));
    for e in &emitted {
        let txt = match (&e.kind, &e.owner) {
            (Kind::Free, _) | (_, None) => e.text.clone(),
            (Kind::Inherent, Some(o)) => format!("{} {{\n{}}}\n", o, e.text),
            (Kind::DefaultTrait, Some(o)) => format!("{} {{\n{}}}\n", o, e.text),
            (Kind::IterTrait(extra), Some(o)) => format!("{} {{\n{}{}}}\n", o, extra, e.text),
        };
        at(&mut root, &e.module).text.push((e.key.clone(), txt));
    }
    let prelude = std::fs::read_to_string(format!("{}/prelude.rs", vdir)).map_err(|e| e.to_string())?;
    let mut o = String::new();
    o.push_str("#![allow(unused, dead_code, non_snake_case, non_camel_case_types, unreachable_code, unused_parens, unused_braces)]\nuse vstd::prelude::*;\nverus! {\npub mod vp {\n");
    o.push_str(&prelude);
    o.push_str("}\npub mod sp {\nuse vstd::prelude::*; use vstd::view::View as VpViewTrait; use crate::vp::*;\n");
    let spec_line = o.lines().count() + 1;
    o.push_str(&u.spec);
    o.push_str("}\n");
    let spec_end = o.lines().count();
    let mut lines: BTreeMap<String, (usize, usize)> = Default::default();
    fn put(m: &Mod, o: &mut String, lines: &mut BTreeMap<String, (usize, usize)>) {
        for (k, t) in &m.text { let a = o.lines().count() + 1; o.push_str(t); if !o.ends_with('\n') { o.push('\n') } if !k.is_empty() { lines.insert(k.clone(), (a, o.lines().count())); } }
        for (n, s) in &m.subs { let n = if matches!(n.as_str(), "type") { format!("r#{}", n) } else { n.clone() }; o.push_str(&format!("pub mod {} {{\nuse vstd::prelude::*; use vstd::view::View as VpViewTrait; use crate::vp::*; use crate::sp::*;\n", n)); put(s, o, lines); o.push_str("}\n") }
    }
    // the numbers standing for object keys and variant names
    o.push_str("pub mod nm {\nuse vstd::prelude::*;\n");
    for (k, n) in keys.listing() { if k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') { o.push_str(&format!("pub open spec fn k_{}() -> int {{ {} }}\n", k, n)) } }
    o.push_str("}\n");
    if !root.text.is_empty() { o.push_str("use crate::vp::*; use crate::sp::*;\n") }
    put(&root, &mut o, &mut lines);
    o.push_str("} // verus!\nfn main() {}\n");
    // raw identifiers (r#type) confuse the verifier's back end
    let o = unraw(&o);
    std::fs::write(out, &o).map_err(|e| e.to_string())?;
    for (k, r) in report.iter_mut() { if let (Some((a, b)), Some(m)) = (lines.get(k), r.as_object_mut()) { m.insert("lines".into(), json!([a, b])); } }
    Ok(json!({"unit": unit, "functions": report, "types": tdone.keys().collect::<Vec<_>>(), "opaque_types": opaque, "spec_lines": [spec_line, spec_end]}).to_string())
}

struct Out { item: Emitted, types: BTreeSet<String>, fns: BTreeSet<String>, nloops: usize, shape: Vec<String>, dropped: Vec<String>, specials: Vec<FnDef> }

fn emit(krate: &Crate, f: &FnDef, c: Option<Contract>, body: bool, vac: bool, known: &dyn Fn(&str) -> bool) -> std::result::Result<Out, String> {
    let mut c = c.unwrap_or_default();
    // $1, $2, ... stand for the parameters, whatever they are called
    let names: Vec<String> = f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(p) = a { if let Pat::Ident(i) = &*p.pat { Some(i.ident.to_string()) } else { Some("_".into()) } } else { None }).collect();
    let sub = |t: &mut String| { for (i, n) in names.iter().enumerate().rev() { *t = t.replace(&format!("${}", i + 1), n) } };
    sub(&mut c.sig);
    if let Some(t) = c.flags.get_mut("cases") { sub(t) }
    for t in c.loops.values_mut() { sub(t) }
    for t in c.hints.values_mut() { sub(t) }
    let f = &shown(f);
    let mut lo = Lower::new(krate, f.clone(), c.clone());
    let mut sig = f.sig.clone();
    // generics: only type parameters with iterator bounds, and lifetimes
    let mut gens = f.impl_generics.clone();
    for g in gens.params.iter().chain(sig.generics.params.iter()) { if let GenericParam::Type(t) = g { lo.generics.push(t.ident.to_string()) } }
    for gg in [&mut gens, &mut sig.generics] {
        let mut found: Vec<(String, &'static str)> = vec![];
        let which = |b: &TypeParamBound| -> Option<&'static str> { if let TypeParamBound::Trait(t) = b { match t.path.segments.last().unwrap().ident.to_string().as_str() { "Serializer" => Some("ser"), "Deserializer" => Some("de"), "Error" => Some("err"), _ => None } } else { None } };
        for g in &gg.params { if let GenericParam::Type(t) = g { if let Some(w) = t.bounds.iter().find_map(which) { found.push((t.ident.to_string(), w)) } } }
        if let Some(w) = &gg.where_clause { for p in &w.predicates { if let WherePredicate::Type(t) = p { if let Some(k) = t.bounds.iter().find_map(which) { found.push((t.bounded_ty.to_token_stream().to_string(), k)) } } } }
        if !found.is_empty() {
            for (n, k) in found { lo.serde.insert(n, k); }
            gg.params = gg.params.iter().filter(|g| match g { GenericParam::Type(t) => !lo.serde.contains_key(&t.ident.to_string()), GenericParam::Lifetime(l) => l.lifetime.ident != "de", _ => true }).cloned().collect();
            if let Some(w) = &mut gg.where_clause { w.predicates = w.predicates.iter().filter(|p| match p { WherePredicate::Type(t) => !lo.serde.contains_key(&t.bounded_ty.to_token_stream().to_string()), _ => true }).cloned().collect(); if w.predicates.is_empty() { gg.where_clause = None } }
            lo.generics.retain(|g| !lo.serde.contains_key(g));
        }
        gg.params = gg.params.iter().filter(|g| !matches!(g, GenericParam::Lifetime(l) if l.lifetime.ident == "de")).cloned().collect();
        for g in gg.params.iter_mut() { if let GenericParam::Type(t) = g { for b in t.bounds.iter_mut() { lo.bound(b) } } }
        if let Some(w) = &mut gg.where_clause { for p in w.predicates.iter_mut() { if let WherePredicate::Type(t) = p { t.bounded_ty = lo.ty(&t.bounded_ty); for b in t.bounds.iter_mut() { lo.bound(b) } } } }
    }
    let self_ty = f.self_ty.clone().map(|t| lo.ty(&t));
    let mut own_self = false;
    for a in sig.inputs.iter_mut() {
        match a {
            // mut self: a variable of that value
            FnArg::Receiver(r) => if r.reference.is_none() && r.mutability.is_some() { r.mutability = None; own_self = true }
            FnArg::Typed(p) => {
                let mut t = lo.ty(&p.ty);
                if crate::lower::is_iter_type(&p.ty) { if let Pat::Ident(i) = &mut *p.pat { i.mutability = None; lo.iters.insert(i.ident.to_string()); } t = parse_quote!(&mut #t); }
                if matches!(&*p.ty, Type::Reference(r) if r.mutability.is_some()) { if let Pat::Ident(i) = &mut *p.pat { i.mutability = None } }
                p.ty = Box::new(t.clone());
                p.pat = Box::new(lo.pat((*p.pat).clone(), Some(&t)));
                if !matches!(&*p.pat, Pat::Ident(_)) { lo.bad("parameter pattern") }
            }
        }
    }
    let ret = match &sig.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some(lo.ty(&t.clone())) };
    let tn = f.trait_name.clone().unwrap_or_default();
    let src_name = f.sig.ident.to_string();
    let kind = if f.self_ty.is_none() || f.hoisted { Kind::Free } else if tn == "Default" { Kind::DefaultTrait } else if tn == "Iterator" { Kind::IterTrait(String::new()) } else { Kind::Inherent };
    let name = if f.hoisted { hoisted_name(f) } else {
        match (tn.as_str(), src_name.as_str()) { ("ToString", "to_string") => "vp_to_string".into(), ("Iterator", "next") => "vp_next".into(), ("IntoIterator", "into_iter") => "vp_into_iter".into(), _ => if let Some((_, s)) = f.key.split_once('@') { format!("{}__{}", src_name, s) } else { src_name.clone() } }
    };
    let name_i = if name.starts_with("r#") { Ident::new_raw(&name[2..], proc_macro2::Span::call_site()) } else { Ident::new(&name, proc_macro2::Span::call_site()) };
    let mut text = String::new();
    let mut btxt = String::new();
    if body {
        let mut b = f.block.clone();
        macros::expand(&mut b)?;
        for k in crate::inline::expand(&mut b, krate, f, known) { lo.dropped.insert(format!("the call of {} is replaced by its body", k)); }
        if own_self {
            b = syn::parse2(rename_self(b.to_token_stream())).map_err(|e| e.to_string())?;
            b.stmts.insert(0, parse_quote!(let mut vp_self = self;));
        }
        let flagged = c.flags.iter().any(|(k, v)| k.starts_with("collect") && v.starts_with("Result"));
        if let Err(m) = crate::guard::check(&b, flagged) { return Err(format!("{}: {}", f.key, m)) }
        let b = lo.block(b);
        btxt = print::pretty(b.to_token_stream());
    }
    if !lo.errs.is_empty() { return Err(lo.errs.join("; ")) }
    if !body { text.push_str("#[verifier::external_body]\n") } else { text.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n"); if let Some(r) = c.flags.get("rlimit") { text.push_str(&format!("#[verifier::rlimit({})]\n", r)) } if c.flags.contains_key("spinoff") { text.push_str("#[verifier::spinoff_prover]\n") } if c.flags.contains_key("nodecreases") { text.push_str("#[verifier::exec_allows_no_decreases_clause]\n") } }
    let (gp, wh) = (&sig.generics.params, &sig.generics.where_clause);
    let gp = if gp.is_empty() { quote!() } else { quote!(<#gp>) };
    let inputs = &sig.inputs;
    let vis = if matches!(kind, Kind::Free | Kind::Inherent) { "pub " } else { "" };
    let rt = match &ret { None => String::new(), Some(t) => format!(" -> (r: {})", one(t.to_token_stream())) };
    text.push_str(&format!("{}fn {}{}({}){} {}\n", vis, name_i, one(gp), one(inputs.to_token_stream()), rt, one(wh.to_token_stream())));
    let mut s = c.sig.trim_end().to_string();
    if vac { s = if s.contains("ensures") { s.replacen("ensures", "ensures false,", 1) } else { format!("{}\n    ensures false,", s) } }
    if !s.is_empty() { text.push_str(&s); text.push('\n') }
    if body {
        // ghost text goes where the markers are
        let inner = btxt.trim(); let inner = &inner[1..inner.len() - 1];
        let mut b = String::from("broadcast use vp_views; ");
        for x in &lo.strs { b.push_str(&format!("reveal_strlit({}); ", Literal(x))) }
        b.push_str(&apart(&lo.keys));
        let pre = if b.is_empty() { String::new() } else { format!("    proof {{ {} }}\n", b) };
        let start = c.hints.get("start").cloned().unwrap_or_default();
        let inner = ghosts(inner, &lo.ghosts, &lo.c)?;
        let inner = match c.hints.get("end") {
            Some(e) if ret.is_some() => format!("let vp_end = {{\n{}\n}};\n{}\nvp_end", inner, e),
            Some(e) => format!("{}\n;{}", inner, e),
            None => inner
        };
        let code = format!("{{\n{}{}\n{}\n}}\n", pre, start, inner);
        match c.flags.get("cases") {
            None => text.push_str(&code),
            Some(cs) => {
                // one copy per case, the last for whatever is left; together they are the contract of the function itself
                let cs: Vec<&str> = cs.split(" | ").collect();
                let head = text.clone();
                let req = |s: &str, cond: &str| -> String { match s.find("requires") { Some(i) => format!("{}requires {}, {}", &s[..i], cond, &s[i + 8..]), None => format!("    requires {},\n{}", cond, s) } };
                let mut all = String::new();
                for i in 0..=cs.len() {
                    let cond = if i < cs.len() { cs[i].to_string() } else { cs.iter().map(|c| format!("!({})", c)).collect::<Vec<_>>().join(" && ") };
                    let fname = format!("fn {}", name_i);
                    let h = head.replacen(&fname, &format!("{}__case{}", fname, i), 1);
                    let h = h.replace(&s, &req(&s, &cond));
                    all.push_str(&h); all.push_str(&code);
                }
                text = format!("{}#[verifier::external_body]\n{}{{ unimplemented!() }}\n", all, head);
            }
        }
    } else { text.push_str("{ unimplemented!() }\n") }
    let (gg, gw) = (&gens.params, &gens.where_clause);
    let gg = if gg.is_empty() { quote!() } else { quote!(<#gg>) };
    let owner = self_ty.as_ref().filter(|_| kind != Kind::Free).map(|t| match &kind {
        Kind::DefaultTrait => format!("impl {} Default for {} {}", one(gg), one(t.to_token_stream()), one(gw.to_token_stream())),
        Kind::IterTrait(_) => format!("impl {} VpIterator for {} {}", one(gg), one(t.to_token_stream()), one(gw.to_token_stream())),
        _ => format!("impl {} {} {}", one(gg), one(t.to_token_stream()), one(gw.to_token_stream())),
    });
    let kind = match kind { Kind::IterTrait(_) => Kind::IterTrait(c.flags.get("iter_impl").cloned().unwrap_or_default()), k => k };
    for k in c.loops.keys() { if body && *k >= lo.nloops { return Err(format!("{}: the contract speaks of loop {}, which is not there", f.key, k)) } }
    Ok(Out { item: Emitted { key: f.key.clone(), module: key(&f.module), owner, kind, text }, types: lo.types, fns: lo.fns.into_iter().filter(|k| k != &f.key).collect(), nloops: lo.nloops, shape: lo.shape, dropped: lo.dropped.into_iter().collect(), specials: lo.specials })
}
fn unraw(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut o = String::with_capacity(s.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == 'r' && b.get(i + 1) == Some(&'#') && b.get(i + 2).map(|c| c.is_alphabetic()).unwrap_or(false) && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            i += 2;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') { o.push(b[i]); i += 1 }
            o.push('_');
        } else { o.push(b[i]); i += 1 }
    }
    o
}
/// Display/Debug: what is written to the formatter becomes the value of the function
fn shown(f: &FnDef) -> FnDef {
    if !matches!(f.trait_name.as_deref(), Some("Display") | Some("Debug")) || f.sig.ident != "fmt" { return f.clone() }
    let mut g = f.clone();
    if let Some(Stmt::Expr(Expr::MethodCall(m), None)) = f.block.stmts.last() {
        if m.method == "write_str" && f.block.stmts.len() == 1 {
            let a = &m.args[0];
            g.block = parse_quote!({ (#a).to_string() });
            let i = &f.sig.ident;
            g.sig = parse_quote!(fn #i(&self) -> String);
        }
    }
    g
}
struct Literal<'a>(&'a str);
impl std::fmt::Display for Literal<'_> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { let l = LitStr::new(self.0, proc_macro2::Span::call_site()); write!(f, "{}", l.to_token_stream()) } }
fn one(t: proc_macro2::TokenStream) -> String { t.to_string() }

/// replaces the markers in the printed body
fn ghosts(s: &str, gh: &[String], c: &Contract) -> std::result::Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    loop {
        let a = rest.find("__vp_ghost"); let b = rest.find("__vp_loop");
        let p = match (a, b) { (None, None) => { out.push_str(rest); return Ok(out) } (Some(x), None) => x, (None, Some(x)) => x, (Some(x), Some(y)) => x.min(y) };
        let is_loop = b == Some(p);
        out.push_str(&rest[..p]);
        let end = rest[p..].find(')').ok_or("marker")? + p + 1;
        let args: Vec<usize> = rest[p..end].split(|ch: char| !ch.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect();
        let mut tail = rest[end..].trim_start();
        if let Some(t) = tail.strip_prefix(';') { tail = t }
        if !is_loop { out.push('\n'); out.push_str(&gh[args[0]]); out.push('\n') }
        else {
            let k = args[0];
            let base = &gh[args[1]];
            let t = out.trim_end().len();
            if !out[..t].ends_with('{') { return Err("loop marker".into()) }
            out.truncate(t - 1);
            let mut buckets: Vec<(&str, String)> = vec![("invariant_except_break", String::new()), ("invariant", String::new()), ("ensures", String::new()), ("decreases", String::new())];
            let mut cur = 1;
            if let Some(x) = base.strip_prefix("#mutiter") {
                let (nobreak, it) = match x.strip_prefix('!') { Some(y) => (true, y.trim()), None => (false, x.trim()) };
                buckets[1].1.push_str(&format!("        0 <= vp_n{k} <= vp_all{k}.len(), vp_fin{k}.len() == vp_all{k}.len(), {it}.cur() == vp_all{k}.skip(vp_n{k}), {it}.fin() == vp_fin{k}.skip(vp_n{k}),\n"));
                if nobreak { buckets[2].1.push_str(&format!("        vp_n{k} == vp_all{k}.len(),\n")) }
                buckets[3].1 = format!("        vp_all{k}.len() - vp_n{k},\n");
            }
            if let Some(x) = base.strip_prefix("#iter") {
                let (nobreak, it) = match x.strip_prefix('!') { Some(y) => (true, y.trim()), None => (false, x.trim()) };
                buckets[1].1.push_str(&format!("        0 <= vp_n{k} <= vp_all{k}.len(), {it}.rem() == vp_all{k}.skip(vp_n{k}),\n"));
                if nobreak { buckets[2].1.push_str(&format!("        vp_n{k} == vp_all{k}.len(),\n")) }
            }
            for l in c.loops.get(&k).map(|s| s.as_str()).unwrap_or("").lines() {
                let tl = l.trim();
                if tl.is_empty() || tl.starts_with("//") { continue }
                let mut rest_l = tl;
                for (i, w) in [(0usize, "invariant_except_break"), (1, "invariant"), (2, "ensures"), (3, "decreases")] { if let Some(r) = tl.strip_prefix(w) { if r.is_empty() || r.starts_with(' ') { cur = i; rest_l = r.trim(); break } } }
                if !rest_l.is_empty() { buckets[cur].1.push_str("        "); buckets[cur].1.push_str(rest_l); buckets[cur].1.push('\n') }
            }
            if buckets[3].1.is_empty() && base.starts_with("#iter") { buckets[3].1 = format!("        vp_all{k}.len() - vp_n{k},\n") }
            out.push('\n');
            for (w, t) in &buckets { let t = t.trim_end(); if !t.is_empty() { out.push_str(&format!("    {}\n{}{}\n", w, t, if t.ends_with(',') { "" } else { "," })) } }
            out.push_str("{\n");
        }
        rest = tail;
    }
}

fn emit_type(krate: &Crate, t: &str) -> (String, BTreeSet<String>, bool) {
    let Some(it) = krate.type_item(t).cloned() else { return (String::new(), Default::default(), false) };
    let f = FnDef { key: format!("type {}", t), module: krate.type_module(t), self_ty: None, impl_generics: Default::default(), trait_name: None, trait_arg: None, assoc: Default::default(), sig: parse_quote!(fn f()), block: parse_quote!({}), nested: Default::default(), hoisted: false };
    let mut lo = Lower::new(krate, f, Contract::default());
    let vis: Visibility = parse_quote!(pub);
    let mut copy = false;
    let clones = |a: &[Attribute]| a.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("Clone"));
    let cloned = match &it { Item::Struct(s) => clones(&s.attrs), Item::Enum(s) => clones(&s.attrs), _ => false };
    let mut fix = |fs: &mut Fields, lo: &mut Lower, public: bool| { for x in fs.iter_mut() { x.ty = lo.ty(&x.ty); x.attrs.clear(); x.vis = if public { vis.clone() } else { Visibility::Inherited }; } };
    let is_copy = |a: &[Attribute]| a.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("Copy"));
    let (ts, name, generic) = match it {
        Item::Struct(mut s) => { copy |= is_copy(&s.attrs); s.attrs.clear(); s.vis = vis.clone(); for g in s.generics.params.iter_mut() { if let GenericParam::Type(t) = g { lo.generics.push(t.ident.to_string()); let id = t.ident.to_string(); let _ = id; for b in t.bounds.iter_mut() { lo.bound(b) } } } if let Some(w) = &mut s.generics.where_clause { for p in w.predicates.iter_mut() { if let WherePredicate::Type(t) = p { for b in t.bounds.iter_mut() { lo.bound(b) } } } } fix(&mut s.fields, &mut lo, true); (s.to_token_stream(), s.ident.to_string(), !s.generics.params.is_empty()) }
        Item::Enum(mut s) => { copy |= is_copy(&s.attrs); s.attrs.clear(); s.vis = vis.clone(); for g in s.generics.params.iter_mut() { if let GenericParam::Type(t) = g { lo.generics.push(t.ident.to_string()); t.bounds.clear(); } } s.generics.where_clause = None; for v in s.variants.iter_mut() { v.attrs.clear(); v.discriminant = None; fix(&mut v.fields, &mut lo, false) } (s.to_token_stream(), s.ident.to_string(), !s.generics.params.is_empty()) }
        Item::Const(mut s) => { s.attrs.clear(); s.vis = vis.clone(); s.ty = Box::new(lo.ty(&s.ty)); return (print::pretty(s.to_token_stream()), lo.types, false) }
        _ => return (String::new(), Default::default(), false)
    };
    if !lo.errs.is_empty() { return (format!("#[verifier::external_body]\npub struct {} {{ x: () }}\n{}", name, if cloned { owned(&name) } else { String::new() }), Default::default(), true) }
    let mut s = String::new();
    if copy { s.push_str("#[derive(Clone, Copy)]\n") }
    if ts.to_string().starts_with("pub enum") { s.push_str("#[allow(inconsistent_fields)]\n") }
    s.push_str(print::pretty(ts).trim_end()); s.push('\n');
    if !generic && cloned { s.push_str(&owned(&name)) }
    (s, lo.types, false)
}
fn owned(n: &str) -> String { format!("impl VpOwned for {} {{ type O = {}; open spec fn own(&self) -> {} {{ *self }} #[verifier::external_body] fn vp_owned(&self) -> (r: {}) {{ unimplemented!() }} }}\n", n, n, n, n) }
#[allow(dead_code)]
type Unused = HashMap<String, String>;

fn rename_self(t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, TokenTree};
    t.into_iter().map(|x| match x {
        TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), rename_self(g.stream())); n.set_span(g.span()); TokenTree::Group(n) }
        TokenTree::Ident(i) if i == "self" => TokenTree::Ident(proc_macro2::Ident::new("vp_self", i.span())),
        x => x
    }).collect()
}

/// the characters that tell the literals of string matches apart, so that the order of the arms does not matter to the proof
fn apart(keys: &std::collections::BTreeSet<String>) -> String {
    let mut by: std::collections::BTreeMap<usize, Vec<Vec<char>>> = Default::default();
    for k in keys { by.entry(k.chars().count()).or_default().push(k.chars().collect()) }
    let mut out = String::new();
    for (n, g) in by {
        for w in &g { out.push_str(&format!("assert({}@.len() == {}); ", Literal(&w.iter().collect::<String>()), n)) }
        let mut cols: Vec<usize> = vec![];
        let told = |cols: &Vec<usize>| g.iter().map(|w| cols.iter().map(|&i| w[i]).collect::<Vec<_>>()).collect::<std::collections::BTreeSet<_>>().len();
        while told(&cols) < g.len() {
            let best = (0..n).max_by_key(|&i| { let mut c = cols.clone(); c.push(i); (told(&c), n - i) }).unwrap();
            cols.push(best);
        }
        for w in &g { for &i in &cols { out.push_str(&format!("assert({}@[{}] == {:?}); ", Literal(&w.iter().collect::<String>()), i, w[i])) } }
    }
    out
}
