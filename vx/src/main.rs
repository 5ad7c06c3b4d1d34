//! vx: extracts the functions named in the .vt templates from the crate's current sources, rewrites them
//! mechanically into the Verus dialect, and weaves in the contracts.  See DESIGN.md for the rewriting rules.
mod rewrite;
mod template;

use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use rewrite::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path as FsPath, PathBuf};
use syn::spanned::Spanned;
use syn::visit_mut::VisitMut;
use syn::*;
use template::{FnSpec, Node};

struct Src {
    items: Vec<Item>,
    macros: BTreeMap<String, TokenStream>,
}

struct Ctx {
    repo: PathBuf,
    srcs: BTreeMap<String, Src>,
    store: Store,
    demote: BTreeMap<String, u8>,
    reach: bool,
    /// functions that are given the laws of their id types from the start
    laws: BTreeSet<String>,
    /// the id types of the surrounding implementation or trait
    outer: Vec<String>,
    snapshot: Value,
    new_snapshot: serde_json::Map<String, Value>,
    fns: Vec<Value>,
    missing: Vec<Value>,
    listed: BTreeSet<(String, String, String)>,
    rules: BTreeMap<String, usize>,
}

/// the type parameters that are id types
fn id_types(g: &Generics) -> Vec<String> {
    g.type_params().filter(|t| {
        let named = |b: &TypeParamBound| flat(b).ends_with("IdType");
        t.bounds.iter().any(named) || g.where_clause.iter().any(|w| w.predicates.iter().any(|p| match p { WherePredicate::Type(p) => flat(&p.bounded_ty) == t.ident.to_string() && p.bounds.iter().any(named), _ => false }))
    }).map(|t| t.ident.to_string()).collect()
}

fn cfg_off(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = flat(a);
        s == "#[cfg(test)]" || s.contains("cfg(feature=") || s.contains("cfg(kani)")
    })
}

/// `file` or, for the items nested in a method of an implementation, `file#IMPL::METHOD`
fn load(repo: &FsPath, rel: &str) -> Option<Src> {
    if let Some((file, sel)) = rel.split_once('#') {
        let (im, me) = sel.rsplit_once("::")?;
        let s = load(repo, file)?;
        let items = s.items.iter().find_map(|it| match it {
            Item::Impl(i) if !cfg_off(&i.attrs) && impl_keys(i).0 == im => i.items.iter().find_map(|m| match m {
                ImplItem::Fn(f) if f.sig.ident == me => Some(f.block.stmts.iter().filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect::<Vec<_>>()),
                _ => None }),
            _ => None })?;
        return Some(Src { items, macros: s.macros });
    }
    let text = std::fs::read_to_string(repo.join(rel)).ok()?;
    let file = syn::parse_file(&text).ok()?;
    let mut macros = BTreeMap::new();
    let mut items = vec![];
    for it in file.items {
        if let Item::Macro(m) = &it {
            if let Some(id) = &m.ident {
                macros.insert(id.to_string(), m.mac.tokens.clone());
                continue;
            }
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if let Some(def) = macros.get(&name) {
                if let Some(body) = expand_simple(def, &m.mac.tokens) {
                    if let Ok(f) = syn::parse2::<File>(body) { items.extend(f.items); continue; }
                }
            }
        }
        items.push(it);
    }
    Some(Src { items, macros })
}

/// `Box<GeneralGraph>`, `&SetMap`, `TypedGraphMap`, ...
fn type_key(t: &Type) -> String {
    match t {
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            let n = s.ident.to_string();
            if n == "Box" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    if let Some(GenericArgument::Type(t)) = a.args.first() { return format!("Box<{}>", type_key(t)); }
                }
            }
            n
        }
        Type::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, type_key(&r.elem)),
        Type::Tuple(t) if t.elems.is_empty() => "()".to_string(),
        Type::TraitObject(o) => o.bounds.iter().next().map(|b| match b {
            TypeParamBound::Trait(t) => t.path.segments.last().unwrap().ident.to_string(), _ => "?".into() }).unwrap_or_default(),
        Type::Paren(p) => type_key(&p.elem),
        Type::Slice(s) => format!("[{}]", type_key(&s.elem)),
        t => flat(t),
    }
}
fn impl_keys(i: &ItemImpl) -> (String, String, String) {
    let ty = type_key(&i.self_ty);
    match &i.trait_ {
        Some((_, p, _)) => {
            let n = p.segments.last().unwrap().ident.to_string();
            (format!("{} for {}", n, ty), format!("{}for{}", flat(p), flat(&i.self_ty)), ty)
        }
        None => (ty.clone(), flat(&i.self_ty), ty),
    }
}

// ------------------------------------------------------------------ printing
fn print_tokens(t: TokenStream, st: &Store, out: &mut String) {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Ident(id) if ["vx_mark", "vx_text"].contains(&id.to_string().as_str()) && i + 2 < v.len() => {
                if let TokenTree::Group(g) = &v[i + 2] {
                    let n: usize = g.stream().to_string().trim().parse().unwrap();
                    let mark = id == "vx_mark";
                    if mark { out.push('\n'); }
                    out.push_str(&st.texts[n]);
                    out.push(if mark { '\n' } else { ' ' });
                    i += 3;
                    if mark { if let Some(TokenTree::Punct(p)) = v.get(i) { if p.as_char() == ';' { i += 1; } } }
                    continue;
                }
            }
            _ => {}
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Brace => ("{\n", "}\n"), Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                let mut inner = g.stream();
                if g.delimiter() == Delimiter::Brace {
                    let iv: Vec<TokenTree> = inner.clone().into_iter().collect();
                    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Group(pg))) = (iv.get(0), iv.get(2)) {
                        if id == "vx_pre" {
                            let n: usize = pg.stream().to_string().trim().parse().unwrap();
                            out.push(' ');
                            out.push_str(&st.texts[n]);
                            out.push('\n');
                            let mut k = 3;
                            if let Some(TokenTree::Punct(p)) = iv.get(3) { if p.as_char() == ';' { k = 4; } }
                            inner = iv[k..].iter().cloned().collect();
                        }
                    }
                }
                out.push_str(o);
                print_tokens(inner, st, out);
                out.push_str(c);
                out.push(' ');
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.as_char() == ';' { out.push('\n'); }
                else if p.spacing() == proc_macro2::Spacing::Alone { out.push(' '); }
            }
            TokenTree::Ident(id) => { out.push_str(&id.to_string()); out.push(' '); }
            TokenTree::Literal(l) => { out.push_str(&l.to_string()); out.push(' '); }
        }
        i += 1;
    }
}
fn toks(t: impl ToTokens, st: &Store) -> String {
    let mut s = String::new();
    print_tokens(t.to_token_stream(), st, &mut s);
    s
}

// ------------------------------------------------------------------ functions
struct FnCtx<'a> {
    id: String,
    spec: &'a FnSpec,
    in_trait: bool,
    is_pub: bool,
    opts: &'a [String],
    helpers: BTreeMap<String, SrcFn>,
    macros: BTreeMap<String, TokenStream>,
    deps: String,
}

/// Names the spec functions an impl defines, so that Verus emits their definitions before the functions whose inherited contracts use them.
fn spec_deps(add: &str, all: bool) -> String {
    let mut out = String::new();
    let mut rest = add;
    while let Some(i) = rest.find("spec fn ") {
        rest = &rest[i + 8..];
        let p = match rest.find('(') { Some(p) => p, None => break };
        let name = rest[..p].trim().to_string();
        let mut depth = 0;
        let mut end = p;
        for (j, ch) in rest[p..].char_indices() {
            match ch { '(' | '<' | '[' => depth += 1, ')' | ']' => depth -= 1, '>' if !rest[..p + j].ends_with('-') => depth -= 1, _ => {} }
            if depth == 0 { end = p + j; break; }
        }
        let params = rest[p + 1..end].trim().trim_end_matches(',').to_string();
        if name.contains('<') { continue; }
        let (recv, others) = if params == "&self" || params == "self" { (true, String::new()) }
            else if let Some(o) = params.strip_prefix("&self,").or_else(|| params.strip_prefix("self,")) { (true, o.trim().to_string()) }
            else { (false, params.clone()) };
        if !all && (!recv || !others.is_empty()) { continue; }
        // parameter names at depth 0
        let mut names = vec![];
        let (mut d, mut st) = (0, 0);
        let mut pieces = vec![];
        for (j, ch) in others.char_indices() {
            match ch { '(' | '<' | '[' => d += 1, ')' | ']' | '>' => d -= 1, ',' if d == 0 => { pieces.push(&others[st..j]); st = j + 1; } _ => {} }
        }
        if !others.is_empty() { pieces.push(&others[st..]); }
        for q in &pieces { names.push(q.split(':').next().unwrap_or("").trim().to_string()); }
        let call = format!("{}{}({})", if recv { "vx_s." } else { "Self::" }, name, names.join(", "));
        let mut ps = vec![];
        if recv { ps.push("vx_s: Self".to_string()); }
        if !others.is_empty() { ps.push(others.clone()); }
        if ps.is_empty() { ps.push("vx_u: int".to_string()); }
        out.push_str(&format!("let ghost vx_d = |{}| {};\n", ps.join(", "), call));
    }
    out
}

impl Ctx {
    /// the type a type alias of the repository stands for
    fn alias(&self, ty: &str) -> String {
        for s in self.srcs.values() {
            for it in &s.items {
                if let Item::Type(t) = it {
                    if t.ident == ty { if let Type::Path(p) = &*t.ty { return p.path.segments.last().unwrap().ident.to_string(); } }
                }
            }
        }
        ty.to_string()
    }
    fn src(&mut self, rel: &str) -> Option<&Src> {
        if !self.srcs.contains_key(rel) {
            let s = load(&self.repo, rel)?;
            self.srcs.insert(rel.to_string(), s);
        }
        self.srcs.get(rel)
    }

    fn emit_fn(&mut self, f: &SrcFn, c: FnCtx) -> String {
        let mut rep = Report::default();
        let spec = c.spec;
        let has = |o: &str| spec.opts.iter().any(|x| x == o) || c.opts.iter().any(|x| x == o);
        let refcell = has("refcell");
        // local names
        let mut f = f.clone();
        if let Some(b) = f.block.as_mut() { unnest(b, &mut rep); MacroExpand { defs: &c.macros, rep: &mut rep }.visit_block_mut(b); }
        for _ in 0..4 {
            let mut changed = false;
            if let Some(b) = f.block.as_mut() {
                let mut inl = Inline { helpers: &c.helpers, rep: &mut rep, depth: 0, changed: false };
                inl.visit_block_mut(b);
                changed = inl.changed;
                MacroExpand { defs: &c.macros, rep: &mut rep }.visit_block_mut(b);
            }
            if !changed { break; }
        }
        let loc = locals(&f);
        let mut rename = BTreeMap::new();
        let snap = self.snapshot.get(&c.id).cloned();
        if let Some(s) = &snap {
            let old: Vec<String> = s["locals"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
            let oldset: BTreeSet<&String> = old.iter().collect();
            let newset: BTreeSet<&String> = loc.iter().collect();
            if old.len() == loc.len() {
                for (a, b) in old.iter().zip(loc.iter()) {
                    if a != b && !newset.contains(a) && !oldset.contains(b) { rename.insert(a.clone(), b.clone()); }
                }
            } else {
                let gone: Vec<&String> = { let mut seen = BTreeSet::new(); old.iter().filter(|x| !newset.contains(x) && seen.insert((*x).clone())).collect() };
                let fresh: Vec<&String> = { let mut seen = BTreeSet::new(); loc.iter().filter(|x| !oldset.contains(x) && seen.insert((*x).clone())).collect() };
                if gone.len() == fresh.len() { for (a, b) in gone.iter().zip(fresh.iter()) { rename.insert((*a).clone(), (*b).clone()); } }
            }
        }
        let txt = |s: &str| rename_words(s, &rename);
        let level = self.demote.get(&c.id).cloned().unwrap_or(0);
        let trusted = has("trusted");
        if has("nobody") { f.block = None; }
        let bodyless = f.block.is_none();
        // signature
        let mut tf = TypeFix { rep: &mut rep, refcell };
        let mut sig = f.sig.clone();
        tf.generics(&mut sig.generics);
        tf.visit_signature_mut(&mut sig);
        if let Some(b) = f.block.as_mut() { tf.visit_block_mut(b); }
        if has("mutself") {
            for a in sig.inputs.iter_mut() {
                if let FnArg::Receiver(r) = a { if r.reference.is_some() && r.mutability.is_none() { *r = parse_quote!(&mut self); rep.hit("R15 RefCell erased"); } }
            }
        }
        // pattern parameters
        let mut param_lets: Vec<Stmt> = vec![];
        let mut own_self = has("asfree");
        if own_self { rep.hit("R25 method of a standard trait verified as a function of its own"); }
        for a in sig.inputs.iter_mut() {
            if let FnArg::Receiver(r) = a { if r.reference.is_none() && r.mutability.is_some() { *r = parse_quote!(self); own_self = true; rep.hit("R24 `mut self` bound to a local"); } }
        }
        if own_self && !has("asfree") { param_lets.push(parse_quote!(let mut vx_self = self;)); }
        for (i, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(p) = a {
                match &*p.pat {
                    Pat::Ident(_) => {}
                    Pat::Wild(_) => { let n = quote::format_ident!("vx_a{}", i); p.pat = Box::new(parse_quote!(#n)); }
                    pat => { let n = quote::format_ident!("vx_a{}", i); param_lets.push(parse_quote!(let #pat = #n;)); p.pat = Box::new(parse_quote!(#n)); }
                }
            }
        }
        let mut used_l = BTreeSet::new();
        let mut used_c = BTreeSet::new();
        if let Some(b) = f.block.as_mut() {
            if level == 0 && !trusted {
                for (before, list) in [(true, &spec.before), (false, &spec.after)] {
                    for (k, pat, text) in list {
                        let pat: String = rename_words(pat, &rename);
                        let text = txt(text);
                        let mut an = Anchor { pat: pat.clone(), k: *k, text, before, seen: 0, done: false, store: &mut self.store };
                        an.visit_block_mut(b);
                        if !an.done { rep.lost.push(format!("hint anchor `{}`", pat)); }
                    }
                }
                if own_self { rewrite::SelfRename.visit_block_mut(b); }
                let mut rw = Rw { spec, store: &mut self.store, rep: &mut rep, rename: rename.clone(), refcell, diverge: has("diverge"), reach: self.reach,
                    used_loops: Default::default(), used_closures: Default::default(), erased_loops: vec![] };
                rw.visit_block_mut(b);
                used_l = rw.used_loops.clone();
                used_c = rw.used_closures.clone();
                if spec.opts.iter().any(|x| x == "chain") {
                    let after = spec.chain_after.iter().map(|(k, v)| (*k, rename_words(v, &rename))).collect();
                    let mut ch = Chain { n: 0, rep: &mut rep, store: &mut self.store, after };
                    ch.visit_block_mut(b);
                    let left: Vec<usize> = ch.after.keys().cloned().collect();
                    for k in left { rep.lost.push(format!("chain {} hint", k)); }
                }
            }
        }
        if level == 0 && !trusted {
            for n in spec.loops.keys() { if !used_l.contains(n) { rep.lost.push(format!("loop {} contract", n)); } }
            for n in spec.closures.keys() { if !used_c.contains(n) { rep.lost.push(format!("closure {} contract", n)); } }
            if let Some(s) = &snap {
                for (k, v) in [("loops", rep.loops), ("closures", rep.closures)] {
                    if s[k].as_u64().map_or(false, |x| x as usize != v) { rep.lost.push(format!("number of {} changed", k)); }
                }
            }
            if !bodyless {
                self.new_snapshot.insert(c.id.clone(), json!({"locals": loc, "loops": rep.loops, "closures": rep.closures}));
            }
        }
        for (k, v) in &rep.rules { *self.rules.entry(k.clone()).or_insert(0) += v; }
        // print
        let mut out = String::new();
        out.push_str(&format!("/*VXFN {}*/\n", c.id));
        if (level > 0 || trusted) && !bodyless { out.push_str("#[verifier::external_body]\n"); }
        else {
            if rep.loops > 0 && !has("isolate") { out.push_str("#[verifier::loop_isolation(false)]\n"); }
            if has("exec_nodec") { out.push_str("#[verifier::exec_allows_no_decreases_clause]\n"); }
        }
        out.push_str(&txt(&spec.attrs));
        if c.is_pub { out.push_str("pub "); }
        let name = &sig.ident;
        let (ig, _, wc) = sig.generics.split_for_impl();
        out.push_str(&format!("fn {}{}(", name, toks(ig, &self.store)));
        let mut parts: Vec<String> = sig.inputs.iter().map(|a| toks(a, &self.store)).collect();
        if !spec.ghost_params.trim().is_empty() { parts.push(spec.ghost_params.trim().trim_end_matches(',').to_string()); }
        out.push_str(&parts.join(", "));
        out.push_str(")");
        if let ReturnType::Type(_, t) = &sig.output {
            let r = spec.ret.clone().unwrap_or_else(|| "r".into());
            out.push_str(&format!(" -> ({}: {})", r.trim(), toks(t, &self.store)));
        }
        if let Some(w) = wc { out.push_str(&format!(" {}", toks(w, &self.store))); }
        out.push('\n');
        out.push_str(&txt(&spec.spec));
        match &f.block {
            None => out.push_str(";\n"),
            Some(_) if level > 0 || trusted => out.push_str("{ unimplemented!() }\n"),
            Some(b) => {
                out.push_str("{\n");
                if self.reach { out.push_str("proof { assert(false); }\n"); }
                out.push_str(&c.deps);
                for l in &param_lets { out.push_str(&toks(l, &self.store)); }
                if self.laws.contains(&c.id) {
                    let ids: Vec<String> = self.outer.iter().cloned().chain(id_types(&sig.generics)).collect();
                    out.push_str(&format!("proof {{ {} }}\n", ids.iter().map(|t| format!("<{} as IdType>::laws();", t)).collect::<Vec<_>>().join(" ")));
                }
                out.push_str(&txt(&spec.start));
                if spec.start.trim().len() > 0 { out.push('\n'); }
                let stmts = &b.stmts;
                let tail = txt(&spec.tail);
                if tail.trim().is_empty() {
                    out.push_str(&toks(quote!(#(#stmts)*), &self.store));
                } else {
                    match stmts.last() {
                        Some(Stmt::Expr(e, None)) if !matches!(sig.output, ReturnType::Default) => {
                            let init = &stmts[..stmts.len() - 1];
                            out.push_str(&toks(quote!(#(#init)*), &self.store));
                            let rt = if let ReturnType::Type(_, t) = &sig.output { toks(t, &self.store) } else { String::new() };
                            out.push_str(&format!("let vx_ret: {} = {};\n{}\nvx_ret\n", rt, toks(e, &self.store), tail));
                        }
                        _ => {
                            let mut st = stmts.clone();
                            if let Some(Stmt::Expr(_, s)) = st.last_mut() { if s.is_none() { *s = Some(Default::default()); } }
                            out.push_str(&toks(quote!(#(#st)*), &self.store));
                            out.push_str(&tail);
                            out.push('\n');
                        }
                    }
                }
                out.push_str("}\n");
            }
        }
        out.push_str(&format!("/*VXEND {}*/\n", c.id));
        self.fns.push(json!({
            "id": c.id, "name": f.sig.ident.to_string(), "file": f.file, "line": f.line, "end_line": f.end_line, "props": spec.props,
            "level": level, "trusted": trusted, "bodyless": bodyless, "lost": rep.lost, "rules": rep.rules,
            "in_trait": c.in_trait, "loops": rep.loops, "closures": rep.closures,
        }));
        out
    }

    /// What a `derive` stands for: each field in the order of declaration.
    fn emit_derive(&mut self, id: &str, s: &ItemStruct, file: &str, lines: (usize, usize), what: &str, props: &[String], cond: &str) -> String {
        let mut rep = Report::default();
        rep.hit("R28 derived implementation written out field by field");
        let derives: String = s.attrs.iter().map(|a| flat(a)).filter(|a| a.starts_with("#[derive(")).collect();
        let derived = |n: &str| derives.trim_start_matches("#[derive(").split(|c: char| !c.is_alphanumeric()).any(|x| x == n);
        let wanted: &[&str] = if what == "Serde" { &["Serialize", "Deserialize"] } else if what == "Record" { &["Serialize"] } else { &[what] };
        for w in wanted { if !derived(w) { rep.lost.push(format!("derive({})", w)); } }
        let serde_words = |attrs: &[Attribute], lost: &mut Vec<String>| -> (bool, bool) {
            let (mut s, mut d) = (false, false);
            for a in attrs { let f = flat(a); if let Some(x) = f.strip_prefix("#[serde(") { for w in x.trim_end_matches(")]").split(',') {
                match w { "skip" => { s = true; d = true; } "skip_serializing" => s = true, "skip_deserializing" => d = true, "default" => {} w if w.starts_with("rename=") => {} w => lost.push(format!("serde({})", w)) } } } }
            (s, d)
        };
        let mut tfrep = Report::default();
        let mut st = s.clone();
        let mut tf = TypeFix { rep: &mut tfrep, refcell: false };
        tf.generics(&mut st.generics);
        tf.visit_item_struct_mut(&mut st);
        if what == "Serde" && serde_words(&s.attrs, &mut rep.lost) != (false, false) { rep.lost.push("serde attribute of the type".into()); }
        let (ig, tg, wc) = st.generics.split_for_impl();
        let (ig, tgs, wc) = (toks(ig, &self.store), toks(&tg, &self.store), toks(wc, &self.store));
        let ty = format!("{}{}", s.ident, tgs);
        let turbo = toks(tg.as_turbofish(), &self.store);
        let fields: Vec<(String, String, bool, bool)> = match &st.fields {
            Fields::Named(fs) => fs.named.iter().map(|f| { let (a, b) = serde_words(&f.attrs, &mut rep.lost); (f.ident.as_ref().unwrap().to_string(), toks(&f.ty, &self.store), a, b) }).collect(),
            _ => { rep.lost.push("named fields".into()); vec![] }
        };
        let level = self.demote.get(id).cloned().unwrap_or(0);
        let trusted = level > 0 || !rep.lost.is_empty();
        let body_attr = if trusted { "#[verifier::external_body]\n" } else { "" };
        let mut out = String::new();
        if what == "Record" {
            let names: Vec<Option<String>> = match &s.fields { Fields::Named(fs) => fs.named.iter().map(|f| serde_name(&f.attrs, &f.ident.as_ref().unwrap().to_string())).collect(), _ => vec![] };
            if !s.attrs.iter().all(|a| !flat(a).starts_with("#[serde(")) || names.iter().any(|n| n.is_none()) { rep.lost.push("serde attribute".into()); }
            let kept: Vec<(String, String)> = fields.iter().zip(names).filter(|(f, _)| !f.2).map(|(f, n)| (f.0.clone(), n.unwrap_or_default())).collect();
            out.push_str(&format!("/*VXFN {}*/\nimpl{} VxRecord for {} {} {{\nopen spec fn names() -> Seq<Seq<char>> {{ seq![{}] }}\nopen spec fn cells(&self) -> Seq<Seq<char>> {{ seq![{}] }}\n}}\n/*VXEND {}*/\n", id, ig, ty, wc,
                kept.iter().map(|k| format!("{:?}@", k.1)).collect::<Vec<_>>().join(", "), kept.iter().map(|k| format!("cell_of(&self.{})", k.0)).collect::<Vec<_>>().join(", "), id));
        } else if what == "Serde" {
            let ser: String = fields.iter().filter(|f| !f.2).map(|f| format!("ser_of(&x.{}) + (", f.0)).collect::<String>() + "Seq::<u8>::empty()" + &")".repeat(fields.iter().filter(|f| !f.2).count());
            let mut de = String::new();
            let mut n = 0;
            for f in fields.iter().filter(|f| !f.3) { de.push_str(&format!("match de_of::<{}>(b{}) {{ None => None, Some((v_{}, b{})) => ", f.1, n, f.0, n + 1)); n += 1; }
            let lit: Vec<String> = fields.iter().map(|f| if f.3 { format!("{}: default_of::<{}>()", f.0, f.1) } else { format!("{}: v_{}", f.0, f.0) }).collect();
            de.push_str(&format!("Some(({} {{ {} }}, b{}))", s.ident, lit.join(", "), n));
            de.push_str(&" }".repeat(n));
            out.push_str(&format!("pub axiom fn ax_serde_{}{}() {} ensures forall|x: {}| #![trigger ser_of(&x)] ser_of(&x) == {}, forall|b0: Seq<u8>| #![trigger de_of::<{}>(b0)] de_of::<{}>(b0) == {};\n", s.ident, ig, wc, ty, ser, ty, ty, de));
            let req: Vec<String> = fields.iter().map(|f| format!("law::<{}>()", f.1)).collect();
            out.push_str(&format!("/*VXFN {}*/\n{}pub proof fn serde_{}{}() {} requires {} ensures law::<{}>() {{\n", id, body_attr, s.ident, ig, wc, req.join(", "), ty));
            out.push_str(&format!("ax_serde_{}{}();\nassert forall|x: {}, r: Seq<u8>| #![trigger ser_of(&x) + r] de_of::<{}>(ser_of(&x) + r) == Some((x, r)) by {{\n", s.ident, turbo, ty, ty));
            let sf: Vec<&(String, String, bool, bool)> = fields.iter().filter(|f| !f.2).collect();
            out.push_str(&format!("let t{} = r;\n", sf.len()));
            for (i, f) in sf.iter().enumerate().rev() { out.push_str(&format!("let t{} = ser_of(&x.{}) + t{};\n", i, f.0, i + 1)); }
            out.push_str("assert(ser_of(&x) + r =~= t0);\n");
            for (i, f) in sf.iter().enumerate() { out.push_str(&format!("assert(de_of::<{}>(t{}) == Some((x.{}, t{})));\n", f.1, i, f.0, i + 1)); }
            out.push_str(&format!("}}\n{}}}\n/*VXEND {}*/\n", if self.reach { "assert(false);\n" } else { "" }, id));
        } else if what == "PartialEq" {
            for p in st.generics.params.iter_mut() { if let GenericParam::Type(t) = p { t.bounds.push(parse_quote!(PartialEq)); } }
            let (ig, _, _) = st.generics.split_for_impl();
            let law: Vec<String> = st.generics.type_params().map(|t| format!("lawful_eq::<{}>()", t.ident)).collect();
            let j = |f: &str, e: &str| if fields.is_empty() { e.to_string() } else { fields.iter().map(|x| format!("self.{}.{}(&other.{})", x.0, f, x.0)).collect::<Vec<_>>().join(" && ") };
            out.push_str(&format!("/*VXFN {}*/\nimpl{} {} {} {{\npub open spec fn vx_same_fields(&self, other: &Self) -> bool {{ {} }}\n{}pub fn vx_derived_eq(&self, other: &Self) -> (r: bool) requires {} ensures r == self.vx_same_fields(other)\n{{\n{}{}\n}}\n}}\n/*VXEND {}*/\n", id, toks(ig, &self.store), ty, wc, j("vx_same_as", "true"), body_attr, law.join(", "), if self.reach { "assert(false);\n" } else { "" }, j("vx_eq_as", "true"), id));
        } else if what == "Hash" {
            for p in st.generics.params.iter_mut() { if let GenericParam::Type(t) = p { t.bounds.push(parse_quote!(Hash)); t.bounds.push(parse_quote!(PartialEq)); } }
            let (ig, _, _) = st.generics.split_for_impl();
            let ig = toks(ig, &self.store);
            let feed = fields.iter().map(|x| format!(" + feed_of(&self.{})", x.0)).collect::<String>();
            let body = fields.iter().map(|x| format!("self.{}.vx_hash(state);\n", x.0)).collect::<String>();
            let ax = fields.iter().map(|x| format!("self.{}.vx_same_feed(&other.{});\n", x.0, x.0)).collect::<String>();
            out.push_str(&format!("/*VXFN {}*/\nimpl{} {} {} {{\npub open spec fn vx_feed(&self) -> Seq<u8> {{ Seq::<u8>::empty(){} }}\n{}pub fn vx_derived_hash<H: Hasher>(&self, state: &mut H) ensures fed(final(state)) == fed(old(state)) + self.vx_feed()\n{{\n{}let ghost vx_f0 = fed(state);\n{}proof {{ assert(fed(state) =~= vx_f0 + self.vx_feed()); }}\n}}\n/// equal values feed a hasher equally\npub proof fn vx_eq_feeds(&self, other: &Self) requires self.vx_same_fields(other) ensures self.vx_feed() == other.vx_feed() {{\n{}}}\n}}\n/*VXEND {}*/\n", id, ig, ty, wc, feed, body_attr, if self.reach { "assert(false);\n" } else { "" }, body, ax, id));
        } else {
            for p in st.generics.params.iter_mut() { if let GenericParam::Type(t) = p { t.bounds.push(parse_quote!(Clone)); } }
            let (ig, _, _) = st.generics.split_for_impl();
            out.push_str(&format!("/*VXFN {}*/\nimpl{} Clone for {} {} {{\n{}fn clone(&self) -> (r: Self) ensures {}\n{{\n{}{} {{ {} }}\n}}\n}}\n/*VXEND {}*/\n", id, toks(ig, &self.store), ty, wc, body_attr, match cond.trim().strip_prefix("ensures ") { Some(e) => e.to_string(), None => format!("{} ==> r == *self", cond.trim()) }, if self.reach { "assert(false);\n" } else { "" }, s.ident,
                fields.iter().map(|f| format!("{}: self.{}.clone()", f.0, f.0)).collect::<Vec<_>>().join(", "), id));
        }
        for (k, n) in rep.rules.iter() { *self.rules.entry(k.clone()).or_insert(0) += n; }
        self.fns.push(json!({"id": id, "name": format!("{} of {}", what, s.ident), "file": file, "line": lines.0, "end_line": lines.1, "props": props,
            "level": level, "trusted": false, "bodyless": false, "lost": rep.lost, "rules": rep.rules, "in_trait": false, "loops": 0, "closures": 0}));
        out
    }

    /// What `#[serde(field_identifier)]` stands for: the name of a column, and the variant it is.
    fn emit_key(&mut self, id: &str, e: &ItemEnum, file: &str, lines: (usize, usize), props: &[String]) -> String {
        let mut rep = Report::default();
        rep.hit("R28 derived implementation written out field by field");
        let at: Vec<String> = e.attrs.iter().map(|a| flat(a)).collect();
        if !at.iter().any(|a| a.starts_with("#[derive(") && a.contains("Deserialize")) { rep.lost.push("derive(Deserialize)".into()); }
        if at.iter().filter(|a| a.starts_with("#[serde(")).cloned().collect::<Vec<_>>() != vec!["#[serde(field_identifier)]".to_string()] { rep.lost.push("serde attribute".into()); }
        let mut chain = String::new();
        for v in &e.variants {
            if !matches!(v.fields, Fields::Unit) { rep.lost.push("unit variants".into()); }
            match serde_name(&v.attrs, &v.ident.to_string()) { Some(n) => chain.push_str(&format!("if h == {:?}@ {{ Some({}::{}) }} else ", n, e.ident, v.ident)), None => rep.lost.push("serde attribute".into()) }
        }
        let out = format!("/*VXFN {}*/\nimpl VxKey for {} {{\nopen spec fn key(h: Seq<char>) -> Option<Self> {{ {}{{ None }} }}\n}}\n/*VXEND {}*/\n", id, e.ident, chain, id);
        for (k, n) in rep.rules.iter() { *self.rules.entry(k.clone()).or_insert(0) += n; }
        self.fns.push(json!({"id": id, "name": format!("Deserialize of {}", e.ident), "file": file.split('#').next().unwrap(), "line": lines.0, "end_line": lines.1, "props": props,
            "level": 0, "trusted": false, "bodyless": false, "lost": rep.lost, "rules": rep.rules, "in_trait": false, "loops": 0, "closures": 0}));
        out
    }

    fn helpers_for(&self, rel: &str, ty: Option<&str>) -> BTreeMap<String, SrcFn> {
        let mut h = BTreeMap::new();
        if let Some(s) = self.srcs.get(rel) {
            for it in &s.items {
                match it {
                    Item::Fn(f) if !cfg_off(&f.attrs) => {
                        let n = f.sig.ident.to_string();
                        if !self.listed.contains(&(rel.to_string(), String::new(), n.clone())) {
                            h.entry(n).or_insert(mkfn(&f.sig, Some((*f.block).clone()), rel, it.span()));
                        }
                    }
                    Item::Impl(i) if i.trait_.is_none() && ty.map_or(false, |t| type_key(&i.self_ty) == t) => {
                        for m in &i.items {
                            if let ImplItem::Fn(f) = m {
                                let n = f.sig.ident.to_string();
                                if !self.listed.contains(&(rel.to_string(), ty.unwrap().to_string(), n.clone())) {
                                    h.insert(n, mkfn(&f.sig, Some(f.block.clone()), rel, m.span()));
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        h
    }
}

/// the name serde gives a field or variant, unless an attribute says something else again
fn serde_name(attrs: &[Attribute], ident: &str) -> Option<String> {
    let mut n = Some(ident.to_string());
    for a in attrs {
        let f = flat(a);
        if let Some(x) = f.strip_prefix("#[serde(") {
            match x.strip_prefix("rename=\"").and_then(|y| y.strip_suffix("\")]")) {
                Some(_) => { if let Meta::List(l) = &a.meta { if let Some(proc_macro2::TokenTree::Literal(t)) = l.tokens.clone().into_iter().last() { n = parse_str::<LitStr>(&t.to_string()).ok().map(|s| s.value()); } } }
                None => return None,
            }
        }
    }
    n
}
/// Items declared inside a function are items of the unit; a constant is a local.
fn unnest(b: &mut Block, rep: &mut Report) {
    let mut out = vec![];
    for s in std::mem::take(&mut b.stmts) {
        match s {
            Stmt::Item(Item::Const(c)) => { let (n, t, e) = (&c.ident, &c.ty, &c.expr); rep.hit("R30 constant of a function bound by let"); out.push(parse_quote!(let #n: #t = #e;)); }
            Stmt::Item(Item::Verbatim(_)) => {}
            Stmt::Item(_) => rep.hit("R29 item declared in a function verified as an item of its own"),
            s => out.push(s),
        }
    }
    b.stmts = out;
}
fn mkfn(sig: &Signature, block: Option<Block>, rel: &str, sp: proc_macro2::Span) -> SrcFn {
    SrcFn { sig: sig.clone(), block, file: rel.split('#').next().unwrap().to_string(), line: sp.start().line, end_line: sp.end().line }
}

/// A method of an implementation of a trait of the standard library, as a function of its own.
fn as_free(im: &ItemImpl, mut f: SrcFn) -> SrcFn {
    struct SelfTy<'a> { ty: &'a Type, assoc: BTreeMap<String, Type> }
    impl<'a> VisitMut for SelfTy<'a> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            syn::visit_mut::visit_type_mut(self, t);
            let s = flat(&*t);
            if s == "Self" { *t = self.ty.clone(); }
            else if let Some(a) = s.strip_prefix("Self::").and_then(|n| self.assoc.get(n)) { *t = a.clone(); }
        }
    }
    let mut assoc = BTreeMap::new();
    for m in &im.items { if let ImplItem::Type(t) = m { assoc.insert(t.ident.to_string(), t.ty.clone()); } }
    let ty = (*im.self_ty).clone();
    for a in f.sig.inputs.iter_mut() {
        if let FnArg::Receiver(r) = a {
            let m = r.mutability;
            let t: Type = match (&r.reference, m) { (Some(_), Some(_)) => parse_quote!(&mut #ty), (Some(_), None) => parse_quote!(&#ty), _ => ty.clone() };
            *a = if r.reference.is_none() && m.is_some() { parse_quote!(mut vx_self: #t) } else { parse_quote!(vx_self: #t) };
        }
    }
    let mut st = SelfTy { ty: &ty, assoc };
    st.visit_signature_mut(&mut f.sig);
    if let Some(b) = f.block.as_mut() { st.visit_block_mut(b); }
    let mut g = im.generics.clone();
    for p in f.sig.generics.params.iter() { g.params.push(p.clone()); }
    if let Some(w) = &f.sig.generics.where_clause { let gw = g.make_where_clause(); for p in w.predicates.iter() { gw.predicates.push(p.clone()); } }
    // lifetimes first
    let (l, r): (Vec<_>, Vec<_>) = g.params.iter().cloned().partition(|p| matches!(p, GenericParam::Lifetime(_)));
    g.params = l.into_iter().chain(r).collect();
    f.sig.generics = g;
    let mut n = String::new();
    for c in format!("vx_{}_{}", f.sig.ident, impl_keys(im).0).chars() { n.push(if c.is_alphanumeric() || c == '_' { c } else { '_' }); }
    f.sig.ident = quote::format_ident!("{}", n);
    f
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut repo = PathBuf::from("/repo");
    let mut vt = PathBuf::from("/verif/vt");
    let mut out = PathBuf::from("/tmp/crate.rs");
    let mut map = PathBuf::from("/tmp/map.json");
    let mut snapf = PathBuf::from("/verif/vt/snapshot.json");
    let mut demote = BTreeMap::new();
    let (mut reach, mut bless) = (false, false);
    let mut laws = BTreeSet::new();
    let mut only: Option<BTreeSet<String>> = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--repo" => { repo = args[i + 1].clone().into(); i += 1 }
            "--vt" => { vt = args[i + 1].clone().into(); i += 1 }
            "--out" => { out = args[i + 1].clone().into(); i += 1 }
            "--map" => { map = args[i + 1].clone().into(); i += 1 }
            "--snapshot" => { snapf = args[i + 1].clone().into(); i += 1 }
            "--demote" => { demote.insert(args[i + 1].clone(), 1); i += 1 }
            "--laws" => { laws.insert(args[i + 1].clone()); i += 1 }
            "--only" => { only = Some(args[i + 1].split(',').map(|x| x.to_string()).collect()); i += 1 }
            "--reach" => reach = true,
            "--bless" => bless = true,
            a => { eprintln!("unknown argument {}", a); std::process::exit(3) }
        }
        i += 1;
    }
    let snapshot: Value = std::fs::read_to_string(&snapf).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(json!({}));
    let mut ctx = Ctx { repo, srcs: Default::default(), store: Default::default(), demote, reach, laws, outer: vec![], snapshot, new_snapshot: Default::default(),
        fns: vec![], missing: vec![], listed: Default::default(), rules: Default::default() };
    let mut files: Vec<PathBuf> = std::fs::read_dir(&vt).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |e| e == "vt")).collect();
    files.sort();
    let mut units: Vec<(String, Vec<Node>)> = vec![];
    for f in &files {
        let stem = f.file_stem().unwrap().to_str().unwrap().to_string();
        let unit = stem.splitn(2, '_').nth(1).map(|x| x.to_string()).unwrap_or(stem.clone());
        if let Some(o) = &only { if !o.contains(&unit) { continue; } }
        let nodes = template::parse(&std::fs::read_to_string(f).unwrap(), f.to_str().unwrap());
        units.push((unit, nodes));
    }
    // what is listed
    for (_, nodes) in &units {
        for n in nodes {
            match n {
                Node::Fn { src, spec } => { ctx.listed.insert((src.clone(), String::new(), spec.name.clone())); }
                Node::Impl { src, sel, fns, skip, .. } if !sel.contains(" for ") => {
                    for f in fns { ctx.listed.insert((src.clone(), sel.clone(), f.name.clone())); }
                    for f in skip { ctx.listed.insert((src.clone(), sel.clone(), f.clone())); }
                }
                _ => {}
            }
        }
    }
    let mut text = String::from("#![feature(allocator_api)]\n#![allow(warnings)]\n");
    text.push_str("use vstd::prelude::*;\n");
    // a unit that starts with "// private" keeps its names to itself
    for (u, nodes) in &units { if !matches!(nodes.first(), Some(Node::Raw(r)) if r.starts_with("// private")) { text.push_str(&format!("pub use {}::*;\n", u)); } }
    let mut spec_adds: Vec<(String, String)> = vec![];
    for (u, nodes) in &units {
        text.push_str(&format!("pub mod {} {{\nuse super::*;\nuse vstd::prelude::*;\nuse vstd::imap::*;\nuse vstd::iset::*;\nuse vstd::std_specs::cmp::*;\nuse std::hash::{{Hash, Hasher}};\nuse std::marker::PhantomData;\nuse std::mem;\nverus! {{\n", u));
        for n in nodes {
            match n {
                Node::Raw(r) => text.push_str(r),
                Node::Item { src, kind, name, attrs, ghost } => {
                    let it = ctx.src(src).and_then(|s| s.items.iter().find(|it| match (it, kind.as_str()) {
                        (Item::Struct(s), "struct") => s.ident == name && !cfg_off(&s.attrs),
                        (Item::Enum(s), "enum") => s.ident == name && !cfg_off(&s.attrs),
                        (Item::Type(s), "type") => s.ident == name && !cfg_off(&s.attrs),
                        _ => false,
                    }).cloned());
                    let mut rep = Report::default();
                    let mut tf = TypeFix { rep: &mut rep, refcell: attrs.contains("+refcell") };
                    let attrs = attrs.replace("+refcell", "");
                    match it {
                        Some(Item::Struct(mut s)) => {
                            tf.generics(&mut s.generics);
                            tf.visit_item_struct_mut(&mut s);
                            let g = &s.generics;
                            let gp = toks(g, &ctx.store);
                            let wc = toks(&s.generics.where_clause, &ctx.store);
                            match &s.fields {
                                Fields::Named(fs) => {
                                    text.push_str(&format!("{}\npub struct {} {} {} {{\n", attrs, s.ident, gp, wc));
                                    for f in &fs.named { text.push_str(&format!("pub {}: {},\n", f.ident.as_ref().unwrap(), toks(&f.ty, &ctx.store))); }
                                    text.push_str(ghost);
                        text.push_str("}\n");
                                }
                                Fields::Unnamed(fs) => {
                                    let l: Vec<String> = fs.unnamed.iter().map(|f| format!("pub {}", toks(&f.ty, &ctx.store))).collect();
                                    text.push_str(&format!("{}\npub struct {} {} ({}) {};\n", attrs, s.ident, gp, l.join(", "), wc));
                                }
                                Fields::Unit => text.push_str(&format!("{}\npub struct {};\n", attrs, s.ident)),
                            }
                        }
                        Some(Item::Enum(mut s)) => {
                            tf.generics(&mut s.generics);
                            tf.visit_item_enum_mut(&mut s);
                            for v in s.variants.iter_mut() { v.attrs.clear(); }
                            let gp = toks(&s.generics, &ctx.store);
                            let vs = &s.variants;
                            text.push_str(&format!("{}\npub enum {} {} {{ {} }}\n", attrs, s.ident, gp, toks(vs, &ctx.store)));
                        }
                        Some(Item::Type(mut s)) => {
                            tf.visit_item_type_mut(&mut s);
                            s.attrs.clear();
                            s.vis = Visibility::Inherited;
                            text.push_str(&format!("pub {}\n", toks(&s, &ctx.store)));
                        }
                        _ => ctx.missing.push(json!({"unit": u, "item": format!("{} {}", kind, name), "file": src})),
                    }
                }
                Node::Derive { src, name, what, props, cond } => {
                    let id = format!("{}::{}::derive_{}", u, name, what);
                    if what == "Key" {
                        match ctx.src(src).and_then(|s| s.items.iter().find_map(|it| match it { Item::Enum(s) if s.ident == name && !cfg_off(&s.attrs) => Some((s.clone(), it.span())), _ => None })) {
                            Some((e, sp)) => { let t = ctx.emit_key(&id, &e, src, (sp.start().line, sp.end().line), props); text.push_str(&t); }
                            None => ctx.missing.push(json!({"unit": u, "item": format!("enum {}", name), "id": id, "file": src, "props": props})),
                        }
                        continue;
                    }
                    let it = ctx.src(src).and_then(|s| s.items.iter().find_map(|it| match it { Item::Struct(s) if s.ident == name && !cfg_off(&s.attrs) => Some((s.clone(), it.span())), _ => None }));
                    match it {
                        Some((s, sp)) => { let t = ctx.emit_derive(&id, &s, src, (sp.start().line, sp.end().line), what, props, cond); text.push_str(&t); }
                        None => ctx.missing.push(json!({"unit": u, "item": format!("struct {}", name), "id": id, "file": src, "props": props})),
                    }
                }
                Node::Fn { src, spec } => {
                    let f = ctx.src(src).and_then(|s| s.items.iter().find_map(|it| match it {
                        Item::Fn(f) if f.sig.ident == spec.name && !cfg_off(&f.attrs) => Some(mkfn(&f.sig, Some((*f.block).clone()), src, it.span())),
                        _ => None,
                    }));
                    let id = format!("{}::{}", u, spec.name);
                    match f {
                        Some(f) => {
                            let c = FnCtx { id, spec, in_trait: false, is_pub: true, opts: &[], helpers: ctx.helpers_for(src, None), macros: ctx.srcs[src].macros.clone(), deps: String::new() };
                            ctx.outer.clear();
                            let t = ctx.emit_fn(&f, c);
                            text.push_str(&t);
                        }
                        None => ctx.missing.push(json!({"unit": u, "item": format!("fn {}", spec.name), "id": id, "file": src, "props": spec.props})),
                    }
                }
                Node::Impl { src, sel, opts, add, fns, all: _, .. } => {
                    let fl: String = sel.chars().filter(|c| !c.is_whitespace()).collect();
                    let cands: Vec<ItemImpl> = ctx.src(src).map(|s| s.items.iter().filter_map(|it| match it {
                        Item::Impl(i) if !cfg_off(&i.attrs) => {
                            let (k, f, _) = impl_keys(i);
                            if k == *sel || (fl.contains('<') && f.contains(&fl)) { Some(i.clone()) } else { None }
                        }
                        _ => None,
                    }).collect()).unwrap_or_default();
                    if cands.is_empty() {
                        ctx.missing.push(json!({"unit": u, "item": format!("impl {}", sel), "file": src, "props": fns.iter().flat_map(|f| f.props.clone()).collect::<Vec<_>>()}));
                        continue;
                    }
                    let mut found: BTreeSet<String> = BTreeSet::new();
                    let mut first = true;
                    for im in &cands {
                        let is_trait = im.trait_.is_some();
                        let mine: Vec<(&FnSpec, SrcFn)> = fns.iter().filter_map(|fs| im.items.iter().find_map(|m| match m {
                            ImplItem::Fn(f) if f.sig.ident == fs.name => Some((fs, mkfn(&f.sig, Some(f.block.clone()), src, m.span()))),
                            _ => None,
                        })).collect();
                        let mut mine = mine;
                        if let Some((_, p, _)) = &im.trait_ {
                            let tn = p.segments.last().unwrap().ident.to_string();
                            for fs in fns.iter().filter(|f| f.opts.iter().any(|o| o == "default")) {
                                if mine.iter().any(|(m, _)| m.name == fs.name) { continue; }
                                let d = ctx.srcs.iter().find_map(|(rel, s)| s.items.iter().find_map(|it| match it {
                                    Item::Trait(t) if t.ident == tn => t.items.iter().find_map(|m| match m {
                                        TraitItem::Fn(f) if f.sig.ident == fs.name && f.default.is_some() => Some(mkfn(&f.sig, f.default.clone(), rel, m.span())), _ => None }),
                                    _ => None }));
                                if let Some(d) = d { mine.push((fs, d)); }
                            }
                        }
                        if mine.is_empty() && !(first && (is_trait || !add.is_empty())) { continue; }
                        if opts.iter().any(|o| o == "asfree") {
                            let (key, _, ty) = impl_keys(im);
                            let helpers = ctx.helpers_for(src, Some(&ty));
                            if first { text.push_str(add); first = false; }
                            for (fs, f) in mine {
                                if !found.insert(fs.name.clone()) { continue; }
                                let f = as_free(im, f);
                                let selkey = if sel.contains('<') { sel.clone() } else { key.clone() };
                                let c = FnCtx { id: format!("{}::{}::{}", u, selkey.replace(' ', "_"), fs.name), spec: fs, in_trait: false, is_pub: true, opts, helpers: helpers.clone(), macros: ctx.srcs[src].macros.clone(), deps: String::new() };
                                ctx.outer.clear();
                                let t = ctx.emit_fn(&f, c);
                                text.push_str(&t);
                            }
                            break;
                        }
                        let mut rep = Report::default();
                        let mut imm = im.clone();
                        let mut tf = TypeFix { rep: &mut rep, refcell: opts.contains(&"refcell".to_string()) };
                        tf.generics(&mut imm.generics);
                        tf.visit_generics_mut(&mut imm.generics);
                        tf.visit_type_mut(&mut imm.self_ty);
                        if let Some((_, p, _)) = imm.trait_.as_mut() { tf.visit_path_mut(p); for s in p.segments.iter_mut() { if let PathArguments::AngleBracketed(a) = &mut s.arguments { for x in a.args.iter_mut() { if let GenericArgument::Type(t) = x { tf.visit_type_mut(t); } } } } }
                        let (ig, _, wc) = imm.generics.split_for_impl();
                        let st = &ctx.store;
                        let tr = imm.trait_.as_ref().map(|(_, p, _)| format!("{} for ", toks(p, st))).unwrap_or_default();
                        text.push_str(&format!("{}impl{} {}{} {} {{\n", if imm.unsafety.is_some() { "unsafe " } else { "" }, toks(ig, st), tr, toks(&imm.self_ty, st), toks(wc, st)));
                        if is_trait {
                            for m in &imm.items { if let ImplItem::Type(t) = m { let mut t = t.clone(); tf.visit_impl_item_type_mut(&mut t); text.push_str(&toks(&t, &ctx.store)); } }
                        }
                        if first { text.push_str(add); first = false; }
                        let (key, _, ty) = impl_keys(im);
                        let helpers = ctx.helpers_for(src, Some(&ty));
                        let deps = if is_trait {
                            let base = ctx.alias(&ty);
                            let mut out = spec_deps(add, true);
                            for (t, a) in spec_adds.iter() { if (*t == base || *t == ty) && a != add { out.push_str(&spec_deps(a, false)); } }
                            if !spec_adds.iter().any(|(t, a)| *t == ty && a == add) { spec_adds.push((ty.clone(), add.clone())); }
                            out
                        } else { String::new() };
                        ctx.outer = id_types(&imm.generics);
                        for (fs, f) in mine {
                            if !found.insert(fs.name.clone()) { continue; }
                            let selkey = if sel.contains('<') { sel.clone() } else { key.clone() };
                            let c = FnCtx { id: format!("{}::{}::{}", u, selkey.replace(' ', "_"), fs.name), spec: fs, in_trait: is_trait, is_pub: !is_trait, opts, helpers: helpers.clone(), macros: ctx.srcs[src].macros.clone(), deps: deps.clone() };
                            let t = ctx.emit_fn(&f, c);
                            text.push_str(&t);
                        }
                        text.push_str("}\n");
                        if is_trait { break; }
                    }
                    for fs in fns {
                        if !found.contains(&fs.name) {
                            ctx.missing.push(json!({"unit": u, "item": format!("fn {} in impl {}", fs.name, sel), "id": format!("{}::{}::{}", u, sel.replace(' ', "_"), fs.name), "file": src, "props": fs.props}));
                        }
                    }
                }
                Node::Trait { src, name, opts, add, fns, .. } => {
                    let tr = ctx.src(src).and_then(|s| s.items.iter().find_map(|it| match it { Item::Trait(t) if t.ident == name => Some(t.clone()), _ => None }));
                    let mut t = match tr { Some(t) => t, None => { ctx.missing.push(json!({"unit": u, "item": format!("trait {}", name), "file": src})); continue; } };
                    let mut rep = Report::default();
                    {
                        let mut tf = TypeFix { rep: &mut rep, refcell: false };
                        tf.generics(&mut t.generics);
                        tf.supertraits(&mut t.supertraits);
                    }
                    let (_, _, wc) = t.generics.split_for_impl();
                    let st = &ctx.store;
                    let sup = if opts.iter().any(|o| o == "sized") { ": Sized".to_string() } else if t.supertraits.is_empty() || opts.iter().any(|o| o == "nosuper") { String::new() } else { format!(": {}", toks(&t.supertraits, st)) };
                    text.push_str(&format!("pub {}trait {}{}{} {} {{\n", if t.unsafety.is_some() { "unsafe " } else { "" }, name, toks(&t.generics, st), sup, toks(wc, st)));
                    text.push_str(add);
                    ctx.outer = id_types(&t.generics);
                    for fs in fns {
                        let f = t.items.iter().find_map(|m| match m { TraitItem::Fn(f) if f.sig.ident == fs.name => Some(mkfn(&f.sig, f.default.clone(), src, m.span())), _ => None });
                        match f {
                            Some(f) => {
                                let c = FnCtx { id: format!("{}::{}::{}", u, name, fs.name), spec: fs, in_trait: true, is_pub: false, opts, helpers: Default::default(), macros: Default::default(), deps: String::new() };
                                let s = ctx.emit_fn(&f, c);
                                text.push_str(&s);
                            }
                            None => ctx.missing.push(json!({"unit": u, "item": format!("fn {} in trait {}", fs.name, name), "id": format!("{}::{}::{}", u, name, fs.name), "file": src, "props": fs.props})),
                        }
                    }
                    text.push_str("}\n");
                }
            }
        }
        text.push_str("}\n}\n");
    }
    text.push_str("fn main() {}\n");
    // line ranges
    let mut ranges: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    let mut urange: Vec<Value> = vec![];
    for (n, l) in text.lines().enumerate() {
        if let Some(r) = l.strip_prefix("/*VXFN ") { ranges.insert(r.trim_end_matches("*/").to_string(), (n + 1, n + 1)); }
        if let Some(r) = l.strip_prefix("/*VXEND ") { if let Some(e) = ranges.get_mut(r.trim_end_matches("*/")) { e.1 = n + 1; } }
        if let Some(r) = l.strip_prefix("pub mod ") { urange.push(json!({"unit": r.trim_end_matches(" {"), "line": n + 1})); }
    }
    for f in ctx.fns.iter_mut() {
        let id = f["id"].as_str().unwrap().to_string();
        if let Some((a, b)) = ranges.get(&id) { f["out"] = json!([a, b]); }
    }
    if let Some(d) = out.parent() { let _ = std::fs::create_dir_all(d); }
    std::fs::write(&out, &text).unwrap();
    let m = json!({"functions": ctx.fns, "missing": ctx.missing, "units": urange, "rules": ctx.rules});
    std::fs::write(&map, serde_json::to_string_pretty(&m).unwrap()).unwrap();
    if bless { std::fs::write(&snapf, serde_json::to_string_pretty(&Value::Object(ctx.new_snapshot)).unwrap() + "\n").unwrap(); }
}
