//! Mechanical rewriting of extracted functions into the Verus dialect.
use crate::template::{ClosureSpec, FnSpec};
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub const TRAITS: &[&str] = &[
    "GraphTrait", "GeneralGraph", "MutGraphTrait", "GraphLabelTrait", "DiGraphTrait", "UnGraphTrait", "MutGraphLabelTrait",
    "EdgeTrait", "NodeTrait", "MutEdgeTrait", "MutNodeTrait", "EdgeVecTrait", "MapTrait", "MutMapTrait", "NodeMapTrait", "MutNodeMapTrait",
];
const BOUNDS: &[&str] = &[
    "Copy", "Clone", "Eq", "PartialEq", "Ord", "PartialOrd", "Hash", "IdType", "GraphType", "Sized", "Fn", "FnMut", "FnOnce", "VxIntoIter", "VxPath", "Write", "Read", "Hasher", "Deserializer", "MapAccess", "SeqAccess", "Visitor", "VxKey", "VxRecord",
];

#[derive(Clone)]
pub struct SrcFn {
    pub sig: Signature,
    pub block: Option<Block>,
    pub file: String,
    pub line: usize,
    pub end_line: usize,
}

pub fn flat(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}

/// Raw texts that are spliced in at print time.
#[derive(Default)]
pub struct Store {
    pub texts: Vec<String>,
}
impl Store {
    pub fn add(&mut self, s: &str) -> usize {
        self.texts.push(s.to_string());
        self.texts.len() - 1
    }
    pub fn mark(&mut self, s: &str) -> Stmt {
        let n = Index::from(self.add(s));
        let e: Stmt = parse_quote!(vx_mark! { #n });
        e
    }
    pub fn pre(&mut self, s: &str) -> Stmt {
        let n = Index::from(self.add(s));
        parse_quote!(vx_pre! { #n })
    }
}

#[derive(Default, Clone, Debug)]
pub struct Report {
    pub rules: BTreeMap<String, usize>,
    pub lost: Vec<String>,
    pub loops: usize,
    pub closures: usize,
}
impl Report {
    pub fn hit(&mut self, r: &str) {
        *self.rules.entry(r.to_string()).or_insert(0) += 1;
    }
}

// ---------------------------------------------------------------- locals
pub struct Locals(pub Vec<String>);
impl<'ast> Visit<'ast> for Locals {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        let s = p.ident.to_string();
        if s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') && p.subpat.is_none() {
            self.0.push(s);
        }
        syn::visit::visit_pat_ident(self, p);
    }
}
pub fn locals(f: &SrcFn) -> Vec<String> {
    let mut l = Locals(vec![]);
    for a in &f.sig.inputs {
        if let FnArg::Typed(p) = a { l.visit_pat(&p.pat); }
    }
    if let Some(b) = &f.block { l.visit_block(b); }
    l.0
}

pub fn rename_words(text: &str, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() { return text.to_string(); }
    let mut out = String::new();
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_alphabetic() || cs[i] == '_' {
            let s = i;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') { i += 1; }
            let w: String = cs[s..i].iter().collect();
            let dot = s > 0 && cs[s - 1] == '.';
            match map.get(&w) { Some(n) if !dot => out.push_str(n), _ => out.push_str(&w) }
        } else {
            out.push(cs[i]);
            i += 1;
        }
    }
    out
}

// ---------------------------------------------------------------- macros
/// Expands `macro_rules!` macros with a single arm whose parameters are `$x:frag` separated by commas.
pub fn expand_simple(def: &TokenStream, args: &TokenStream) -> Option<TokenStream> {
    let v: Vec<proc_macro2::TokenTree> = def.clone().into_iter().collect();
    use proc_macro2::TokenTree as T;
    // ( params ) => { body } ;?
    let (params, body) = match (&v.get(0)?, &v.get(3)?) {
        (T::Group(p), T::Group(b)) => (p.stream(), b.stream()),
        _ => return None,
    };
    if v.len() > 5 { return None; }
    let pv: Vec<T> = params.into_iter().collect();
    // repetition shape: $($type:ident,)*
    if pv.len() == 3 {
        if let (T::Punct(d), T::Group(g), T::Punct(st)) = (&pv[0], &pv[1], &pv[2]) {
            if d.as_char() == '$' && st.as_char() == '*' {
                let inner: Vec<T> = g.stream().into_iter().collect();
                let name = match &inner.get(1)? { T::Ident(i) => i.to_string(), _ => return None };
                // body: $( ... )*
                let bv: Vec<T> = body.into_iter().collect();
                let rep = match &bv.get(1)? { T::Group(g) => g.stream(), _ => return None };
                let mut out = TokenStream::new();
                for a in split_commas(args) {
                    let mut m = BTreeMap::new();
                    m.insert(name.clone(), a);
                    out.extend(subst(rep.clone(), &m));
                }
                return Some(out);
            }
        }
    }
    let mut names = vec![];
    let mut i = 0;
    while i < pv.len() {
        if let T::Punct(p) = &pv[i] {
            if p.as_char() == '$' {
                if let T::Ident(id) = &pv.get(i + 1)? { names.push(id.to_string()); i += 4; continue; }
                return None;
            }
        }
        i += 1;
    }
    let a = split_commas(args);
    if a.len() != names.len() { return None; }
    let m: BTreeMap<String, TokenStream> = names.into_iter().zip(a).collect();
    Some(subst(body, &m))
}
fn split_commas(t: &TokenStream) -> Vec<TokenStream> {
    let mut out = vec![];
    let mut cur = TokenStream::new();
    for x in t.clone() {
        if let proc_macro2::TokenTree::Punct(p) = &x {
            if p.as_char() == ',' { out.push(std::mem::take(&mut cur)); continue; }
        }
        cur.extend(std::iter::once(x));
    }
    if !cur.is_empty() { out.push(cur); }
    out
}
fn subst(t: TokenStream, m: &BTreeMap<String, TokenStream>) -> TokenStream {
    use proc_macro2::TokenTree as T;
    let v: Vec<T> = t.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            T::Punct(p) if p.as_char() == '$' => {
                if let Some(T::Ident(id)) = v.get(i + 1) {
                    if let Some(r) = m.get(&id.to_string()) { out.extend(r.clone()); i += 2; continue; }
                }
                out.extend(std::iter::once(v[i].clone()));
            }
            T::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), m));
                ng.set_span(g.span());
                out.extend(std::iter::once(T::Group(ng)));
            }
            x => out.extend(std::iter::once(x.clone())),
        }
        i += 1;
    }
    out
}

pub struct MacroExpand<'a> {
    pub defs: &'a BTreeMap<String, TokenStream>,
    pub rep: &'a mut Report,
}
impl<'a> VisitMut for MacroExpand<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Macro(m) = &s {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if let Some(def) = self.defs.get(&name) {
                    if let Some(body) = expand_simple(def, &m.mac.tokens) {
                        if let Ok(blk) = parse2::<Block>(quote!({ #body })) {
                            self.rep.hit(&format!("R12 macro {}! expanded", name));
                            out.extend(blk.stmts);
                            continue;
                        }
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}

// ---------------------------------------------------------------- helper inlining
pub struct HasReturn(pub bool);
impl<'ast> Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
pub struct Inline<'a> {
    pub helpers: &'a BTreeMap<String, SrcFn>,
    pub rep: &'a mut Report,
    pub depth: usize,
    pub changed: bool,
}
impl<'a> Inline<'a> {
    fn body(&mut self, name: &str, recv_self: bool, args: Vec<Expr>) -> Option<Expr> {
        let h = self.helpers.get(name)?;
        let blk = h.block.clone()?;
        let mut hr = HasReturn(false);
        hr.visit_block(&blk);
        if hr.0 || self.depth > 3 { return None; }
        let mut lets: Vec<Stmt> = vec![];
        let mut it = args.into_iter();
        let mut has_self = false;
        for a in &h.sig.inputs {
            match a {
                FnArg::Receiver(_) => has_self = true,
                FnArg::Typed(p) => {
                    let v = it.next()?;
                    let (pat, ty) = (&p.pat, &p.ty);
                    if let Type::ImplTrait(_) = **ty { return None; }
                    lets.push(parse_quote!(let #pat: #ty = #v;));
                }
            }
        }
        if has_self != recv_self || it.next().is_some() { return None; }
        self.rep.hit(&format!("R20 helper {} inlined", name));
        self.changed = true;
        let stmts = blk.stmts;
        Some(parse_quote!({ #(#lets)* #(#stmts)* }))
    }
}
impl<'a> VisitMut for Inline<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::MethodCall(m) => {
                let is_self = flat(&m.receiver) == "self";
                if is_self { self.body(&m.method.to_string(), true, m.args.iter().cloned().collect()) } else { None }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() == 1 || (segs.len() == 2 && segs[0] == "Self") {
                        let name = segs.last().unwrap().clone();
                        let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                        if segs.len() == 2 && !args.is_empty() && flat(&args[0]) == "self" {
                            args.remove(0);
                            self.body(&name, true, args)
                        } else { self.body(&name, false, args) }
                    } else { None }
                } else { None }
            }
            _ => None,
        };
        if let Some(n) = new { *e = n; }
    }
}

// ---------------------------------------------------------------- hint anchors
struct Contains { pat: String, found: bool }
impl<'ast> Visit<'ast> for Contains {
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        if flat(s).contains(&self.pat) { self.found = true; }
    }
}
pub struct Anchor<'a> {
    pub pat: String,
    pub k: usize,
    pub text: String,
    pub before: bool,
    pub seen: usize,
    pub done: bool,
    pub store: &'a mut Store,
}
impl<'a> VisitMut for Anchor<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if self.done { out.push(s); continue; }
            if flat(&s).contains(&self.pat) {
                // innermost?
                let mut c = Contains { pat: self.pat.clone(), found: false };
                syn::visit::visit_stmt(&mut c, &s);
                if c.found {
                    visit_mut::visit_stmt_mut(self, &mut s);
                    out.push(s);
                } else {
                    self.seen += 1;
                    if self.seen == self.k {
                        self.done = true;
                        let m = self.store.mark(&self.text);
                        if self.before { out.push(m); out.push(s); } else {
                            if let Stmt::Expr(e, None) = s { s = Stmt::Expr(e, Some(Default::default())); }
                            out.push(s); out.push(m);
                        }
                    } else { out.push(s); }
                }
            } else { out.push(s); }
        }
        b.stmts = out;
    }
}

pub struct SelfRename;
impl VisitMut for SelfRename {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident("self") { *p = parse_quote!(vx_self); }
    }
}

// ---------------------------------------------------------------- types and bounds
pub struct TypeFix<'a> {
    pub rep: &'a mut Report,
    pub refcell: bool,
}
impl<'a> VisitMut for TypeFix<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        // a boxed iterator
        if let Type::Path(p) = t {
            if let Some(PathSegment { ident, arguments: PathArguments::AngleBracketed(a) }) = p.path.segments.last() {
                if let (true, Some(GenericArgument::Type(Type::TraitObject(o)))) = (ident == "Box", a.args.first()) {
                    let mut item = None;
                    let mut life = None;
                    for b in &o.bounds {
                        match b {
                            TypeParamBound::Trait(tb) => if let Some(PathSegment { ident, arguments: PathArguments::AngleBracketed(a) }) = tb.path.segments.last() {
                                if ident == "Iterator" { for g in &a.args { if let GenericArgument::AssocType(x) = g { if x.ident == "Item" { item = Some(x.ty.clone()); } } } }
                            },
                            TypeParamBound::Lifetime(l) => life = Some(l.clone()),
                            _ => {}
                        }
                    }
                    if let (Some(i), Some(l)) = (item, life) {
                        self.rep.hit("R32 boxed iterator written as its contract stub");
                        *t = parse_quote!(VxBoxIter<#l, #i>);
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
        match t {
            Type::Path(p) if p.qself.is_none() => {
                let last = p.path.segments.last().unwrap().clone();
                let name = last.ident.to_string();
                if TRAITS.contains(&name.as_str()) {
                    let path = &p.path;
                    self.rep.hit("R3 bare trait object written with dyn");
                    *t = parse_quote!((dyn #path));
                } else if self.refcell && ["RefCell", "Ref", "RefMut"].contains(&name.as_str()) {
                    if let PathArguments::AngleBracketed(a) = &last.arguments {
                        let inner = a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None }).next();
                        if let Some(i) = inner {
                            self.rep.hit("R15 RefCell erased");
                            *t = match name.as_str() { "RefCell" => i, "Ref" => parse_quote!(&#i), _ => parse_quote!(&mut #i) };
                        }
                    }
                }
            }
            Type::TraitObject(o) if o.dyn_token.is_none() => {
                self.rep.hit("R3 bare trait object written with dyn");
                o.dyn_token = Some(Default::default());
                let o = o.clone();
                *t = parse_quote!((#o));
            }
            _ => {}
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let fs = if segs.len() > 2 && segs[0] == "std" && segs[1] == "fs" { 2 } else if segs.len() > 1 && segs[0] == "fs" { 1 } else { 0 };
        if fs > 0 {
            p.leading_colon = None;
            p.segments = p.segments.iter().skip(fs).cloned().collect();
            self.rep.hit("R21 absolute path shortened");
        }
        if p.leading_colon.is_some() {
            p.leading_colon = None;
            if segs.len() == 3 && segs[0] == "std" && ["u8", "u16", "u32", "u64", "usize"].contains(&segs[1].as_str()) {
                p.segments = p.segments.iter().skip(1).cloned().collect();
            } else if segs[0] != "std" {
                let l = p.segments.last().unwrap().clone();
                p.segments = std::iter::once(l).collect();
            }
            self.rep.hit("R21 absolute path shortened");
        }
    }
}
impl<'a> TypeFix<'a> {
    fn keep(&self, b: &TypeParamBound) -> bool {
        match b {
            TypeParamBound::Trait(t) => {
                let n = t.path.segments.last().unwrap().ident.to_string();
                BOUNDS.contains(&n.as_str()) || TRAITS.contains(&n.as_str())
            }
            _ => true,
        }
    }
    fn into_iter_bound(&mut self, b: &mut TypeParamBound) {
        if let TypeParamBound::Trait(t) = b {
            let l = t.path.segments.last().unwrap().clone();
            if l.ident == "AsRef" && flat(&l.arguments) == "<Path>" {
                t.path = parse_quote!(VxPath);
                self.rep.hit("R2 AsRef<Path> bound routed to its contract stub");
                return;
            }
            if l.ident == "IntoIterator" {
                if let PathArguments::AngleBracketed(a) = &l.arguments {
                    for x in &a.args {
                        if let GenericArgument::AssocType(at) = x {
                            let ty = &at.ty;
                            t.path = parse_quote!(VxIntoIter<#ty>);
                            self.rep.hit("R2 IntoIterator bound routed to its contract stub");
                            return;
                        }
                    }
                }
            }
        }
    }
    pub fn generics(&mut self, g: &mut Generics) {
        if let Some(w) = &mut g.where_clause {
            for p in w.predicates.iter_mut() { if let WherePredicate::Type(t) = p { for b in t.bounds.iter_mut() { self.into_iter_bound(b); } } }
        }
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                for b in t.bounds.iter_mut() { self.into_iter_bound(b); }
                let n = t.bounds.len();
                t.bounds = t.bounds.iter().filter(|b| self.keep(b)).cloned().collect();
                if t.bounds.len() != n { self.rep.hit("R13 bound dropped"); }
                if t.bounds.is_empty() { t.colon_token = None; }
            }
        }
        if let Some(w) = &mut g.where_clause {
            let mut keep = vec![];
            for p in w.predicates.iter() {
                if let WherePredicate::Type(t) = p {
                    let mut t = t.clone();
                    let n = t.bounds.len();
                    t.bounds = t.bounds.iter().filter(|b| self.keep(b)).cloned().collect();
                    if t.bounds.len() != n { self.rep.hit("R13 bound dropped"); }
                    t.lifetimes = None;
                    if !t.bounds.is_empty() { keep.push(WherePredicate::Type(t)); }
                } else { keep.push(p.clone()); }
            }
            w.predicates = keep.into_iter().collect();
        }
        if g.where_clause.as_ref().map_or(false, |w| w.predicates.is_empty()) { g.where_clause = None; }
    }
    pub fn supertraits(&mut self, s: &mut punctuated::Punctuated<TypeParamBound, token::Plus>) {
        *s = s.iter().filter(|b| self.keep(b)).cloned().collect();
    }
}

// ---------------------------------------------------------------- expressions
pub struct Rw<'a> {
    pub spec: &'a FnSpec,
    pub store: &'a mut Store,
    pub rep: &'a mut Report,
    pub rename: BTreeMap<String, String>,
    pub refcell: bool,
    pub diverge: bool,
    pub reach: bool,
    pub used_loops: BTreeSet<usize>,
    pub used_closures: BTreeSet<usize>,
    pub erased_loops: Vec<usize>,
}

fn is_ctor(p: &Path) -> bool {
    let s = p.segments.last().unwrap().ident.to_string();
    s.chars().next().map_or(false, |c| c.is_uppercase()) && (p.segments.len() >= 2 || ["Some", "Ok", "Err", "Box"].contains(&s.as_str()))
}

/// `format!("a{}b{}c", x, y)` as nested concatenations of displayed values.
fn format_calls(t: &TokenStream) -> Option<Expr> {
    struct Args(punctuated::Punctuated<Expr, token::Comma>);
    impl parse::Parse for Args {
        fn parse(i: parse::ParseStream) -> Result<Self> { Ok(Args(i.parse_terminated(Expr::parse, Token![,])?)) }
    }
    let a: Args = parse2(t.clone()).ok()?;
    let mut it = a.0.into_iter();
    let s = match it.next()? { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(), _ => return None };
    let mut e: Option<Expr> = None;
    let mut lit = String::new();
    let mut cs = s.chars().peekable();
    while let Some(c) = cs.next() {
        if c == '{' && cs.peek() == Some(&'{') || c == '}' && cs.peek() == Some(&'}') { cs.next(); lit.push(c); continue; }
        if c != '{' { lit.push(c); continue; }
        let mut inner = String::new();
        loop { match cs.next()? { '}' => break, x => inner.push(x) } }
        let arg: Expr = if inner.is_empty() { it.next()? } else { parse_str(&inner).ok()? };
        let arg: Expr = match arg { Expr::Reference(r) => *r.expr, a => a };
        let d: Expr = parse_quote!(vx_disp(&#arg));
        e = Some(match e {
            None if lit.is_empty() => d,
            None => parse_quote!(vx_cat(#lit, &#d)),
            Some(p) if lit.is_empty() => parse_quote!(vx_cat(&#p, &#d)),
            Some(p) => parse_quote!(vx_cat(&vx_cat(&#p, #lit), &#d)),
        });
        lit = String::new();
    }
    if it.next().is_some() { return None; }
    match e { None => None, Some(p) if lit.is_empty() => Some(p), Some(p) => Some(parse_quote!(vx_cat(&#p, #lit))) }
}

fn is_str(p: &Pat) -> bool {
    match p { Pat::Lit(l) => matches!(l.lit, Lit::Str(_)), Pat::Or(o) => o.cases.iter().all(is_str), _ => false }
}
/// `match x { "a" => A, y => B }` as `if x == "a" { A } else { let y = x; B }`.
fn str_match(m: &ExprMatch) -> Option<Expr> {
    let mut out: Option<Expr> = None;
    for a in m.arms.iter().rev() {
        if a.guard.is_some() { return None; }
        let b = &a.body;
        let lits: Vec<&Pat> = match &a.pat { Pat::Or(o) => o.cases.iter().collect(), p => vec![p] };
        out = Some(match &a.pat {
            p if is_str(p) => {
                let els = out?;
                let cs: Vec<Expr> = lits.iter().map(|l| parse_quote!(vx_str_eq(vx_m, #l))).collect();
                parse_quote!(if #(#cs)||* { #b } else { #els })
            }
            Pat::Wild(_) => parse_quote!({ #b }),
            Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => { let i = &i.ident; parse_quote!({ let #i = vx_m; #b }) }
            _ => return None,
        });
    }
    let (x, o) = (&m.expr, out?);
    Some(parse_quote!({ let vx_m = #x; #o }))
}

/// Can the expression be read as a specification expression?
fn specable(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => specable(&f.base),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_) | UnOp::Not(_)) && specable(&u.expr),
        Expr::Reference(r) => r.mutability.is_none() && specable(&r.expr),
        Expr::Paren(p) => specable(&p.expr),
        Expr::Group(p) => specable(&p.expr),
        Expr::Tuple(t) => t.elems.iter().all(specable),
        Expr::Call(c) => match &*c.func { Expr::Path(p) => is_ctor(&p.path) && c.args.iter().all(specable), _ => false },
        Expr::Struct(s) => s.rest.is_none() && s.fields.iter().all(|f| specable(&f.expr)),
        Expr::Block(b) => b.block.stmts.len() == 1 && matches!(&b.block.stmts[0], Stmt::Expr(e, None) if specable(e)),
        _ => false,
    }
}

impl<'a> Rw<'a> {
    fn txt(&self, s: &str) -> String { rename_words(s, &self.rename) }
    fn inv(&self, n: usize, auto_inv: &str, auto_dec: &str) -> String {
        let p = self.spec.loops.get(&n).map(|s| self.txt(s)).unwrap_or_default();
        // payload: invariants (without the keyword) and optionally `decreases ...` / `ensures ...` lines
        let mut inv = String::new();
        let mut rest = String::new();
        let mut in_rest = false;
        for l in p.lines() {
            let t = l.trim_start();
            if t.starts_with("decreases") || t.starts_with("ensures") || t.starts_with("invariant_except_break") { in_rest = true; }
            if in_rest { rest.push_str(l); rest.push('\n'); } else { inv.push_str(l); inv.push('\n'); }
        }
        let has_dec = rest.contains("decreases");
        let mut out = String::new();
        if !auto_inv.is_empty() || !inv.trim().is_empty() {
            out.push_str(" invariant\n");
            out.push_str(auto_inv);
            out.push_str(&inv);
        }
        out.push_str(&rest);
        if !has_dec && !auto_dec.is_empty() { out.push_str(&format!(" decreases {},\n", auto_dec)); }
        out
    }
    fn body_stmts(&mut self, n: usize, b: &mut Block) {
        if let Some(t) = self.spec.loop_end.get(&n) {
            if let Some(Stmt::Expr(_, s)) = b.stmts.last_mut() { if s.is_none() { *s = Some(Default::default()); } }
            let t = self.txt(t);
            let m = self.store.mark(&t);
            b.stmts.push(m);
        }
    }
    fn loop_start(&mut self, n: usize) -> Vec<Stmt> {
        let mut v = vec![];
        if self.reach { v.push(self.store.mark("proof { assert(false); }")); }
        if let Some(t) = self.spec.loop_start.get(&n) {
            let t = self.txt(t);
            v.push(self.store.mark(&t));
        }
        v
    }
    fn wrap(&mut self, n: usize, e: Expr) -> Expr {
        let b = self.spec.loop_before.get(&n).map(|t| self.txt(t));
        let a = self.spec.loop_after.get(&n).map(|t| self.txt(t));
        if a.is_none() && b.is_none() { return e; }
        let mut st: Vec<Stmt> = vec![];
        if let Some(b) = b { st.push(self.store.mark(&b)); }
        st.push(Stmt::Expr(e, Some(Default::default())));
        if let Some(a) = a { st.push(self.store.mark(&a)); }
        parse_quote!({ #(#st)* })
    }
    fn closure(&mut self, c: &mut ExprClosure, n: usize) {
        let cs: ClosureSpec = self.spec.closures.get(&n).cloned().unwrap_or_default();
        if self.spec.closures.contains_key(&n) { self.used_closures.insert(n); }
        let mut names = vec![];
        let mut lets: Vec<Stmt> = vec![];
        let mut inputs: punctuated::Punctuated<Pat, token::Comma> = Default::default();
        for (i, p) in c.inputs.iter().enumerate() {
            let (pat, ty) = match p { Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())), x => (x.clone(), None) };
            let ty: Option<Type> = match cs.types.get(i) { Some(t) if !t.is_empty() => parse_str(t).ok(), _ => ty };
            let simple = matches!(&pat, Pat::Ident(x) if x.by_ref.is_none() && x.subpat.is_none());
            let name: Ident = if simple { if let Pat::Ident(x) = &pat { x.ident.clone() } else { unreachable!() } } else {
                self.rep.hit("R9 closure pattern parameter bound by let");
                Ident::new(&format!("vx_p{}_{}", n, i), proc_macro2::Span::call_site())
            };
            if !simple {
                lets.extend(pat_lets(&pat, &name));
            }
            names.push(name.to_string());
            let np: Pat = match ty { Some(t) => Pat::Type(PatType { attrs: vec![], pat: Box::new(parse_quote_pat(&name)), colon_token: Default::default(), ty: Box::new(t) }), None => parse_quote_pat(&name) };
            inputs.push(np);
        }
        let mut text = self.txt(&cs.text);
        for (i, nm) in names.iter().enumerate() { text = text.replace(&format!("${}", i), nm); }
        let body = &*c.body;
        let mut binds: Option<BTreeMap<String, String>> = Some(BTreeMap::new());
        for (i, p) in c.inputs.iter().enumerate() {
            let pat = match p { Pat::Type(t) => &*t.pat, x => x };
            if let Some(b) = binds.as_mut() { if !bind_pat(pat, &names[i], b) { binds = None; } }
        }
        if let (true, Some(binds)) = (text.trim().is_empty(), &binds) {
            let sub = |t: String| -> String { subst_words(&t, binds) };
            if specable(body) {
                let t = sub(flat_expr(body));
                text = format!("-> (vx_r: _) ensures vx_same(vx_r, {})", t);
                self.rep.hit("closure contract derived from its body");
            } else if let Expr::Call(call) = body {
                if let Expr::Path(p) = &*call.func {
                    if call.args.iter().all(specable) {
                        let f = p.to_token_stream().to_string();
                        let a = call.args.iter().map(|x| sub(x.to_token_stream().to_string())).collect::<Vec<_>>().join(", ");
                        text = format!("-> (vx_r: _) requires call_requires({f}, ({a},)) ensures call_ensures({f}, ({a},), vx_r)");
                        self.rep.hit("closure contract derived from its body");
                    }
                }
            }
        }
        c.inputs = inputs;
        let mut stmts: Vec<Stmt> = vec![];
        if !text.trim().is_empty() { stmts.push(self.store.pre(&text)); }
        stmts.extend(lets);
        match &*c.body {
            Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => stmts.extend(b.block.stmts.clone()),
            e => stmts.push(Stmt::Expr(e.clone(), None)),
        }
        c.output = ReturnType::Default;
        c.body = Box::new(parse_quote!({ #(#stmts)* }));
    }
}
/// What each variable of a pattern denotes, as an expression over `base`.
fn bind_pat(p: &Pat, base: &str, out: &mut BTreeMap<String, String>) -> bool {
    match p {
        Pat::Wild(_) => true,
        Pat::Ident(i) => { if i.by_ref.is_some() || i.subpat.is_some() { return false; } let n = i.ident.to_string(); if n != base { out.insert(n, base.to_string()); } true }
        Pat::Reference(r) => bind_pat(&r.pat, &format!("(*{})", base), out),
        Pat::Tuple(t) => t.elems.iter().enumerate().all(|(i, e)| bind_pat(e, &format!("{}.{}", base, i), out)),
        Pat::Paren(q) => bind_pat(&q.pat, base, out),
        Pat::Type(t) => bind_pat(&t.pat, base, out),
        _ => false,
    }
}
struct HasRefPat(bool);
impl<'ast> Visit<'ast> for HasRefPat { fn visit_pat_reference(&mut self, _: &'ast PatReference) { self.0 = true; } }
/// `let PAT = name;`, with reference patterns replaced by explicit dereferences.
fn pat_lets(pat: &Pat, name: &Ident) -> Vec<Stmt> {
    if matches!(pat, Pat::Wild(_)) { return vec![]; }
    let mut h = HasRefPat(false);
    h.visit_pat(pat);
    let mut m = BTreeMap::new();
    if h.0 && bind_pat(pat, &name.to_string(), &mut m) {
        return m.iter().map(|(k, v)| parse_str::<Stmt>(&format!("let {} = {};", k, v)).unwrap()).collect();
    }
    vec![parse_quote!(let #pat = #name;)]
}
fn subst_words(t: &str, m: &BTreeMap<String, String>) -> String { rename_words(t, m) }
fn parse_quote_pat(i: &Ident) -> Pat {
    Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: i.clone(), subpat: None })
}
fn flat_expr(e: &Expr) -> String {
    match e {
        Expr::Block(b) => b.block.stmts[0].to_token_stream().to_string(),
        e => e.to_token_stream().to_string(),
    }
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // drop log macros in statement position
        let n = b.stmts.len();
        b.stmts.retain(|s| match s {
            Stmt::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                !["debug", "info", "warn", "trace", "error", "println", "eprintln"].contains(&name.as_str())
            }
            _ => true,
        });
        for _ in b.stmts.len()..n { self.rep.hit("R4 log statement dropped"); }
        // statement macros that are expressions
        let last = b.stmts.len().wrapping_sub(1);
        for (k, s) in b.stmts.iter_mut().enumerate() {
            if let Stmt::Macro(m) = s {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if ["vx_mark", "vx_pre"].contains(&name.as_str()) { continue; }
                let semi = m.semi_token.or(Some(Default::default()));
                let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                let keep_tail = m.semi_token.is_none() && matches!(m.mac.delimiter, MacroDelimiter::Paren(_) | MacroDelimiter::Bracket(_));
                let ends = k == last && matches!(m.mac.path.segments.last().map(|p| p.ident.to_string()).as_deref(), Some("panic" | "unreachable" | "unimplemented"));
                *s = Stmt::Expr(e, if keep_tail || ends { None } else { semi });
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(_) = s { return; }
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Expr(e, Some(_)) = s {
            if flat(&*e) == "vstd::pervasive::unreached()" { *e = parse_quote!(vstd::pervasive::unreached::<()>()); }
            if flat(&*e) == "vx_diverge()" { *e = parse_quote!(vx_diverge::<()>()); }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(_) => {
                self.rep.loops += 1;
                let n = self.rep.loops;
                self.used_loops.insert(n);
                visit_mut::visit_expr_mut(self, e);
                let f = if let Expr::ForLoop(f) = e { f.clone() } else { unreachable!() };
                let (it, all) = (format!("vx_it{}", n), format!("vx_all{}", n));
                let iti = Ident::new(&it, proc_macro2::Span::call_site());
                let auto = format!("  {it}.all() == {all}, 0 <= {it}.pos() <= {all}.len(),\n");
                let inv = self.inv(n, &auto, &format!("{all}.len() - {it}.pos()"));
                let mut body = f.body.clone();
                self.body_stmts(n, &mut body);
                let pre = self.store.pre(&inv);
                let start = self.loop_start(n);
                let ga = self.store.mark(&format!("let ghost {all} = {it}.all();"));
                let before = self.spec.loop_before.get(&n).map(|t| self.txt(t)).map(|t| self.store.mark(&t)).into_iter();
                let after = self.spec.loop_after.get(&n).map(|t| self.txt(t)).map(|t| self.store.mark(&t)).into_iter();
                let (pat, expr, label) = (&f.pat, &f.expr, &f.label);
                let stmts = &body.stmts;
                let mut h = HasRefPat(false);
                h.visit_pat(pat);
                let lets: Vec<Stmt> = if h.0 {
                    let v = Ident::new(&format!("vx_v{}", n), proc_macro2::Span::call_site());
                    let mut l: Vec<Stmt> = vec![parse_quote!(let #v = #iti.vx_take();)];
                    l.extend(pat_lets(pat, &v));
                    l
                } else { vec![parse_quote!(let #pat = #iti.vx_take();)] };
                let w: Expr = parse_quote!(#label while #iti.vx_more() { #pre #(#lets)* #(#start)* #(#stmts)* });
                self.rep.hit("R2 for loop desugared");
                *e = parse_quote!({ let mut #iti = (#expr).vx_into_iter(); #ga #(#before)* #w #(#after)* });
                return;
            }
            Expr::While(_) => {
                self.rep.loops += 1;
                let n = self.rep.loops;
                self.used_loops.insert(n);
                visit_mut::visit_expr_mut(self, e);
                let mut w = if let Expr::While(w) = e { w.clone() } else { unreachable!() };
                let inv = self.inv(n, "", "");
                let start = self.loop_start(n);
                self.body_stmts(n, &mut w.body);
                let pre = self.store.pre(&inv);
                if let Expr::Let(l) = &*w.cond {
                    let (pat, ex, stmts, label) = (&l.pat, &l.expr, &w.body.stmts, &w.label);
                    self.rep.hit("R7 while let desugared");
                    let l: Expr = parse_quote!(#label loop { #pre match #ex { #pat => { #(#start)* #(#stmts)* } _ => { break; } } });
                    *e = self.wrap(n, l);
                } else {
                    let mut st = vec![pre];
                    st.extend(start);
                    st.extend(std::mem::take(&mut w.body.stmts));
                    w.body.stmts = st;
                    *e = self.wrap(n, Expr::While(w));
                }
                return;
            }
            Expr::Loop(_) => {
                self.rep.loops += 1;
                let n = self.rep.loops;
                self.used_loops.insert(n);
                visit_mut::visit_expr_mut(self, e);
                let mut w = if let Expr::Loop(w) = e { w.clone() } else { unreachable!() };
                let inv = self.inv(n, "", "");
                let start = self.loop_start(n);
                self.body_stmts(n, &mut w.body);
                let pre = self.store.pre(&inv);
                let mut st = vec![pre];
                st.extend(start);
                st.extend(std::mem::take(&mut w.body.stmts));
                w.body.stmts = st;
                *e = Expr::Loop(w);
                return;
            }
            Expr::Closure(_) => {
                self.rep.closures += 1;
                let n = self.rep.closures;
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Closure(c) = e { self.closure(c, n); }
                return;
            }
            Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 && matches!(m.args[0], Expr::Closure(_)) => {
                // the closure number this argument would get: receivers are visited first
                let save = self.rep.closures;
                self.visit_expr_mut(&mut m.receiver);
                let n = self.rep.closures + 1;
                let _ = save;
                if self.spec.closures.get(&n).map_or(false, |c| c.optmap) {
                    self.rep.closures += 1;
                    self.used_closures.insert(n);
                    let mut c = if let Expr::Closure(c) = &m.args[0] { c.clone() } else { unreachable!() };
                    self.visit_expr_mut(&mut c.body);
                    let (p, b, r) = (&c.inputs[0], &c.body, &m.receiver);
                    self.rep.hit("R18 Option::map with a mutating closure written as match");
                    *e = parse_quote!(match #r { Some(#p) => Some(#b), None => None });
                } else {
                    for a in m.args.iter_mut() { self.visit_expr_mut(a); }
                }
                return;
            }
            Expr::MethodCall(m) if m.method == "or_insert_with" || m.method == "or_insert" => {
                if let Expr::MethodCall(en) = &*m.receiver {
                    if en.method == "entry" && en.args.len() == 1 && m.args.len() == 1 {
                        let (mp, k) = (en.receiver.clone(), en.args[0].clone());
                        let v: Option<Expr> = match &m.args[0] {
                            Expr::Closure(c) if m.method == "or_insert_with" && c.inputs.is_empty() => Some((*c.body).clone()),
                            Expr::Path(p) if m.method == "or_insert_with" => { let p = p.clone(); Some(parse_quote!(#p())) }
                            x if m.method == "or_insert" => Some(x.clone()),
                            _ => None,
                        };
                        if let Some(v) = v {
                            if matches!(&m.args[0], Expr::Closure(_)) { self.rep.closures += 1; }
                            self.rep.hit("R17 entry().or_insert_with() written as lookup and insert");
                            let pre: Stmt = if m.method == "or_insert" { parse_quote!(let vx_v = #v;) } else { parse_quote!({}) };
                            let vv: Expr = if m.method == "or_insert" { parse_quote!(vx_v) } else { v };
                            let kk: Expr = if self.spec.opts.iter().any(|o| o == "rowcells") { parse_quote!(vx_dup(&vx_k)) } else { parse_quote!(vx_k) };
                            *e = parse_quote!({ let vx_k = #k; #pre if !#mp.contains_key(&vx_k) { let vx_n = #vv; #mp.insert(#kk, vx_n); } #mp.get_mut(&vx_k).unwrap() });
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                }
            }
            _ => {}
        }
        // rows of text
        if self.spec.opts.iter().any(|o| o == "rowcells") {
            let cell = |e: &Expr| -> Option<(Expr, Expr)> { if let Expr::Index(ix) = e { if !matches!(&*ix.index, Expr::Range(_) | Expr::Reference(_)) { return Some(((*ix.expr).clone(), (*ix.index).clone())); } } None };
            let inner: Option<(Expr, Expr)> = match e {
                Expr::Reference(r) if r.mutability.is_none() => cell(&r.expr),
                Expr::Index(_) => cell(&*e),
                _ => None,
            };
            if let Some((mut b, mut i)) = inner {
                self.visit_expr_mut(&mut b);
                self.visit_expr_mut(&mut i);
                self.rep.hit("R33 cell of a row and text added to text written as calls");
                *e = parse_quote!(#b.vx_cell(#i));
                return;
            }
            if let Expr::Binary(b) = e {
                if matches!(b.op, BinOp::Add(_)) {
                    let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                    self.visit_expr_mut(&mut l);
                    self.visit_expr_mut(&mut r);
                    self.rep.hit("R33 cell of a row and text added to text written as calls");
                    *e = parse_quote!(vx_cat(&(#l), #r));
                    return;
                }
            }
        }
        // index expressions and ranges need the parent first
        if let Expr::Index(ix) = e {
            match &*ix.index {
                Expr::Range(r) => {
                    let mut base = (*ix.expr).clone();
                    let r = r.clone();
                    self.visit_expr_mut(&mut base);
                    let mut st = r.start.clone();
                    let mut en = r.end.clone();
                    if let Some(s) = st.as_mut() { self.visit_expr_mut(s) }
                    if let Some(s) = en.as_mut() { self.visit_expr_mut(s) }
                    self.rep.hit("R6 range index written as a call");
                    *e = match (st, en, &r.limits) {
                        (None, None, _) => parse_quote!((*#base.vx_full())),
                        (Some(a), None, _) => parse_quote!((*#base.vx_from(#a))),
                        (None, Some(b), RangeLimits::HalfOpen(_)) => parse_quote!((*#base.vx_to(#b))),
                        (Some(a), Some(b), RangeLimits::HalfOpen(_)) => parse_quote!((*#base.vx_sub(#a, #b))),
                        _ => e.clone(),
                    };
                    return;
                }
                Expr::Reference(rf) if rf.mutability.is_none() => {
                    let mut base = (*ix.expr).clone();
                    let mut k = (*rf.expr).clone();
                    self.visit_expr_mut(&mut base);
                    self.visit_expr_mut(&mut k);
                    self.rep.hit("R16 map index written as a call");
                    *e = parse_quote!((*#base.vx_index(&#k)));
                    return;
                }
                _ => {}
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            if m.args.len() == 1 {
                if let Expr::Range(r) = &m.args[0] {
                    if r.end.is_none() {
                        if let Some(s) = &r.start {
                            let s = s.clone();
                            m.method = Ident::new(&format!("{}_from", name), m.method.span());
                            m.args = std::iter::once((*s).clone()).collect();
                        } else {
                            m.method = Ident::new(&format!("{}_full", name), m.method.span());
                            m.args.clear();
                        }
                        self.rep.hit("R6 range argument written as a call");
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Match(m) if m.arms.iter().any(|a| is_str(&a.pat)) => {
                if let Some(n) = str_match(m) {
                    self.rep.hit("R31 match on text written as comparisons");
                    *e = n;
                }
            }
            Expr::Cast(c) if flat(&c.ty).starts_with("Box<") => {
                self.rep.hit("R23 cast to a boxed trait object left to coercion");
                *e = (*c.expr).clone();
            }
            Expr::Range(r) => {
                if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                    self.rep.hit("R6 range written as a call");
                    *e = parse_quote!(vx_range(#a, #b));
                }
            }
            Expr::Paren(p) => {
                if let Expr::Call(c) = &*p.expr {
                    if flat(&c.func) == "vx_range" { *e = (*p.expr).clone(); }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let fl = format!("{}.{}", flat(&m.receiver).replace("vx_self", "self"), name);
                if let Some((_, a)) = self.spec.ghost_args.iter().find(|(p, _)| *p == fl || p.strip_prefix("*.") == Some(name.as_str())) {
                    let n = Index::from(self.store.add(&self.txt(a)));
                    m.args.push(parse_quote!(vx_text! { #n }));
                }
                let new = match name.as_str() {
                    "into_iter" => Some("vx_into_iter"),
                    "iter" => Some("vx_iter"),
                    "iter_mut" => Some("vx_iter_mut"),
                    "extend" => Some("vx_extend"),
                    "into" => Some("vx_into"),
                    "binary_search" => Some("vx_binary_search"),
                    "unwrap" | "expect" if self.diverge => { m.args.clear(); Some("vx_must") }
                    "len" if self.spec.opts.iter().any(|o| o == "textlen") => Some("vx_len"),
                    "add" => Some("vx_add"),
                    "as_ptr" => Some("vx_as_ptr"),
                    "hash" => Some("vx_hash"),
                    "all" if m.args.len() == 1 => Some("all_ok"),
                    "to_vec" => Some("vx_to_vec"),
                    // the greatest of a sequence of references
                    "max" | "min" if m.args.is_empty() && matches!(&*m.receiver, Expr::MethodCall(r) if matches!(r.method.to_string().as_str(), "keys" | "vx_iter" | "values")) => Some(if name == "max" { "max_ref" } else { "min_ref" }),
                    _ => None,
                };
                if let Some(n) = new {
                    m.method = Ident::new(n, m.method.span());
                    self.rep.hit(&format!("R19 std method {} routed to its contract stub", name));
                }
                if self.refcell && name == "borrow" && m.args.is_empty() {
                    let r = &m.receiver;
                    self.rep.hit("R15 RefCell erased");
                    *e = parse_quote!((&#r));
                    return;
                }
                if self.refcell && name == "borrow_mut" && m.args.is_empty() {
                    let r = &m.receiver;
                    self.rep.hit("R15 RefCell erased");
                    *e = parse_quote!((&mut #r));
                    return;
                }
                if let Expr::MethodCall(m) = e {
                    for a in m.args.iter_mut() {
                        if let Expr::Path(p) = a {
                            if is_ctor(&p.path) {
                                let p = p.clone();
                                self.rep.hit("R8 constructor used as a function written as a closure");
                                let n = if self.spec.opts.iter().any(|o| o == "mutctor") {
                                    self.store.add(&format!("-> (vx_r: _) ensures (match vx_r {{ {}(vx_y) => *vx_y == *old(vx_x) && *final(vx_y) == *final(vx_x), _ => false }})", p.to_token_stream()))
                                } else {
                                    self.store.add(&format!("-> (vx_r: _) ensures vx_same(vx_r, {}(vx_x))", p.to_token_stream()))
                                };
                                let n = Index::from(n);
                                *a = parse_quote!(|vx_x| { vx_pre! { #n } #p(vx_x) });
                            }
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if flat(&c.func) == "Box::new" && c.args.len() == 1 && self.spec.opts.iter().any(|o| o == "unbox") {
                    self.rep.hit("R32 boxed iterator written as its contract stub");
                    *e = c.args[0].clone();
                    return;
                }
                if flat(&c.func) == "Some" && c.args.len() == 1 && matches!(&c.args[0], Expr::Path(_)) && self.spec.opts.iter().any(|o| o == "unsizemut") {
                    self.rep.hit("R34 coercion of a mutable reference to a trait object written as its contract stub");
                    let a = c.args[0].clone();
                    c.args[0] = parse_quote!(vx_unsize_mut(#a));
                    return;
                }
                if self.refcell && flat(&c.func) == "RefCell::new" {
                    self.rep.hit("R15 RefCell erased");
                    *e = c.args[0].clone();
                    return;
                }
                // ghost arguments
                let fl = flat(&c.func);
                if let Some((_, a)) = self.spec.ghost_args.iter().find(|(p, _)| *p == fl) {
                    let n = Index::from(self.store.add(&self.txt(a)));
                    c.args.push(parse_quote!(vx_text! { #n }));
                }
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                match name.as_str() {
                    "panic" | "unreachable" | "unimplemented" if self.diverge => {
                        self.rep.hit("R26 a panic ends the call: nothing is claimed of a call that does not return");
                        *e = parse_quote!(vx_diverge());
                    }
                    "format" => {
                        if let Some(n) = format_calls(&m.mac.tokens) {
                            self.rep.hit("R27 format! written as concatenation");
                            *e = n;
                            visit_mut::visit_expr_mut(self, e);
                        }
                    }
                    "panic" | "unreachable" | "unimplemented" => {
                        self.rep.hit("R5 panic! must be unreachable");
                        *e = parse_quote!(vstd::pervasive::unreached());
                    }
                    "assert" | "debug_assert" => {
                        let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, token::Comma>::parse_terminated);
                        if let Ok(a) = args {
                            let mut c = a[0].clone();
                            self.visit_expr_mut(&mut c);
                            if self.diverge {
                                self.rep.hit("R26 a panic ends the call: nothing is claimed of a call that does not return");
                                *e = parse_quote!(vx_check(#c));
                            } else {
                                self.rep.hit("R5 assert! must hold");
                                *e = parse_quote!(vx_assert(#c));
                            }
                        }
                    }
                    "assert_eq" | "debug_assert_eq" => {
                        let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, token::Comma>::parse_terminated);
                        if let Ok(a) = args {
                            let (mut x, mut y) = (a[0].clone(), a[1].clone());
                            self.visit_expr_mut(&mut x);
                            self.visit_expr_mut(&mut y);
                            self.rep.hit("R5 assert! must hold");
                            *e = parse_quote!(vx_assert(#x == #y));
                        }
                    }
                    "debug" | "info" | "warn" | "trace" | "error" => {
                        self.rep.hit("R4 log statement dropped");
                        *e = parse_quote!(());
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- method chains
/// Splits the method chain a statement starts with into one `let` per intermediate result (vx_c1, vx_c2, ...).
pub struct Chain<'a> { pub n: usize, pub rep: &'a mut Report, pub store: &'a mut Store, pub after: BTreeMap<usize, String> }
impl<'a> Chain<'a> {
    fn split(&mut self, e: &mut Expr, out: &mut Vec<Stmt>) {
        match e {
            Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(_)) => self.split(&mut c.args[0], out),
            Expr::Paren(p) => self.split(&mut p.expr, out),
            Expr::MethodCall(m) => {
                if let Expr::MethodCall(_) = &*m.receiver {
                    self.split(&mut m.receiver, out);
                    self.n += 1;
                    let v = Ident::new(&format!("vx_c{}", self.n), proc_macro2::Span::call_site());
                    let r = &m.receiver;
                    out.push(parse_quote!(let #v = #r;));
                    if let Some(t) = self.after.remove(&self.n) { out.push(self.store.mark(&t)); }
                    *m.receiver = parse_quote!(#v);
                    self.rep.hit("R22 method chain split into lets");
                }
            }
            _ => {}
        }
    }
}
impl<'a> VisitMut for Chain<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            visit_mut::visit_stmt_mut(self, &mut s);
            match &mut s {
                Stmt::Expr(e, _) => self.split(e, &mut out),
                Stmt::Local(l) => { if let Some(i) = l.init.as_mut() { self.split(&mut i.expr, &mut out); } }
                _ => {}
            }
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}
