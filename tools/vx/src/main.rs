//! vx: takes functions and types out of /repo/src mechanically and splices contracts into them, for Verus.
//!
//! vx <repo src> <spec file> <out.rs> <out map.json> [--canary] [--stub <fn>]...
//!
//! The extraction works on the source *text*: every change is an edit of a byte range found through the syntax tree, so what
//! Verus reads is the code that runs except for the edits listed in DESIGN.md ("What the extraction changes").
//! --canary puts `assert(false)` at the entry of every function under proof (which must then fail: vacuity guard);
//! --stub takes a function's contract without its body.
mod lower;
mod prep;
mod spec;

use lower::*;
use spec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::spanned::Spanned;

pub struct Src {
    pub text: String,
    pub ast: syn::File,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "))
}

fn cfg_off(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = quote::quote!(#a).to_string();
        t.contains("cfg") && (t.contains("test") || t.contains("rescan_verif") || t.contains("kani"))
    })
}

/// A function found in a source file.
pub struct Found<'a> {
    pub item: FnRef<'a>,
    pub imp: Option<&'a syn::ItemImpl>,
}
pub enum FnRef<'a> {
    Free(&'a syn::ItemFn),
    Method(&'a syn::ImplItemFn),
}
impl<'a> FnRef<'a> {
    pub fn sig(&self) -> &'a syn::Signature {
        match self { FnRef::Free(f) => &f.sig, FnRef::Method(f) => &f.sig }
    }
    pub fn block(&self) -> &'a syn::Block {
        match self { FnRef::Free(f) => &f.block, FnRef::Method(f) => &f.block }
    }
}

pub fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => String::new(),
    }
}

pub fn find_fn<'a>(ast: &'a syn::File, path: &str) -> Option<Found<'a>> {
    // TYPE::fn@ARG: of several implementations of a trait, the one for ARG.
    let (path, arg) = match path.split_once('@') { Some((p, a)) => (p, Some(a)), None => (path, None) };
    let parts: Vec<&str> = path.split("::").collect();
    for it in &ast.items {
        match it {
            syn::Item::Fn(f) if parts.len() == 1 && f.sig.ident == parts[0] && !cfg_off(&f.attrs) => {
                return Some(Found { item: FnRef::Free(f), imp: None });
            }
            syn::Item::Impl(im) if parts.len() == 2 && !cfg_off(&im.attrs) && type_name(&im.self_ty) == parts[0] => {
                if let Some(a) = arg {
                    let hit = im.trait_.as_ref().and_then(|t| t.1.segments.last()).map_or(false, |s| match &s.arguments {
                        syn::PathArguments::AngleBracketed(g) => g.args.iter().any(|x| matches!(x, syn::GenericArgument::Type(t) if type_name(t) == a)),
                        _ => false,
                    });
                    if !hit { continue; }
                }
                for m in &im.items {
                    if let syn::ImplItem::Fn(f) = m {
                        if f.sig.ident == parts[1] && !cfg_off(&f.attrs) {
                            return Some(Found { item: FnRef::Method(f), imp: Some(im) });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

/// All functions of a file, as paths.
fn all_fns(ast: &syn::File) -> Vec<String> {
    let mut v = vec![];
    for it in &ast.items {
        match it {
            syn::Item::Fn(f) if !cfg_off(&f.attrs) => v.push(f.sig.ident.to_string()),
            syn::Item::Impl(im) if !cfg_off(&im.attrs) => {
                for m in &im.items {
                    if let syn::ImplItem::Fn(f) = m {
                        if !cfg_off(&f.attrs) {
                            v.push(format!("{}::{}", type_name(&im.self_ty), f.sig.ident));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    v
}

struct Out {
    text: String,
    line: usize,
}
impl Out {
    fn push(&mut self, s: &str) {
        self.text.push_str(s);
        self.line += s.matches('\n').count();
    }
}

struct Entry {
    name: String,
    file: String,
    src_line: usize,
    start: usize,
    end: usize,
    verify: bool,
    contract: bool,
    stubbed: bool,
    lost: Vec<String>,
    helpers: Vec<String>,
    shape: Vec<String>,
}

/// The paths a file imports.
fn imports(ast: &syn::File) -> Vec<String> {
    fn go(t: &syn::UseTree, pre: &str, out: &mut Vec<String>) {
        match t {
            syn::UseTree::Path(p) => go(&p.tree, &format!("{}{}::", pre, p.ident), out),
            syn::UseTree::Name(n) => out.push(if n.ident == "self" { pre.trim_end_matches("::").to_string() } else { format!("{}{}", pre, n.ident) }),
            syn::UseTree::Group(g) => for x in &g.items { go(x, pre, out) },
            _ => {}
        }
    }
    let mut v = vec![];
    for i in &ast.items { if let syn::Item::Use(u) = i { go(&u.tree, "", &mut v); } }
    v
}

/// Whether the code names this, by itself: as a value, or, when it has a type's name, as a type.
fn names(ast: &syn::File, name: &str) -> bool {
    struct N<'n>(&'n str, bool);
    impl<'n, 'a> syn::visit::Visit<'a> for N<'n> {
        fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
            if p.path.is_ident(self.0) { self.1 = true; }
            syn::visit::visit_expr_path(self, p);
        }
        fn visit_path(&mut self, p: &'a syn::Path) {
            if self.0.starts_with(char::is_uppercase) && p.segments.first().map_or(false, |s| s.ident == self.0) { self.1 = true; }
            syn::visit::visit_path(self, p);
        }
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            if m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == self.0) { self.1 = true; }
        }
    }
    let mut n = N(name, false);
    syn::visit::Visit::visit_file(&mut n, ast);
    n.1
}

/// The value of an integer literal, or of one shifted by another.
fn literal(t: &str) -> Option<u128> {
    let t = t.replace(['_', ' ', '(', ')'], "");
    if let Some((a, b)) = t.split_once("<<") { return Some(literal(a)? << literal(b)?); }
    let d = |t: &str| t.find(['u', 'i']).map_or(t.to_string(), |k| t[..k].to_string());
    match t.get(..2) {
        Some("0x") => u128::from_str_radix(&d(&t[2..]), 16).ok(),
        Some("0b") => u128::from_str_radix(&d(&t[2..]), 2).ok(),
        _ => d(&t).parse().ok(),
    }
}

/// What a use of bitflags! (version 1) defines: the flags are taken from the source, their operations are those it documents.
fn flags_type(src: &Src, name: &str) -> Option<String> {
    for i in &src.ast.items {
        let m = match i { syn::Item::Macro(m) if m.mac.path.is_ident("bitflags") => m, _ => continue };
        // pub struct NAME: TYPE { const A = V; ... } is close enough to an impl for a walk over its tokens.
        let t: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
        let k = match t.iter().position(|x| x.to_string() == "struct") { Some(k) => k, None => continue };
        if t.get(k + 1).map(|x| x.to_string()).as_deref() != Some(name) { continue; }
        let ty = t.get(k + 3)?.to_string();
        let body = t[k..].iter().find_map(|x| match x { proc_macro2::TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace => Some(g.stream()), _ => None })?;
        let b: Vec<proc_macro2::TokenTree> = body.into_iter().collect();
        let (mut consts, mut names, mut single, mut j) = (String::new(), vec![], vec![], 0);
        while j < b.len() {
            if b[j].to_string() == "const" {
                let n = b.get(j + 1)?.to_string();
                let end = (j + 3..b.len()).find(|e| b[*e].to_string() == ";")?;
                let v: proc_macro2::TokenStream = b[j + 3..end].iter().cloned().collect();
                consts.push_str(&format!("pub const {}: {} = {} {{ bits: {} }};\n", n, name, name, v));
                if let Some(x) = literal(&v.to_string()).filter(|x| x.is_power_of_two()) { single.push((n.clone(), x)); }
                names.push(n);
                j = end;
            }
            j += 1;
        }
        let all: Vec<String> = names.iter().map(|n| format!("{}::{}.bits", name, n)).collect();
        return Some(format!("#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub struct {n} {{ pub bits: {ty} }}
impl {n} {{
{consts}pub const ALL_BITS: {ty} = {all};
pub fn default() -> (r: {n}) ensures r.bits == 0 {{ {n} {{ bits: 0 }} }}
pub fn empty() -> (r: {n}) ensures r.bits == 0 {{ {n} {{ bits: 0 }} }}
pub fn all() -> (r: {n}) ensures r.bits == {n}::ALL_BITS {{ {n} {{ bits: {n}::ALL_BITS }} }}
pub fn bits(&self) -> (r: {ty}) ensures r == self.bits {{ self.bits }}
pub fn is_empty(&self) -> (r: bool) ensures r == (self.bits == 0) {{ self.bits == 0 }}
pub fn is_all(&self) -> (r: bool) ensures r == ({n}::ALL_BITS | self.bits == self.bits) {{ {n}::ALL_BITS | self.bits == self.bits }}
pub fn contains(&self, o: {n}) -> (r: bool) ensures r == (self.bits & o.bits == o.bits) {{ self.bits & o.bits == o.bits }}
pub fn intersects(&self, o: {n}) -> (r: bool) ensures r == (self.bits & o.bits != 0) {{ self.bits & o.bits != 0 }}
pub fn insert(&mut self, o: {n}) ensures final(self).bits == old(self).bits | o.bits {{ self.bits = self.bits | o.bits; }}
pub fn remove(&mut self, o: {n}) ensures final(self).bits == old(self).bits & !o.bits {{ self.bits = self.bits & !o.bits; }}
pub fn union(self, o: {n}) -> (r: {n}) ensures r.bits == self.bits | o.bits {{ {n} {{ bits: self.bits | o.bits }} }}
pub fn intersection(self, o: {n}) -> (r: {n}) ensures r.bits == self.bits & o.bits {{ {n} {{ bits: self.bits & o.bits }} }}
pub fn difference(self, o: {n}) -> (r: {n}) ensures r.bits == self.bits & !o.bits {{ {n} {{ bits: self.bits & !o.bits }} }}
pub fn complement(self) -> (r: {n}) ensures r.bits == {n}::ALL_BITS & !self.bits {{ {n} {{ bits: {n}::ALL_BITS & !self.bits }} }}
}}
/// A flag of one bit is there or it is not.
pub mod vx_bits_{n} {{
use vstd::prelude::*;
{lemmas}pub broadcast group g {{ {group} }}
}}
{ops}",
            lemmas = single.iter().map(|(c, x)| format!("pub broadcast proof fn {c}(f: {ty}) ensures #[trigger] (f & {x}{ty}) == 0 || f & {x}{ty} == {x}{ty} {{ assert(f & {x}{ty} == 0 || f & {x}{ty} == {x}{ty}) by (bit_vector); }}\n")).collect::<String>(),
            group = single.iter().map(|(c, _)| c.clone()).collect::<Vec<_>>().join(", "),
            n = name, ty = ty, consts = consts, all = all.join(" | "),
            ops = [("BitOr", "bitor", "|"), ("BitAnd", "bitand", "&"), ("BitXor", "bitxor", "^")].iter().map(|(t, f, o)| format!("impl vstd::std_specs::ops::{t}SpecImpl for {n} {{
open spec fn obeys_{f}_spec() -> bool {{ true }}
open spec fn {f}_req(self, o: {n}) -> bool {{ true }}
open spec fn {f}_spec(self, o: {n}) -> {n} {{ {n} {{ bits: self.bits {o} o.bits }} }}
}}
impl core::ops::{t} for {n} {{ type Output = {n}; fn {f}(self, o: {n}) -> {n} {{ {n} {{ bits: self.bits {o} o.bits }} }} }}\n", t = t, f = f, o = o, n = name)).collect::<String>()
            + &format!("impl vstd::std_specs::ops::NotSpecImpl for {n} {{
open spec fn obeys_not_spec() -> bool {{ true }}
open spec fn not_req(self) -> bool {{ true }}
open spec fn not_spec(self) -> {n} {{ {n} {{ bits: {n}::ALL_BITS & !self.bits }} }}
}}
impl core::ops::Not for {n} {{ type Output = {n}; fn not(self) -> {n} {{ {n} {{ bits: {n}::ALL_BITS & !self.bits }} }} }}
impl vstd::std_specs::ops::SubSpecImpl for {n} {{
open spec fn obeys_sub_spec() -> bool {{ true }}
open spec fn sub_req(self, o: {n}) -> bool {{ true }}
open spec fn sub_spec(self, o: {n}) -> {n} {{ {n} {{ bits: self.bits & !o.bits }} }}
}}
impl core::ops::Sub for {n} {{ type Output = {n}; fn sub(self, o: {n}) -> {n} {{ {n} {{ bits: self.bits & !o.bits }} }} }}\n", n = name)));
    }
    None
}

/// Edits that make a type definition usable: attributes dropped, everything public.
fn type_edits(fields: Option<&syn::Fields>, variants: Option<&syn::punctuated::Punctuated<syn::Variant, syn::Token![,]>>, ed: &mut Vec<Edit>) {
    let mut field = |f: &syn::Field, named: bool| {
        for a in &f.attrs { ed.push(Edit::auto(a.span().byte_range(), "")); }
        if named {
            let id = f.ident.as_ref().unwrap().span().byte_range().start;
            let st = match &f.vis { syn::Visibility::Inherited => id, v => v.span().byte_range().start };
            ed.push(Edit::auto(st..id, "pub "));
        }
    };
    if let Some(fs) = fields {
        let named = matches!(fs, syn::Fields::Named(_));
        for f in fs { field(f, named); }
    }
    if let Some(vs) = variants {
        for v in vs {
            for a in &v.attrs { ed.push(Edit::auto(a.span().byte_range(), "")); }
        }
    }
}

fn has_derive(attrs: &[syn::Attribute], d: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident("derive") && {
        let t = quote::quote!(#a).to_string();
        t.replace(|c: char| !c.is_alphanumeric(), " ").split_whitespace().any(|w| w == d)
    })
}

fn default_of(ty: &str) -> String {
    let t = ty.split_whitespace().collect::<String>();
    if t.starts_with("Vec<") { "Vec::new()".into() }
    else if t.starts_with("Option<") { "None".into() }
    else if t == "String" { "String::new()".into() }
    else if t == "bool" { "false".into() }
    else if ["u8", "u16", "u32", "u64", "usize", "i32", "i64"].contains(&t.as_str()) { "0".into() }
    else if t.starts_with("HashSet<") { "HashSet::new()".into() }
    else if t.starts_with("HashMap<") { "HashMap::new()".into() }
    else if let Some(n) = t.strip_prefix("[u64;").and_then(|x| x.strip_suffix(']')) { format!("[0; {}]", n) }
    else { format!("{}::default()", t) }
}

/// Every name the source declares: (kind, file, owner, name, what it is without its name).
fn decls(root: &str) -> Vec<[String; 5]> {
    fn files(d: &std::path::Path, v: &mut Vec<std::path::PathBuf>) {
        let mut es: Vec<_> = std::fs::read_dir(d).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        es.sort();
        for p in es {
            if p.is_dir() { files(&p, v) } else if p.extension().map_or(false, |x| x == "rs") { v.push(p) }
        }
    }
    fn tok<T: quote::ToTokens>(t: &T) -> String { quote::quote!(#t).to_string() }
    fn sig(s: &syn::Signature) -> String {
        let ins: Vec<String> = s.inputs.iter().map(|i| match i { syn::FnArg::Receiver(r) => tok(r), syn::FnArg::Typed(t) => tok(&t.ty) }).collect();
        format!("{} ({}) {}", tok(&s.generics), ins.join(", "), tok(&s.output))
    }
    fn fields(f: &syn::Fields) -> Vec<(String, String)> {
        f.iter().filter_map(|x| x.ident.as_ref().map(|i| (i.to_string(), tok(&x.ty)))).collect()
    }
    let (mut v, mut fs) = (vec![], vec![]);
    files(std::path::Path::new(root), &mut fs);
    for p in fs {
        let rel = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
        let ast = match std::fs::read_to_string(&p).ok().and_then(|t| syn::parse_file(&t).ok()) { Some(a) => a, None => continue };
        for it in &ast.items {
            match it {
                syn::Item::Struct(s) if !cfg_off(&s.attrs) => {
                    let f = fields(&s.fields);
                    for (n, t) in &f { v.push(["field".into(), rel.clone(), s.ident.to_string(), n.clone(), t.clone()]); }
                    v.push(["type".into(), rel.clone(), "".into(), s.ident.to_string(), format!("struct {:?} {}", f, tok(&s.generics))]);
                }
                syn::Item::Enum(s) if !cfg_off(&s.attrs) => {
                    let vs = &s.variants;
                    v.push(["type".into(), rel.clone(), "".into(), s.ident.to_string(), format!("enum {}", quote::quote!(#vs))]);
                }
                syn::Item::Fn(f) if !cfg_off(&f.attrs) => v.push(["fn".into(), rel.clone(), "".into(), f.sig.ident.to_string(), sig(&f.sig)]),
                syn::Item::Impl(im) if !cfg_off(&im.attrs) && im.trait_.is_none() => {
                    for m in &im.items {
                        if let syn::ImplItem::Fn(f) = m {
                            if !cfg_off(&f.attrs) { v.push(["fn".into(), rel.clone(), type_name(&im.self_ty), f.sig.ident.to_string(), sig(&f.sig)]); }
                        }
                    }
                }
                syn::Item::Const(c) if !cfg_off(&c.attrs) => v.push(["const".into(), rel.clone(), "".into(), c.ident.to_string(), format!("{} = {}", tok(&*c.ty), tok(&*c.expr))]),
                _ => {}
            }
        }
    }
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--decls" {
        let rows: Vec<String> = decls(&a[2]).iter().map(|r| list(&r.to_vec())).collect();
        println!("[\n{}\n]", rows.join(",\n"));
        return;
    }
    let (repo, specf, outf, mapf) = (&a[1], &a[2], &a[3], &a[4]);
    let canary = a.iter().any(|x| x == "--canary");
    let stubs: BTreeSet<String> = a.windows(2).filter(|w| w[0] == "--stub").map(|w| w[1].clone()).collect();
    let only: BTreeSet<String> = a.windows(2).filter(|w| w[0] == "--only").flat_map(|w| w[1].split(',').map(|s| s.to_string()).collect::<Vec<_>>()).collect();
    let unit = spec::load(specf);
    let mut out = Out { text: String::new(), line: 1 };
    out.push("// Generated by vx from the current source; do not edit.\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_unsafe, non_snake_case)]\n");
    let mut entries: Vec<Entry> = vec![];
    let mut lost: Vec<String> = vec![];
    // Names defined by the unit itself.
    let mut known: BTreeSet<String> = BTreeSet::new();
    for it in &unit.items {
        match it {
            Item::Raw(t) => {
                for w in t.split_whitespace().collect::<Vec<_>>().windows(2) {
                    if w[0] == "fn" {
                        known.insert(w[1].split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string());
                    }
                }
            }
            Item::Fn(f) => { known.insert(f.path.rsplit("::").next().unwrap().to_string()); }
            Item::Type { name, default, .. } => { if default.is_some() { known.insert("default".into()); } let _ = name; }
            _ => {}
        }
    }
    let mut consts: BTreeSet<String> = BTreeSet::new();
    for it in &unit.items {
        match it {
            Item::Raw(t) => for w in t.split_whitespace().collect::<Vec<_>>().windows(2) {
                if w[0] == "const" { consts.insert(w[1].trim_end_matches(':').to_string()); }
            },
            Item::Type { name, .. } => { consts.insert(name.clone()); }
            _ => {}
        }
    }
    let mut cache: BTreeMap<String, Option<Src>> = BTreeMap::new();
    for it in &unit.items {
        if let Some(f) = it.file() {
            cache.entry(f.to_string()).or_insert_with(|| {
                let text = std::fs::read_to_string(format!("{}/{}", repo, f)).ok()?;
                let ast = syn::parse_file(&text).ok()?;
                Some(prep::inline(prep::folded(prep::constants(prep::unnamed(Src { text, ast }), &consts)), &known))
            });
        }
    }
    let mut extra: Vec<(String, String)> = vec![]; // helpers without a contract that the code calls
    let emit_fn = |out: &mut Out, entries: &mut Vec<Entry>, lost: &mut Vec<String>, extra: &mut Vec<(String, String)>, f: &FnSpec, contract: bool| {
        let src = match cache.get(&f.file) { Some(Some(s)) => s, _ => { lost.push(format!("{}: no such file {}", f.path, f.file)); return; } };
        let found = match find_fn(&src.ast, &f.path) { Some(x) => x, None => { lost.push(format!("{}: no such function in {}", f.path, f.file)); return; } };
        let stub = !f.verify || stubs.contains(&f.path) || (!only.is_empty() && !only.contains(&f.path));
        let l = lower_fn(src, &found, f, stub, canary && contract, &unit);
        let start = out.line;
        out.push(&format!("// {} ({}:{})\n", f.path, f.file, found.item.sig().span().start().line));
        out.push(&l.text);
        out.push("\n");
        // Helpers of the same file that have no contract here.
        let mut helpers = vec![];
        if !stub {
            for p in all_fns(&src.ast) {
                let last = p.rsplit("::").next().unwrap();
                if l.calls.contains(last) && !known.contains(last) {
                    helpers.push(p.clone());
                    extra.push((f.file.clone(), p));
                }
            }
        }
        entries.push(Entry { name: f.path.clone(), file: f.file.clone(), src_line: found.item.sig().span().start().line, start, end: out.line,
            verify: !stub, contract, stubbed: stub && f.verify, lost: l.lost, helpers, shape: l.shape });
    };
    let mut groups: Vec<String> = vec![];
    for it in &unit.items {
        match it {
            Item::Raw(t) => { out.push(t); out.push("\n"); }
            Item::Type { file, name, derives, edits, default } => {
                let src = match cache.get(file) { Some(Some(s)) => s, _ => { lost.push(format!("{}: no such file {}", name, file)); continue; } };
                let mut hit = false;
                for i in &src.ast.items {
                    let (id, attrs, vis, kw, fields, variants, range) = match i {
                        syn::Item::Struct(s) => (&s.ident, &s.attrs, &s.vis, s.struct_token.span, Some(&s.fields), None, s.span().byte_range()),
                        syn::Item::Enum(e) => (&e.ident, &e.attrs, &e.vis, e.enum_token.span, None, Some(&e.variants), e.span().byte_range()),
                        syn::Item::Const(c) => (&c.ident, &c.attrs, &c.vis, c.const_token.span, None, None, c.span().byte_range()),
                        syn::Item::Type(c) => (&c.ident, &c.attrs, &c.vis, c.type_token.span, None, None, c.span().byte_range()),
                        _ => continue,
                    };
                    if id != name || cfg_off(attrs) { continue; }
                    hit = true;
                    let _ = vis;
                    let mut ed = vec![];
                    type_edits(fields, variants, &mut ed);
                    struct T<'x>(&'x spec::Unit, &'x str, &'x mut Vec<Edit>);
                    impl<'x, 'y> syn::visit::Visit<'y> for T<'x> {
                        fn visit_type_reference(&mut self, t: &'y syn::TypeReference) {
                            if !str_ref(t, self.0, self.1, self.2) { syn::visit::visit_type_reference(self, t); }
                        }
                    }
                    syn::visit::Visit::visit_item(&mut T(&unit, &src.text, &mut ed), i);
                    for (o, n, many) in edits {
                        if let Err(e) = explicit(&src.text, range.clone(), o, n, *many, &mut ed) { lost.push(format!("{}: {}", name, e)); }
                    }
                    let body = apply(&src.text, kw.byte_range().start..range.end, ed);
                    for d in derives {
                        let d = d.trim_start_matches('?');
                        // `+D`: added for Verus.
                        if !d.starts_with('+') && !has_derive(attrs, d) { lost.push(format!("{}: no longer derives {}", name, d)); }
                    }
                    // `?D`: the source has to derive D, for which the unit states a contract.
                    let emit: Vec<String> = derives.iter().filter(|d| !d.starts_with('?')).map(|d| d.trim_start_matches('+').to_string()).collect();
                    if !emit.is_empty() { out.push(&format!("#[derive({})]\n", emit.join(", "))); }
                    if let (syn::Item::Const(c), Some(spec)) = (i, default) {
                        let e = &src.text[c.expr.span().byte_range()];
                        let ty = &src.text[syn::spanned::Spanned::span(&*c.ty).byte_range()];
                        out.push(&format!("pub exec const {}: {} {} {{ proof {{ assert(1u32 << 31 == 0x8000_0000u32) by (bit_vector); }} {} }}\n", name, ty, spec, e));
                        break;
                    }
                    out.push(&format!("pub {}\n", body));
                    if let Some(spec) = default {
                        if !has_derive(attrs, "Default") { lost.push(format!("{}: Default is no longer derived", name)); continue; }
                        let (g1, fs) = match i {
                            syn::Item::Struct(s) => (&s.generics, &s.fields),
                            _ => { lost.push(format!("{}: Default of an enum", name)); continue; }
                        };
                        let (imp, ty, wh) = g1.split_for_impl();
                        let start = out.line;
                        let mut t = format!("impl {} {} {} {} {{\npub fn default() -> (r: Self)\n{}\n{{\n Self {{ ", quote::quote!(#imp), name, quote::quote!(#ty), quote::quote!(#wh), spec);
                        for f in fs {
                            let ty = &f.ty;
                            let _ = write!(t, "{}: {}, ", f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), default_of(&quote::quote!(#ty).to_string()));
                        }
                        let also = t.replacen(&format!("impl {}", quote::quote!(#imp)), &format!("impl {} Default for ", quote::quote!(#imp)), 1).replacen("pub fn default() -> (r: Self)", "fn default() -> (r: Self)", 1);
                        if canary { t = t.replace("{\n Self {", "{\n assert(false);\n Self {"); }
                        t.push_str("}\n}\n}\n");
                        t.push_str(&also);
                        t.push_str("}\n}\n}\n");
                        out.push(&t);
                        let n = format!("{}::default", name);
                        entries.push(Entry { name: n, file: file.clone(), src_line: i.span().start().line, start, end: out.line, verify: true, contract: true, stubbed: false, lost: vec![], helpers: vec![], shape: vec![] });
                    }
                    break;
                }
                if !hit { lost.push(format!("{}: no such type in {}", name, file)); }
            }
            Item::Use { file, path } => match cache.get(file) {
                Some(Some(s)) if imports(&s.ast).contains(path) || !names(&s.ast, path.rsplit("::").next().unwrap()) => {}
                _ => lost.push(format!("use {}: {} does not import it", path, file)),
            },
            Item::Absent { file, path } => match cache.get(file) {
                Some(Some(s)) if !all_fns(&s.ast).contains(path) => {}
                _ => lost.push(format!("use {}: {} defines it now", path, file)),
            },
            Item::Flags { file, name } => match cache.get(file) {
                Some(Some(s)) => match flags_type(s, name) { Some(t) => { if !t.contains("group g {  }") { groups.push(format!("vx_bits_{}::g", name)); } out.push(&t) } None => lost.push(format!("{}: no bitflags! of this name in {}", name, file)) },
                _ => lost.push(format!("{}: no such file {}", name, file)),
            },
            Item::Fn(f) => emit_fn(&mut out, &mut entries, &mut lost, &mut extra, f, true),
            Item::End => {
                groups.extend(unit.broadcast.iter().cloned());
                if !groups.is_empty() { out.push(&format!("broadcast use {{{}}};\n", groups.join(", "))); }
                // Helpers the code calls that the unit knows nothing about: extracted as they are, without a contract.
                let mut done: BTreeSet<String> = BTreeSet::new();
                while let Some((file, p)) = extra.pop() {
                    if !done.insert(p.clone()) { continue; }
                    let f = FnSpec { file, path: p, verify: true, ..FnSpec::default() };
                    emit_fn(&mut out, &mut entries, &mut lost, &mut extra, &f, false);
                }
            }
        }
    }
    std::fs::write(outf, &out.text).expect("write");
    let mut m = String::from("{\n \"functions\": [\n");
    for (i, e) in entries.iter().enumerate() {
        let _ = write!(m, "  {{\"name\": {}, \"file\": {}, \"line\": {}, \"start\": {}, \"end\": {}, \"verify\": {}, \"contract\": {}, \"stubbed\": {}, \"lost\": {}, \"helpers\": {}, \"shape\": {}}}{}\n",
            esc(&e.name), esc(&e.file), e.src_line, e.start, e.end, e.verify, e.contract, e.stubbed, list(&e.lost), list(&e.helpers), list(&e.shape), if i + 1 < entries.len() { "," } else { "" });
    }
    let _ = write!(m, " ],\n \"lost\": {}\n}}\n", list(&lost));
    std::fs::write(mapf, m).expect("write");
}
