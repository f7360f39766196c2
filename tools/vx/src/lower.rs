//! The edits that turn the text of a function into text Verus accepts, with its contract spliced in.

use crate::spec::{FnSpec, Unit};
use crate::{type_name, FnRef, Found, Src};
use std::collections::BTreeSet;
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Clone, Debug)]
pub struct Edit {
    pub start: usize,
    pub end: usize,
    pub text: String,
    pub explicit: bool,
}
impl Edit {
    pub fn auto(r: Range<usize>, t: &str) -> Self { Edit { start: r.start, end: r.end, text: t.to_string(), explicit: false } }
    fn ins(p: usize, t: &str) -> Self { Self::auto(p..p, t) }
}

fn is_err(e: &syn::Expr) -> bool {
    matches!(e, syn::Expr::Call(c) if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("Err")))
}
/// The expressions a block ends in, but for those that diverge or are an error.
fn leaves_of_block(b: &syn::Block, out: &mut Vec<Range<usize>>) {
    if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() { leaves(e, out); }
}
fn leaves(e: &syn::Expr, out: &mut Vec<Range<usize>>) {
    match e {
        syn::Expr::Block(b) => leaves_of_block(&b.block, out),
        syn::Expr::If(i) => {
            leaves_of_block(&i.then_branch, out);
            if let Some((_, x)) = &i.else_branch { leaves(x, out); }
        }
        syn::Expr::Match(m) => for a in &m.arms { leaves(&a.body, out); },
        syn::Expr::Return(_) | syn::Expr::Macro(_) => {}
        e if is_err(e) => {}
        e => out.push(r(e)),
    }
}

/// The locals a loop assigns to that live longer than one round: what its invariant has to speak of.
#[derive(Default)]
struct Carried { own: BTreeSet<String>, set: BTreeSet<String> }
impl Carried {
    fn root(&mut self, e: &syn::Expr) {
        match e {
            syn::Expr::Path(p) => if let Some(i) = p.path.get_ident() { if i != "self" { self.set.insert(i.to_string()); } },
            syn::Expr::Field(f) => self.root(&f.base),
            syn::Expr::Index(f) => self.root(&f.expr),
            syn::Expr::Paren(f) => self.root(&f.expr),
            syn::Expr::Unary(f) => self.root(&f.expr),
            syn::Expr::Tuple(f) => f.elems.iter().for_each(|e| self.root(e)),
            _ => {}
        }
    }
    fn shape(mut self, body: &syn::Block, cond: Option<&syn::Expr>) -> Option<String> {
        if let Some(c) = cond { self.visit_expr(c); }
        self.visit_block(body);
        let v: Vec<String> = self.set.difference(&self.own).cloned().collect();
        if v.is_empty() { None } else { Some(format!("carries {}", v.join(" "))) }
    }
}
impl<'a> Visit<'a> for Carried {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.own.insert(p.ident.to_string()); }
    fn visit_expr_assign(&mut self, e: &'a syn::ExprAssign) { self.root(&e.left); visit::visit_expr_assign(self, e); }
    fn visit_expr_binary(&mut self, e: &'a syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(e.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) { self.root(&e.left); }
        visit::visit_expr_binary(self, e);
    }
    fn visit_expr_reference(&mut self, e: &'a syn::ExprReference) { if e.mutability.is_some() { self.root(&e.expr); } visit::visit_expr_reference(self, e); }
}

/// Applies the edits to a range of the text.  An explicit edit swallows the automatic ones inside its range.
pub fn apply(text: &str, range: Range<usize>, mut ed: Vec<Edit>) -> String {
    let ex: Vec<Range<usize>> = ed.iter().filter(|e| e.explicit).map(|e| e.start..e.end).collect();
    ed.retain(|e| e.start >= range.start && e.end <= range.end);
    ed.retain(|e| e.explicit || !ex.iter().any(|r| if e.start == e.end { r.start < e.start && e.end < r.end } else { r.start <= e.start && e.end <= r.end }));
    // Stable: insertions at the same place stay in the order in which they were made.
    ed.sort_by_key(|e| (e.start, e.end));
    let (mut o, mut p) = (String::new(), range.start);
    for e in ed {
        if e.start < p { continue; }
        o.push_str(&text[p..e.start]);
        o.push_str(&e.text);
        p = e.end;
    }
    o.push_str(&text[p..range.end]);
    o
}

/// An edit given by text: the text has to occur exactly once (white space aside).
pub fn explicit(text: &str, range: Range<usize>, old: &str, new: &str, many: bool, ed: &mut Vec<Edit>) -> Result<(), String> {
    let hay: Vec<(usize, char)> = text[range.clone()].char_indices().filter(|(_, c)| !c.is_whitespace()).collect();
    let pat: Vec<char> = old.chars().filter(|c| !c.is_whitespace()).collect();
    let mut hits = vec![];
    let mut i = 0;
    while i + pat.len() <= hay.len() {
        if (0..pat.len()).all(|k| hay[i + k].1 == pat[k]) {
            let last = hay[i + pat.len() - 1];
            let (s, e) = (range.start + hay[i].0, range.start + last.0 + last.1.len_utf8());
            let id = |c: char| c.is_alphanumeric() || c == '_';
            let bad = (id(pat[0]) && text[..s].chars().next_back().map_or(false, id))
                || (id(*pat.last().unwrap()) && text[e..].chars().next().map_or(false, id));
            if !bad { hits.push((s, e)); i += pat.len(); continue; }
        }
        i += 1;
    }
    if hits.is_empty() || (!many && hits.len() > 1) {
        return Err(format!("`{}` occurs {} times", old, hits.len()));
    }
    for (s, e) in hits { ed.push(Edit { start: s, end: e, text: new.to_string(), explicit: true }); }
    Ok(())
}

pub struct Lowered {
    pub text: String,
    pub calls: BTreeSet<String>,
    pub lost: Vec<String>,
    /// The kinds of its loops and how many closures it has: what the hints were written for.
    pub shape: Vec<String>,
}

/// A reference to `str`, where the unit has a type of its own for it.
pub fn str_ref(t: &syn::TypeReference, u: &Unit, text: &str, ed: &mut Vec<Edit>) -> bool {
    let n = match &u.strtype { Some(n) => n, None => return false };
    if t.mutability.is_some() || !matches!(&*t.elem, syn::Type::Path(p) if p.path.is_ident("str")) { return false; }
    let lt = t.lifetime.as_ref().map_or("'_".to_string(), |l| text[l.span().byte_range()].to_string());
    ed.push(Edit::auto(t.span().byte_range(), &format!("{}<{}>", n, lt)));
    true
}

struct L<'a> {
    src: &'a Src,
    f: &'a FnSpec,
    u: &'a Unit,
    ed: Vec<Edit>,
    calls: BTreeSet<String>,
    lost: Vec<String>,
    nloop: usize,
    shape: Vec<String>,
    in_loop: usize,
    nclosure: usize,
    in_closure: usize,
    /// `: T` of a function that returns a T.
    ret: String,
    self_name: Option<String>,
    assoc: Vec<(String, String)>,
    mutated: BTreeSet<usize>, // starts of index expressions in a mutating position
    /// Locals and functions (`f()`) of the file that are bool.
    bools: BTreeSet<String>,
    /// The functions of the file that return an Option (true) or a Result (false).
    kinds: std::collections::BTreeMap<String, bool>,
    /// The parameters that are `&mut`.
    muts: Vec<String>,
}
/// Does control leave from within?
struct Out(bool);
impl<'a> Visit<'a> for Out {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

struct BoolLocals<'b, 'a>(&'b mut L<'a>);
impl<'a, 'b> Visit<'a> for BoolLocals<'b, 'a> {
    fn visit_local(&mut self, l: &'a syn::Local) {
        match &l.pat {
            syn::Pat::Type(t) => if let (syn::Pat::Ident(i), syn::Type::Path(p)) = (&*t.pat, &*t.ty) {
                if p.path.is_ident("bool") { self.0.bools.insert(i.ident.to_string()); }
            },
            syn::Pat::Ident(i) => if l.init.as_ref().map_or(false, |x| self.0.truth(&x.expr)) { self.0.bools.insert(i.ident.to_string()); },
            syn::Pat::Tuple(t) => if let Some(syn::Expr::Tuple(v)) = l.init.as_ref().map(|x| &*x.expr) {
                for (a, b) in t.elems.iter().zip(&v.elems) {
                    if let syn::Pat::Ident(i) = a { if self.0.truth(b) { self.0.bools.insert(i.ident.to_string()); } }
                }
            },
            _ => {}
        }
        visit::visit_local(self, l);
    }
}
fn is_bool(s: &syn::ReturnType) -> bool {
    matches!(s, syn::ReturnType::Type(_, t) if matches!(&**t, syn::Type::Path(p) if p.path.is_ident("bool")))
}

fn r(s: &impl Spanned) -> Range<usize> { s.span().byte_range() }

impl<'a> L<'a> {
    fn exit(&mut self, how: &str) { if self.in_loop > 0 { self.shape.push(how.into()); } }
    fn text(&self, x: Range<usize>) -> &'a str { &self.src.text[x] }
    fn put(&mut self, x: Range<usize>, t: &str) { self.ed.push(Edit::auto(x, t)); }
    fn ins(&mut self, p: usize, t: &str) { self.ed.push(Edit::ins(p, t)); }

    fn at(&self, place: &str) -> String {
        self.f.at.iter().filter(|(p, _)| p == place).map(|(_, t)| format!("\n{}", t)).collect()
    }

    /// `&x` in a pattern becomes `x`; what is returned then rebinds it.
    fn deref_pat(&mut self, p: &syn::Pat) -> String {
        let mut b = String::new();
        match p {
            syn::Pat::Reference(rp) => {
                if let syn::Pat::Ident(i) = &*rp.pat {
                    if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() && rp.mutability.is_none() {
                        self.put(r(rp).start..r(i).start, "");
                        b.push_str(&format!(" let {0} = *{0};", i.ident));
                    }
                }
            }
            syn::Pat::TupleStruct(t) => for q in &t.elems { b.push_str(&self.deref_pat(q)); }
            syn::Pat::Tuple(t) => for q in &t.elems { b.push_str(&self.deref_pat(q)); }
            syn::Pat::Paren(t) => b.push_str(&self.deref_pat(&t.pat)),
            _ => {}
        }
        b
    }

    fn loop_spec(&mut self, key: &str) -> (String, String) {
        match self.f.loops.iter().find(|l| l.0 == key) {
            Some(l) => (l.1.clone(), l.2.clone()),
            None => { self.lost.push(format!("loop {} has no invariant", key)); (String::new(), String::new()) }
        }
    }

    fn loop_hints(&mut self, key: &str, body: &syn::Block, whole: Range<usize>) {
        let open = r(&body.brace_token.span.open()).end;
        let close = r(&body.brace_token.span.close()).start;
        let (s, e, a) = (self.at(&format!("loop {} start", key)), self.at(&format!("loop {} end", key)), self.at(&format!("after loop {}", key)));
        let b = self.at(&format!("loop {} before", key));
        if !b.is_empty() { self.ins(whole.start, &format!("{}\n", b)); }
        if !s.is_empty() { self.ins(open, &s); }
        if !e.is_empty() { self.ins(close, &e); }
        if !a.is_empty() { self.ins(whole.end, &a); }
    }

    /// format!-like arguments: literal text and argument expressions, as nested concatenations.
    fn format_args(&mut self, start: usize, end: usize, fmt: &syn::LitStr, args: &[&syn::Expr]) -> bool {
        let v = fmt.value();
        let (mut parts, mut cur, mut it): (Vec<Option<String>>, String, _) = (vec![], String::new(), v.chars().peekable());
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => { it.next(); cur.push('{'); }
                '}' if it.peek() == Some(&'}') => { it.next(); cur.push('}'); }
                '{' => {
                    if it.next() != Some('}') { return false; }
                    if !cur.is_empty() { parts.push(Some(std::mem::take(&mut cur))); }
                    parts.push(None);
                }
                c => cur.push(c),
            }
        }
        if !cur.is_empty() { parts.push(Some(cur)); }
        if parts.iter().filter(|p| p.is_none()).count() != args.len() { return false; }
        // Literal text is cut into words, so that contracts can speak of the words in it.
        let mut parts2 = vec![];
        for p in parts {
            match p {
                Some(s) => {
                    let mut cur = String::new();
                    for c in s.chars() {
                        let flip = cur.chars().last().map_or(false, |d| d.is_alphanumeric() != c.is_alphanumeric());
                        if flip { parts2.push(Some(std::mem::take(&mut cur))); }
                        cur.push(c);
                    }
                    parts2.push(Some(cur));
                }
                None => parts2.push(None),
            }
        }
        let parts = parts2;
        let lit = |s: &str| format!("vx_lit({:?})", s);
        let (mut pos, mut k, mut close) = (start, 0, 0);
        let mut pending = String::new();
        let n = parts.len();
        for (i, p) in parts.iter().enumerate() {
            let last = i + 1 == n;
            if !last { pending.push_str("vx_cat("); close += 1; }
            match p {
                Some(s) => pending.push_str(&lit(s)),
                None => {
                    pending.push_str("vx_disp(&(");
                    let a = r(args[k]);
                    self.put(pos..a.start, &std::mem::take(&mut pending));
                    pos = a.end;
                    k += 1;
                    pending.push_str("))");
                }
            }
            if !last { pending.push_str(", "); }
        }
        if n == 0 { pending.push_str("vx_lit(\"\")"); }
        pending.push_str(&")".repeat(close));
        self.put(pos..end, &pending);
        for a in args { self.visit_expr(a); }
        true
    }

    fn mac(&mut self, m: &syn::Macro, whole: Range<usize>) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let args = || m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).ok();
        match name.as_str() {
            "cfg" => { self.put(whole, "vx_cfg()"); return; }
            "debug_assert" | "assert" => {
                if let Some(a) = args() {
                    let c = r(&a[0]);
                    self.put(whole.start..c.start, "vx_assert(");
                    self.visit_expr(&a[0]);
                    self.put(c.end..whole.end, ")");
                    return;
                }
            }
            "debug_assert_eq" | "assert_eq" => {
                if let Some(a) = args() {
                    let (x, y) = (r(&a[0]), r(&a[1]));
                    self.put(whole.start..x.start, "vx_assert((");
                    self.visit_expr(&a[0]);
                    self.put(x.end..y.start, ") == (");
                    self.visit_expr(&a[1]);
                    self.put(y.end..whole.end, "))");
                    return;
                }
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => { self.put(whole, "vx_panic()"); return; }
            "matches" => {
                if let Some(i) = m.tokens.clone().into_iter().position(|t| matches!(&t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',')) {
                    let head: proc_macro2::TokenStream = m.tokens.clone().into_iter().take(i).collect();
                    if let Ok(e) = syn::parse2::<syn::Expr>(head) { self.visit_expr(&e); return; }
                }
            }
            "format" | "write" => {
                if let Some(a) = args() {
                    let k = if name == "write" { 1 } else { 0 };
                    if let Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) = a.iter().nth(k) {
                        let rest: Vec<&syn::Expr> = a.iter().skip(k + 1).collect();
                        if k == 0 {
                            if self.format_args(whole.start, whole.end, s, &rest) { return; }
                        } else {
                            let f = r(&a[0]);
                            let end = whole.end;
                            let keep = self.ed.len();
                            if self.format_args(r(s).start, end, s, &rest) {
                                self.put(whole.start..f.start, "vx_write(");
                                self.ins(end, ")");
                                return;
                            }
                            self.ed.truncate(keep);
                        }
                    }
                }
            }
            // maplit
            "hashset" => {
                if let Some(a) = args() {
                    if a.len() == 1 {
                        let e = r(&a[0]);
                        self.put(whole.start..e.start, "vx_hashset(");
                        self.visit_expr(&a[0]);
                        self.put(e.end..whole.end, ")");
                        return;
                    }
                }
            }
            "vec" => {
                if let Some(a) = args() { for e in a.iter() { self.visit_expr(e); } }
                return;
            }
            _ => {}
        }
        self.lost.push(format!("macro {}!", name));
    }

    fn pat_strs(p: &syn::Pat) -> Option<Vec<String>> {
        match p {
            syn::Pat::Lit(l) => match &l.lit { syn::Lit::Str(s) => Some(vec![s.value()]), _ => None },
            syn::Pat::Or(o) => {
                let mut v = vec![];
                for c in &o.cases { v.extend(Self::pat_strs(c)?); }
                Some(v)
            }
            _ => None,
        }
    }

    /// What is a bool as it is written.
    fn truth(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Bool(_)),
            syn::Expr::Paren(p) => self.truth(&p.expr),
            syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && self.truth(&u.expr),
            syn::Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.bools.contains(&i.to_string())),
            syn::Expr::Binary(b) => match b.op {
                syn::BinOp::And(_) | syn::BinOp::Or(_) | syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_) => true,
                syn::BinOp::BitOr(_) | syn::BinOp::BitAnd(_) => self.truth(&b.left) && self.truth(&b.right),
                _ => false,
            },
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                n.starts_with("is_") || n.starts_with("contains") || matches!(n.as_str(), "any" | "all" | "starts_with" | "ends_with" | "intersects" | "test")
            }
            syn::Expr::Call(c) => matches!(&*c.func, syn::Expr::Path(p) if p.path.segments.last().map_or(false, |s| self.bools.contains(&format!("{}()", s.ident)))),
            syn::Expr::Macro(m) => m.mac.path.is_ident("matches"),
            syn::Expr::Field(f) => matches!(&f.member, syn::Member::Named(i) if self.bools.contains(&format!(".{}", i))),
            _ => false,
        }
    }
    /// A place that is named without computing anything.
    fn plain(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Path(_) => true,
            syn::Expr::Field(f) => Self::plain(&f.base),
            _ => false,
        }
    }
    fn base_text(&self, e: &syn::Expr) -> String { self.text(r(e)).split_whitespace().collect() }

    /// The indexed graph (if any) at the bottom of a chain of fields.
    fn mark_mut(&mut self, e: &syn::Expr) {
        match e {
            syn::Expr::Index(_) => { self.mutated.insert(r(e).start); let p = r(e); self.mutated.insert(p.start); }
            syn::Expr::Field(f) => self.mark_mut(&f.base),
            syn::Expr::Paren(p) => self.mark_mut(&p.expr),
            _ => {}
        }
    }

    fn closure_kind(&mut self, m: &syn::ExprMethodCall) -> Option<(usize, String)> {
        if !m.args.iter().any(|a| matches!(a, syn::Expr::Closure(_))) { return None; }
        let k = self.nclosure;
        self.nclosure += 1;
        match self.f.closures.iter().find(|c| c.0 == k) {
            Some(c) => Some((k, c.1.clone())),
            None => None,
        }
    }

    /// What Option and Result do with a function is a match, also where no contract asks for it.
    fn adapter(&mut self, m: &syn::ExprMethodCall) -> bool {
        let name = m.method.to_string();
        let f = match m.args.last() { Some(f) => f, None => return false };
        enum What<'x> { Body(Option<&'x syn::Pat>, usize, &'x syn::Expr), Named }
        let what = match f {
            syn::Expr::Closure(c) => {
                let mut x = Out(false);
                x.visit_expr(&c.body);
                if x.0 || c.inputs.len() > 1 || c.asyncness.is_some() { return false; }
                let p = c.inputs.first().map(|p| match p { syn::Pat::Type(t) => &*t.pat, p => p });
                What::Body(p, c.inputs.len(), &c.body)
            }
            syn::Expr::Path(_) => What::Named,
            _ => return false,
        };
        let zero = match &what { What::Body(_, n, _) => Some(*n == 0), What::Named => None };
        let kind = self.receiver(&m.receiver);
        // The two arms: what is matched, and what comes before and after the function's result.
        let (hit, other) = match (name.as_str(), m.args.len(), zero, kind) {
            ("map_err", 1, ..) => ("Err(vx_p) => Err(", "Ok(vx_v) => Ok(vx_v)".to_string()),
            ("ok_or_else", 1, ..) => ("None => Err(", "Some(vx_v) => Ok(vx_v)".into()),
            ("then_with", 1, ..) => ("Ordering::Equal => (", "vx_v => vx_v".into()),
            ("unwrap_or_else", 1, Some(true), _) | ("unwrap_or_else", 1, None, Some(true)) => ("None => (", "Some(vx_v) => vx_v".into()),
            ("unwrap_or_else", 1, Some(false), _) | ("unwrap_or_else", 1, None, Some(false)) => ("Err(vx_p) => (", "Ok(vx_v) => vx_v".into()),
            ("or_else", 1, Some(true), _) => ("None => (", "Some(vx_v) => Some(vx_v)".into()),
            ("or_else", 1, Some(false), _) => ("Err(vx_p) => (", "Ok(vx_v) => Ok(vx_v)".into()),
            ("is_some_and", 1, ..) => ("Some(vx_p) => (", "None => false".into()),
            ("is_none_or", 1, ..) => ("Some(vx_p) => (", "None => true".into()),
            ("map", 1, _, Some(true)) => ("Some(vx_p) => Some(", "None => None".into()),
            ("map", 1, _, Some(false)) => ("Ok(vx_p) => Ok(", "Err(vx_e) => Err(vx_e)".into()),
            ("and_then", 1, _, Some(true)) => ("Some(vx_p) => (", "None => None".into()),
            ("and_then", 1, _, Some(false)) => ("Ok(vx_p) => (", "Err(vx_e) => Err(vx_e)".into()),
            ("map_or", 2, _, Some(true)) => ("Some(vx_p) => (", format!("None => ({})", self.text(r(&m.args[0])))),
            ("get_or_insert_with", 1, ..) => {
                if !matches!(&*m.receiver, syn::Expr::Field(_) | syn::Expr::Path(_)) || self.self_name.is_some() { return false; }
                let place = self.text(r(&*m.receiver)).to_string();
                let whole = r(m);
                self.ins(whole.start, "({ if ");
                match &what {
                    What::Body(_, _, b) => {
                        let b = r(*b);
                        self.put(r(&*m.receiver).end..b.start, &format!(".is_none() {{ {} = Some(", place));
                        self.visit_expr(match f { syn::Expr::Closure(c) => &c.body, _ => return false });
                        self.put(b.end..whole.end, &format!("); }} {}.as_mut().unwrap() }})", place));
                    }
                    What::Named => {
                        let b = r(f);
                        self.put(r(&*m.receiver).end..b.start, &format!(".is_none() {{ {} = Some(", place));
                        self.visit_expr(f);
                        self.put(b.end..whole.end, &format!("()); }} {}.as_mut().unwrap() }})", place));
                    }
                }
                return true;
            }
            _ => return false,
        };
        if let What::Named = what { if hit.starts_with("None") && name == "map" { return false; } }
        let whole = r(m);
        let bound = hit.contains("vx_p");
        self.ins(whole.start, "(match ");
        self.visit_expr(&m.receiver);
        match what {
            What::Body(p, _, b) => {
                let bind = match p {
                    _ if !bound => String::new(),
                    Some(syn::Pat::Reference(rp)) => format!("let {} = *vx_p; ", self.text(r(&*rp.pat))),
                    Some(p) => format!("let {} = vx_p; ", self.text(r(p))),
                    None => String::new(),
                };
                self.put(r(&*m.receiver).end..r(b).start, &format!(" {{ {}, {}{{ {}", other, hit, bind).replace("vx_v => vx_v, Ordering", "Ordering"));
                self.visit_expr(match f { syn::Expr::Closure(c) => &c.body, _ => return true });
                self.put(r(b).end..whole.end, if name == "then_with" { " }), vx_v => vx_v })" } else { " }) })" });
            }
            What::Named => {
                self.put(r(&*m.receiver).end..r(f).start, &format!(" {{ {}, {}", other, hit).replace("vx_v => vx_v, Ordering", "Ordering"));
                self.visit_expr(f);
                self.put(r(f).end..whole.end, &format!("({})){} }})", if bound { "vx_p" } else { "" }, if name == "then_with" { ", vx_v => vx_v" } else { "" }));
            }
        }
        true
    }
    /// Some(true): an Option, Some(false): a Result, as far as that can be told.
    fn receiver(&self, e: &syn::Expr) -> Option<bool> {
        match e {
            syn::Expr::Paren(p) => self.receiver(&p.expr),
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n.starts_with("checked_") { return Some(true); }
                match n.as_str() {
                    "get" | "get_mut" | "pop" | "last" | "first" | "find_first" | "find_next" | "find_last" | "find_nth" | "ok" | "take" | "checked_add" | "last_mut" | "first_mut" => Some(true),
                    "try_into" | "map_err" | "ok_or_else" | "ok_or" => Some(false),
                    "map" | "and_then" | "or_else" => self.receiver(&m.receiver),
                    _ => self.kinds.get(&n).copied(),
                }
            }
            syn::Expr::Call(c) => match &*c.func {
                syn::Expr::Path(p) => match p.path.segments.last().map(|s| s.ident.to_string()).as_deref() {
                    Some("try_from") | Some("Ok") | Some("Err") => Some(false),
                    Some("Some") => Some(true),
                    Some(n) => self.kinds.get(n).copied(),
                    None => None,
                },
                _ => None,
            },
            _ => None,
        }
    }
    fn closure(&mut self, m: &syn::ExprMethodCall, k: usize, kind: &str) -> bool {
        let whole = r(m);
        let recv = r(&m.receiver);
        let c = match m.args.iter().find_map(|a| match a { syn::Expr::Closure(c) => Some(c), _ => None }) { Some(c) => c, None => return false };
        let body = r(&*c.body);
        let pats: Vec<String> = c.inputs.iter().map(|p| {
            let q = match p { syn::Pat::Type(t) => r(&*t.pat), q => r(q) };
            self.text(q).to_string()
        }).collect();
        let pat = pats.get(0).cloned().unwrap_or_default();
        let key = format!("c{}", k);
        let (pre, mid, post): (String, String, String) = match kind {
            "result_map" => ("(match ".into(), format!(" {{ Ok({}) => Ok(", pat), "), Err(vx_e) => Err(vx_e) })".into()),
            "option_map" => match c.inputs.first() {
                Some(syn::Pat::Reference(rp)) => ("(match ".into(), format!(" {{ Some(vx_p{k}) => Some({{ let {} = *vx_p{k}; ", self.text(r(&*rp.pat)), k = k), " }), None => None })".into()),
                _ => ("(match ".into(), format!(" {{ Some({}) => Some(", pat), "), None => None })".into()),
            },
            "result_map_err" => ("(match ".into(), format!(" {{ Ok(vx_v) => Ok(vx_v), Err({}) => Err(", pat), ") })".into()),
            "option_unwrap_or_else" => ("(match ".into(), " { Some(vx_v) => vx_v, None => ".into(), " })".into()),
            "option_map_or" => {
                let d = self.text(r(&m.args[0])).to_string();
                ("(match ".into(), format!(" {{ Some({}) => ", pat), format!(", None => {} }})", d))
            }
            "find" | "any" | "all" | "position" => {
                let (mode, inv) = self.loop_spec(&key);
                let ty = if kind == "find" && !mode.is_empty() { format!(": Option<{}>", mode) } else { String::new() };
                let (s, e) = (self.at(&format!("loop {} start", key)), self.at(&format!("loop {} end", key)));
                let (init, hit) = match kind {
                    "find" => ("None", format!("vx_r{} = Some(vx_x{}); vx_go{} = false;", k, k, k)),
                    "any" => ("false", format!("vx_r{} = true; vx_go{} = false;", k, k)),
                    "all" => ("true", format!("vx_r{} = false; vx_go{} = false;", k, k)),
                    _ => ("None", format!("vx_r{} = Some(vx_n{}); vx_go{} = false;", k, k, k)),
                };
                let arg = if kind == "find" { format!("&vx_x{}", k) } else { format!("vx_x{}", k) };
                let neg = if kind == "all" { "!" } else { "" };
                (format!("({{ let mut vx_it{} = ", k),
                 format!("; let mut vx_r{k}{ty} = {init}; let mut vx_go{k} = true; let mut vx_n{k}: usize = 0;\n while vx_go{k}\n{inv}\n{{ {s} match vx_it{k}.next() {{ None => {{ vx_go{k} = false; }} Some(vx_x{k}) => {{ let {pat} = {arg}; if {neg}("),
                 format!(") {{ {hit} }} {bump} }} }} {e} }} vx_r{k} }})", bump = if kind == "position" { format!("if vx_go{} {{ vx_n{} += 1; }}", k, k) } else { String::new() }))
            }
            "fold" => {
                let (_, inv) = self.loop_spec(&key);
                let (s, e) = (self.at(&format!("loop {} start", key)), self.at(&format!("loop {} end", key)));
                let init = self.text(r(&m.args[0])).to_string();
                let acc = pats[0].clone();
                let x = pats.get(1).cloned().unwrap_or_default();
                (format!("({{ let mut vx_it{} = ", k),
                 format!("; let mut vx_acc{k} = {init}; let mut vx_go{k} = true;\n while vx_go{k}\n{inv}\n{{ {s} match vx_it{k}.next() {{ None => {{ vx_go{k} = false; }} Some({x}) => {{ vx_acc{k} = {{ let {acc} = vx_acc{k}; "),
                 format!(" }}; {e} }} }} }} vx_acc{k} }})"))
            }
            _ => { self.lost.push(format!("closure kind {}", kind)); return false; }
        };
        self.ins(whole.start, &pre);
        self.visit_expr(&m.receiver);
        self.put(recv.end..body.start, &mid);
        self.visit_expr(&c.body);
        self.put(body.end..whole.end, &post);
        true
    }
}

impl<'a> Visit<'a> for L<'a> {
    fn visit_attribute(&mut self, a: &'a syn::Attribute) { self.put(r(a), ""); }

    fn visit_expr_macro(&mut self, m: &'a syn::ExprMacro) { self.mac_owned(&m.mac, r(m)); }
    fn visit_stmt_macro(&mut self, m: &'a syn::StmtMacro) {
        let mut w = r(m);
        if let Some(s) = &m.semi_token { w.end = r(s).start; }
        self.mac_owned(&m.mac, w);
    }

    fn visit_expr_unsafe(&mut self, e: &'a syn::ExprUnsafe) {
        self.put(r(&e.unsafe_token), "");
        visit::visit_block(self, &e.block);
    }

    fn visit_type_reference(&mut self, t: &'a syn::TypeReference) {
        if !str_ref(t, self.u, &self.src.text, &mut self.ed) { visit::visit_type_reference(self, t); }
    }

    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        if p.path.is_ident("self") {
            if let Some(n) = self.self_name.clone() { self.put(r(p), &n); }
        }
        visit::visit_expr_path(self, p);
    }

    fn visit_path(&mut self, p: &'a syn::Path) {
        if p.segments.len() >= 2 {
            let first = p.segments[0].ident.to_string();
            if first == "crate" || first == "super" || (first == "self" && p.segments.len() > 1) {
                // Flat name space: keep what follows the last module segment.
                let k = p.segments.iter().position(|s| s.ident.to_string().starts_with(|c: char| c.is_uppercase())).unwrap_or(p.segments.len() - 1);
                if k > 0 { let st = r(&p.segments[0]).start; let e = r(&p.segments[k]).start; self.put(st..e, ""); }
            }
            if first == "Self" {
                let s = p.segments[1].ident.to_string();
                if let Some((_, t)) = self.assoc.iter().find(|x| x.0 == s).cloned() {
                    let (st, e) = (r(&p.segments[0]).start, r(&p.segments[1]).end);
                    self.put(st..e, &t);
                }
            }
        }
        visit::visit_path(self, p);
    }

    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            if let Some(s) = p.path.segments.last() { self.calls.insert(s.ident.to_string()); }
        }
        visit::visit_expr_call(self, c);
    }

    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        self.calls.insert(m.method.to_string());
        if m.method == "contains" && m.args.len() == 1 {
            // (a..=b).contains(&c)
            if let syn::Expr::Paren(p) = &*m.receiver {
                if let syn::Expr::Range(rg) = &*p.expr {
                    if let (Some(a), Some(b), syn::Expr::Reference(c)) = (&rg.start, &rg.end, &m.args[0]) {
                        let (a, b, c) = (self.text(r(&**a)), self.text(r(&**b)), self.text(r(&*c.expr)));
                        let op = if matches!(rg.limits, syn::RangeLimits::Closed(_)) { "<=" } else { "<" };
                        let t = format!("({} <= {} && {} {} {})", a, c, c, op, b);
                        self.put(r(m), &t);
                        return;
                    }
                }
            }
        }
        if self.u.mutating.iter().any(|x| m.method == x) { self.mark_mut(&m.receiver); }
        if let Some((k, kind)) = self.closure_kind(m) {
            if self.closure(m, k, &kind) { return; }
        } else if self.adapter(m) { return; }
        visit::visit_expr_method_call(self, m);
    }

    fn visit_expr_assign(&mut self, a: &'a syn::ExprAssign) {
        self.mark_mut(&a.left);
        visit::visit_expr_assign(self, a);
    }

    fn visit_expr_reference(&mut self, e: &'a syn::ExprReference) {
        if e.mutability.is_some() { self.mark_mut(&e.expr); }
        visit::visit_expr_reference(self, e);
    }

    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        let name = match b.op {
            syn::BinOp::BitOrAssign(_) => "bitor_assign",
            syn::BinOp::BitAndAssign(_) => "bitand_assign",
            syn::BinOp::BitXorAssign(_) => "bitxor_assign",
            syn::BinOp::AddAssign(_) | syn::BinOp::SubAssign(_) => "",
            syn::BinOp::BitOr(_) | syn::BinOp::BitAnd(_) if self.truth(&b.left) && self.truth(&b.right) => {
                // Both operands of truths are evaluated, the left one first.
                let (l, rr, w) = (r(&*b.left), r(&*b.right), r(b));
                let op = if matches!(b.op, syn::BinOp::BitOr(_)) { " || " } else { " && " };
                self.ins(w.start, "({ let vx_a: bool = ");
                self.put(l.end..rr.start, "; let vx_b: bool = ");
                self.ins(w.end, &format!("; vx_a{}vx_b }})", op));
                visit::visit_expr_binary(self, b);
                return;
            }
            _ => { visit::visit_expr_binary(self, b); return; }
        };
        self.mark_mut(&b.left);
        let left = self.base_text(&b.left);
        if !name.is_empty() && name != "bitxor_assign" && self.truth(&b.right) && Self::plain(&b.left) {
            // `x |= e` of truths, which Verus does not know: e first, then x.
            let (l, rr, w) = (r(&*b.left), r(&*b.right), r(b));
            let op = if name == "bitor_assign" { "||" } else { "&&" };
            let x = self.text(l.clone()).to_string();
            self.ins(w.start, "{ let vx_b: bool = ");
            self.put(l.start..rr.start, "");
            self.ins(w.end, &format!("; {} = {} {} vx_b; }}", x, x, op));
            self.visit_expr(&b.right);
            return;
        }
        if !name.is_empty() && self.f.assignop.iter().any(|x| x == "*" || *x == left) {
            let (l, rr) = (r(&*b.left), r(&*b.right));
            self.put(l.end..rr.start, &format!(".{}(", name));
            self.ins(rr.end, ")");
        }
        visit::visit_expr_binary(self, b);
    }

    fn visit_expr_index(&mut self, e: &'a syn::ExprIndex) {
        let base = self.base_text(&e.expr);
        if self.u.graphs.iter().any(|g| *g == base) {
            let m = self.mutated.contains(&r(e).start);
            let (b, i) = (r(&*e.expr), r(&*e.index));
            self.put(b.end..i.start, if m { ".index_mut(" } else { ".index(" });
            self.put(i.end..r(e).end, ")");
        }
        visit::visit_expr_index(self, e);
    }

    fn visit_expr_if(&mut self, e: &'a syn::ExprIf) {
        if let syn::Expr::Let(l) = &*e.cond {
            let b = self.deref_pat(&l.pat);
            if !b.is_empty() { self.ins(r(&e.then_branch.brace_token.span.open()).end, &b); }
        }
        visit::visit_expr_if(self, e);
    }

    fn visit_local(&mut self, l: &'a syn::Local) {
        if let (syn::Pat::Reference(p), Some(init)) = (&l.pat, &l.init) {
            if init.diverge.is_none() {
                let (w, e) = (r(p), r(&*init.expr));
                self.put(w.start..r(&*p.pat).start, "");
                self.put(w.end..e.start, " = *(");
                self.ins(e.end, ")");
                self.visit_expr(&init.expr);
                return;
            }
        }
        visit::visit_local(self, l);
    }

    fn visit_expr_match(&mut self, m: &'a syn::ExprMatch) {
        // Verus loses track of `&mut` parameters in the arms after a guard, unless it is reminded of them.
        if m.arms.iter().any(|a| a.guard.is_some()) { self.shape.push("match guard".into()); }
        let mut guarded = false;
        for a in &m.arms {
            if guarded && !self.muts.is_empty() && self.in_closure == 0 {
                let b: String = self.muts.iter().map(|p| format!(" assert(has_resolved({}) || true);", self.self_name.as_ref().filter(|_| p == "self").unwrap_or(p))).collect();
                match &*a.body {
                    syn::Expr::Block(k) if k.label.is_none() => { let p = r(&k.block.brace_token.span.open()).end; self.ins(p, &b); }
                    e => { let w = r(e); self.ins(w.start, &format!("{{{} ", b)); self.ins(w.end, " }"); }
                }
            }
            guarded |= a.guard.is_some() || Self::pat_strs(&a.pat).is_some();
        }
        if m.arms.iter().any(|a| Self::pat_strs(&a.pat).is_some()) {
            let s = self.text(r(&*m.expr)).to_string();
            for a in &m.arms {
                if let Some(v) = Self::pat_strs(&a.pat) {
                    let c: Vec<String> = v.iter().map(|x| format!("vx_str_eq({}, {:?})", s, x)).collect();
                    let p = r(&a.pat);
                    match &a.guard {
                        Some((_, g)) => {
                            self.put(p, "_");
                            let g = r(&**g);
                            self.ins(g.start, &format!("({}) && (", c.join(" || ")));
                            self.ins(g.end, ")");
                        }
                        None => self.put(p, &format!("_ if {}", c.join(" || "))),
                    }
                }
            }
            self.visit_expr(&m.expr);
            for a in &m.arms {
                for at in &a.attrs { self.visit_attribute(at); }
                if let Some((_, g)) = &a.guard { self.visit_expr(g); }
                self.visit_expr(&a.body);
            }
            return;
        }
        for a in &m.arms {
            let b = self.deref_pat(&a.pat);
            if b.is_empty() { continue; }
            if a.guard.is_some() { self.lost.push("guard on a reference pattern".into()); }
            match &*a.body {
                syn::Expr::Block(k) => { let p = r(&k.block.brace_token.span.open()).end; self.ins(p, &b); }
                e => { let w = r(e); self.ins(w.start, &format!("{{{}", b)); self.ins(w.end, "}"); }
            }
        }
        visit::visit_expr_match(self, m);
    }

    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        self.shape.push("closure".into());
        let outside = std::mem::replace(&mut self.in_loop, 0);
        self.in_closure += 1;
        visit::visit_expr_closure(self, c);
        self.in_closure -= 1;
        self.in_loop = outside;
    }
    fn visit_expr_while(&mut self, w: &'a syn::ExprWhile) {
        let key = self.nloop.to_string();
        self.nloop += 1;
        self.shape.push(if matches!(*w.cond, syn::Expr::Let(_)) { "while let" } else { "while" }.into());
        self.shape.extend(Carried::default().shape(&w.body, Some(&w.cond)));
        let (_, inv) = self.loop_spec(&key);
        let open = r(&w.body.brace_token.span.open()).start;
        self.ins(open, &format!("\n{}", inv));
        if let syn::Expr::Let(l) = &*w.cond {
            let b = self.deref_pat(&l.pat);
            if !b.is_empty() { self.ins(r(&w.body.brace_token.span.open()).end, &b); }
        }
        self.loop_hints(&key, &w.body, r(w));
        self.in_loop += 1;
        self.visit_expr(&w.cond);
        visit::visit_block(self, &w.body);
        self.in_loop -= 1;
    }

    // Leaving a loop early takes another invariant than going on.
    fn visit_expr_return(&mut self, e: &'a syn::ExprReturn) {
        self.exit("exit");
        let hint = if self.in_closure == 0 { self.at("leaves") } else { String::new() };
        if hint.is_empty() || e.expr.as_deref().is_some_and(is_err) { return visit::visit_expr_return(self, e); }
        self.ins(r(e).start, "{ ");
        match &e.expr {
            Some(x) => {
                let at = r(&**x).start;
                self.put(r(e).start..at, &format!("let vx_r{} = ", self.ret));
                visit::visit_expr_return(self, e);
                self.ins(r(e).end, &format!(";{}\nreturn vx_r; }}", hint));
            }
            None => { self.ins(r(e).start, &hint); self.ins(r(e).end, "; }"); }
        }
    }
    fn visit_expr_break(&mut self, e: &'a syn::ExprBreak) { self.exit("break"); visit::visit_expr_break(self, e); }
    fn visit_expr_continue(&mut self, e: &'a syn::ExprContinue) { self.exit("exit"); visit::visit_expr_continue(self, e); }

    fn visit_expr_try(&mut self, e: &'a syn::ExprTry) { self.exit("exit"); visit::visit_expr_try(self, e); }

    fn visit_expr_loop(&mut self, w: &'a syn::ExprLoop) {
        let key = self.nloop.to_string();
        self.nloop += 1;
        self.shape.push("loop".into());
        self.shape.extend(Carried::default().shape(&w.body, None));
        let (_, inv) = self.loop_spec(&key);
        let open = r(&w.body.brace_token.span.open()).start;
        self.ins(open, &format!("\n{}", inv));
        self.loop_hints(&key, &w.body, r(w));
        self.in_loop += 1;
        visit::visit_block(self, &w.body);
        self.in_loop -= 1;
    }

    fn visit_expr_for_loop(&mut self, w: &'a syn::ExprForLoop) {
        let key = self.nloop.to_string();
        self.nloop += 1;
        self.shape.push("for".into());
        let mut carried = Carried::default();
        carried.visit_pat(&w.pat);
        self.shape.extend(carried.shape(&w.body, None));
        let (mode, inv) = self.loop_spec(&key);
        let k = key.clone();
        let whole = r(w);
        let expr = r(&*w.expr);
        let open = r(&w.body.brace_token.span.open());
        let pat = self.text(r(&*w.pat)).to_string();
        let s = self.at(&format!("loop {} start", key));
        let e = self.at(&format!("loop {} end", key));
        let a = self.at(&format!("after loop {}", key));
        let before = self.at(&format!("loop {} before", key));
        if !before.is_empty() { self.ins(whole.start, &format!("{}\n", before)); }
        match mode.as_str() {
            // for PAT in E => native loop with a name for the ghost iterator
            "" | "native" => {
                let (p, bind) = match &*w.pat {
                    syn::Pat::Reference(rp) => {
                        let inner = self.text(r(&*rp.pat)).to_string();
                        (format!("vx_e{}", k), format!(" let {} = *vx_e{};", inner, k))
                    }
                    _ => (pat, String::new()),
                };
                self.put(whole.start..expr.start, &format!("for {} in vx_it{}: ", p, k));
                self.visit_expr(&w.expr);
                self.put(expr.end..open.end, &format!("\n{}\n{{{}{}", inv, bind, s));
            }
            // an iterator of our own: for PAT in E => while let Some(PAT) = it.next()
            "iter" | "into" => {
                self.put(whole.start..expr.start, &format!("let mut vx_it{} = (", k));
                self.visit_expr(&w.expr);
                self.put(expr.end..open.end, &format!("){};\n while let Some({}) = vx_it{}.next()\n{}\n{{{}", if mode == "into" { ".into_iter()" } else { "" }, pat, k, inv, s));
            }
            // a slice or vector (shared or mutable): by index
            "idx" => {
                let (mutable, base) = match &*w.expr {
                    syn::Expr::Reference(x) => (x.mutability.is_some(), r(&*x.expr)),
                    syn::Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => (true, r(&*m.receiver)),
                    syn::Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => (false, r(&*m.receiver)),
                    _ => (false, expr.clone()),
                };
                // A sub-slice with literal ends: v[lo..hi].
                let (mut lo, mut hi) = ("0".to_string(), String::new());
                let mut base = base;
                let inner = match &*w.expr {
                    syn::Expr::Reference(x) => &*x.expr,
                    syn::Expr::MethodCall(m) => &*m.receiver,
                    e => e,
                };
                if let syn::Expr::Index(ix) = inner {
                    if let syn::Expr::Range(rg) = &*ix.index {
                        if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) {
                            lo = self.text(r(&**a)).to_string();
                            hi = self.text(r(&**b)).to_string();
                            base = r(&*ix.expr);
                        }
                    }
                }
                let b = self.text(base).to_string();
                let pre = if hi.is_empty() { String::new() } else { format!("vx_assert({lo} <= {hi} && {hi} <= {b}.len());\n") };
                if hi.is_empty() { hi = format!("{}.len()", b); }
                let b = match &self.self_name { Some(n) => b.replace("self", n), None => b };
                let hi = match &self.self_name { Some(n) => hi.replace("self", n), None => hi };
                let rf = if mutable { "&mut " } else { "&" };
                self.put(whole.start..open.end, &format!("{pre}let mut vx_i{k}: usize = {lo};\n while vx_i{k} < {hi}\n{inv}\n{{ let vx_j{k} = vx_i{k}; vx_i{k} += 1; let {pat} = {rf}{b}[vx_j{k}];{s}"));
            }
            // E.iter().enumerate(): by index
            "enumerate" => {
                let mut base = &*w.expr;
                let mut rev = false;
                if let syn::Expr::MethodCall(m) = base { if m.method == "rev" && m.args.is_empty() { rev = true; base = &m.receiver; } }
                while let syn::Expr::MethodCall(m) = base {
                    if (m.method == "enumerate" || m.method == "iter") && m.args.is_empty() { base = &m.receiver; } else { break; }
                }
                // The rest of a sequence: v[lo..].
                let mut lo = String::new();
                if let syn::Expr::Index(ix) = base {
                    if let syn::Expr::Range(rg) = &*ix.index {
                        if let (Some(a), None) = (&rg.start, &rg.end) { lo = self.text(r(&**a)).to_string(); base = &*ix.expr; }
                    }
                }
                let b = self.text(r(base)).to_string();
                if let syn::Pat::Tuple(t) = &*w.pat {
                    let i = self.text(r(&t.elems[0])).to_string();
                    let (p, rf) = match &t.elems[1] {
                        syn::Pat::Reference(p) => (self.text(r(&*p.pat)).to_string(), ""),
                        p => (self.text(r(p)).to_string(), "&"),
                    };
                    let t = match (rev, lo.is_empty()) {
                        (false, true) => format!("let mut vx_i{k}: usize = 0;\n while vx_i{k} < {b}.len()\n{inv}\n{{ let {i} = vx_i{k}; vx_i{k} += 1; let {p} = {rf}{b}[{i}];{s}"),
                        (true, true) => format!("let mut vx_i{k}: usize = {b}.len();\n while vx_i{k} > 0\n{inv}\n{{ vx_i{k} -= 1; let {i} = vx_i{k}; let {p} = {rf}{b}[{i}];{s}"),
                        (false, false) => format!("let vx_lo{k}: usize = {lo}; vx_assert(vx_lo{k} <= {b}.len());\nlet mut vx_i{k}: usize = vx_lo{k};\n while vx_i{k} < {b}.len()\n{inv}\n{{ let {i} = vx_i{k} - vx_lo{k}; let {p} = {rf}{b}[vx_i{k}]; vx_i{k} += 1;{s}"),
                        _ => { self.lost.push("reverse over a part".into()); String::new() }
                    };
                    if !t.is_empty() { self.put(whole.start..open.end, &t); }
                } else { self.lost.push("enumerate pattern".into()); }
            }
            // izip!(a, b, ..).enumerate(): by index, up to the shortest
            "izip" => {
                let ok = (|| {
                    let m = match &*w.expr { syn::Expr::MethodCall(m) if m.method == "enumerate" => m, _ => return None };
                    let mac = match &*m.receiver { syn::Expr::Macro(x) if x.mac.path.is_ident("izip") => x, _ => return None };
                    let args = mac.mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).ok()?;
                    let a: Vec<String> = args.iter().map(|e| self.text(r(e)).to_string()).collect();
                    let t = match &*w.pat { syn::Pat::Tuple(t) => t, _ => return None };
                    let i = self.text(r(&t.elems[0])).to_string();
                    let ps = match &t.elems[1] { syn::Pat::Tuple(t) => t, _ => return None };
                    if ps.elems.len() != a.len() { return None; }
                    let cond: Vec<String> = a.iter().map(|b| format!("vx_i{} < {}.len()", k, b)).collect();
                    let mut binds = String::new();
                    for (p, b) in ps.elems.iter().zip(&a) {
                        match p {
                            syn::Pat::Reference(rp) => binds.push_str(&format!(" let {} = {}[{}];", self.text(r(&*rp.pat)), b, i)),
                            p => binds.push_str(&format!(" let {} = &{}[{}];", self.text(r(p)), b, i)),
                        }
                    }
                    Some(format!("let mut vx_i{k}: usize = 0;\n while {c}\n{inv}\n{{ let {i} = vx_i{k}; vx_i{k} += 1;{binds}{s}", c = cond.join(" && ")))
                })();
                match ok { Some(t) => self.put(whole.start..open.end, &t), None => self.lost.push("izip loop".into()) }
            }
            m => self.lost.push(format!("loop mode {}", m)),
        }
        self.in_loop += 1;
        visit::visit_block(self, &w.body);
        self.in_loop -= 1;
        let close = r(&w.body.brace_token.span.close()).start;
        if !e.is_empty() { self.ins(close, &e); }
        if !a.is_empty() { self.ins(whole.end, &a); }
    }
}

impl<'a> L<'a> {
    /// Macro arguments are parsed anew, so their syntax trees live only here; their spans still are those of the source.
    fn mac_owned(&mut self, m: &syn::Macro, w: Range<usize>) {
        // Safety of lifetimes: the visitor keeps no reference into the trees it visits.
        let m: &'a syn::Macro = unsafe { std::mem::transmute::<&syn::Macro, &'a syn::Macro>(m) };
        self.mac(m, w)
    }
    fn visit_expr(&mut self, e: &syn::Expr) {
        let e: &'a syn::Expr = unsafe { std::mem::transmute::<&syn::Expr, &'a syn::Expr>(e) };
        Visit::visit_expr(self, e)
    }
}

pub fn lower_fn(src: &Src, found: &Found, f: &FnSpec, stub: bool, canary: bool, u: &Unit) -> Lowered {
    let sig = found.item.sig();
    let block = found.item.block();
    let mut l = L { src, f, u, ed: vec![], calls: BTreeSet::new(), lost: vec![], nloop: 0, shape: vec![], in_loop: 0, nclosure: 0, in_closure: 0, ret: String::new(), self_name: None, assoc: vec![], mutated: BTreeSet::new(), bools: BTreeSet::new(), kinds: Default::default(), muts: vec![] };
    if let Some(im) = found.imp {
        for it in &im.items {
            if let syn::ImplItem::Type(t) = it { l.assoc.push((t.ident.to_string(), src.text[r(&t.ty)].to_string())); }
        }
    }
    for i in &src.ast.items { if let syn::Item::Fn(x) = i { if is_bool(&x.sig.output) { l.bools.insert(format!("{}()", x.sig.ident)); } } }
    for i in &sig.inputs {
        match i {
            syn::FnArg::Receiver(s) => if s.reference.is_some() && s.mutability.is_some() { l.muts.push("self".into()) },
            syn::FnArg::Typed(t) => if let (syn::Pat::Ident(p), syn::Type::Reference(ty)) = (&*t.pat, &*t.ty) {
                if ty.mutability.is_some() { l.muts.push(p.ident.to_string()) }
            },
        }
        if let syn::FnArg::Typed(t) = i {
            if let (syn::Pat::Ident(p), syn::Type::Path(ty)) = (&*t.pat, &*t.ty) { if ty.path.is_ident("bool") { l.bools.insert(p.ident.to_string()); } }
        }
    }
    struct Kinds<'k>(&'k mut std::collections::BTreeMap<String, bool>);
    impl<'a, 'k> Visit<'a> for Kinds<'k> {
        fn visit_signature(&mut self, s: &'a syn::Signature) {
            if let syn::ReturnType::Type(_, t) = &s.output {
                if let syn::Type::Path(p) = &**t {
                    match p.path.segments.last().map(|s| s.ident.to_string()).as_deref() {
                        Some("Option") => { self.0.insert(s.ident.to_string(), true); }
                        Some("Result") | Some("IResult") => { self.0.insert(s.ident.to_string(), false); }
                        _ => {}
                    }
                }
            }
        }
    }
    Kinds(&mut l.kinds).visit_file(&src.ast);
    // Fields that are bool wherever the file has a field of that name.
    let fields: Vec<(String, bool)> = src.ast.items.iter().filter_map(|i| if let syn::Item::Struct(s) = i { Some(s) } else { None })
        .flat_map(|s| s.fields.iter())
        .filter_map(|f| f.ident.as_ref().map(|i| (i.to_string(), matches!(&f.ty, syn::Type::Path(p) if p.path.is_ident("bool"))))).collect();
    for (n, b) in &fields {
        if *b && fields.iter().all(|f| f.0 != *n || f.1) { l.bools.insert(format!(".{}", n)); }
    }
    BoolLocals(&mut l).visit_block(block);
    let whole = r(sig).start..r(block).end;
    let open = r(&block.brace_token.span.open());
    let close = r(&block.brace_token.span.close());
    // Explicit edits first: they are anchors.
    for (o, n, many) in &f.edits {
        let o2 = o.strip_prefix("sig:").unwrap_or(o).trim();
        let range = if o.starts_with("sig:") { whole.start..open.start } else if stub { continue } else { whole.clone() };
        if let Err(e) = explicit(&src.text, range, o2, n, *many, &mut l.ed) { l.lost.push(e); }
    }
    for (o, n) in &u.global {
        let _ = explicit(&src.text, if stub { whole.start..open.start } else { whole.clone() }, o, n, true, &mut l.ed);
    }
    // The signature: named result, contract, `mut self`.
    if let Some(syn::FnArg::Receiver(rc)) = sig.inputs.first() {
        if rc.reference.is_none() && rc.mutability.is_some() {
            l.put(r(rc), "self");
            l.self_name = Some("vx_self".into());
        }
    }
    if f.mono {
        let g = &sig.generics;
        if let (Some(a), Some(b)) = (&g.lt_token, &g.gt_token) { l.put(r(a).start..r(b).end, ""); }
        else if found.imp.map_or(true, |i| i.generics.params.is_empty()) { l.lost.push("type parameters".into()); }
        if let Some(w) = &g.where_clause { l.put(r(w), ""); }
    }
    if let Some(n) = &f.rename { l.put(r(&sig.ident), n); }
    if stub {
        for i in &sig.inputs {
            if let syn::FnArg::Typed(t) = i {
                if let syn::Pat::Ident(p) = &*t.pat { if let Some(m) = &p.mutability { l.put(r(m), ""); } }
            }
        }
    }
    let hint_entry = if canary { format!("\nassert(false);{}", l.at("entry")) } else { l.at("entry") };
    if let syn::ReturnType::Type(_, t) = &sig.output {
        let t = r(&**t);
        l.ins(t.start, "(r: ");
        // The type itself may be edited (associated types).
        if let syn::ReturnType::Type(_, ty) = &sig.output { Visit::visit_type(&mut l, ty); }
        l.ins(t.end, ")");
    }
    for i in &sig.inputs { if let syn::FnArg::Typed(t) = i { Visit::visit_type(&mut l, &t.ty); } }
    l.ins(open.start, &format!("\n{}\n", f.spec));
    if stub {
        l.put(open.start..close.end, "{ unimplemented!() }");
    } else {
        let mut pre = hint_entry;
        if l.self_name.is_some() { pre = format!("\nlet mut vx_self = self;{}", pre); }
        l.ins(open.end, &pre);
        let tail = l.at("tail");
        if !tail.is_empty() {
            match block.stmts.last() {
                Some(s) => { let p = r(s).start; l.ins(p, &format!("{}\n", tail)); }
                None => l.lost.push("no tail".into()),
            }
        }
        let (end, exit) = (l.at("exit"), l.at("leaves"));
        let mut done = vec![];
        if !exit.is_empty() {
            if let syn::ReturnType::Type(_, t) = &sig.output {
                l.ret = format!(": {}", &src.text[r(&**t)]);
                leaves_of_block(block, &mut done);
                for e in &done { l.ins(e.start, &format!("{{ let vx_r{} = ", l.ret.clone())); }
            }
        }
        Visit::visit_block(&mut l, block);
        for e in &done { l.ins(e.end, &format!(";{}\nvx_r }}", exit)); }
        if l.ret.is_empty() && !(exit.is_empty() && end.is_empty()) {
            let bare = matches!(block.stmts.last(), Some(syn::Stmt::Expr(e, None)) if !matches!(e, syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Block(_) | syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_)));
            l.ins(close.start, &format!("{}{}{}", if bare { ";" } else { "" }, end, exit));
        }
        let n = l.nloop;
        for (k, _, _) in &f.loops {
            let have = match k.strip_prefix('c') { Some(c) => c.parse::<usize>().map_or(false, |c| c < l.nclosure), None => k.parse::<usize>().map_or(false, |c| c < n) };
            if !have { l.lost.push(format!("loop {} is gone", k)); }
        }
        for (k, kind) in &f.closures { if *k >= l.nclosure { l.lost.push(format!("closure {} ({}) is gone", k, kind)); } }
    }
    let body = apply(&src.text, whole, std::mem::take(&mut l.ed));
    let mut t = String::new();
    for a in &f.attrs { t.push_str(a); t.push('\n'); }
    if stub { t.push_str("#[verifier::external_body]\n"); }
    t.push_str("pub ");
    t.push_str(&body);
    if let Some(im) = found.imp {
        let g = &im.generics;
        let gp = if g.params.is_empty() { String::new() } else { src.text[r(&g.lt_token.unwrap()).start..r(&g.gt_token.unwrap()).end].to_string() };
        let mut ty = src.text[r(&*im.self_ty)].to_string();
        if ty.starts_with('&') { ty = type_name(&im.self_ty); }
        let mut gp = gp;
        if f.mono && g.type_params().next().is_some() {
            let lt: Vec<String> = g.lifetimes().map(|x| x.lifetime.to_string()).collect();
            gp = if lt.is_empty() { String::new() } else { format!("<{}>", lt.join(", ")) };
        }
        t = format!("impl{} {} {{\n{}\n}}", gp, ty, t);
    }
    let _ = FnRef::Free;
    let mut shape = l.shape;
    if l.nclosure > 0 { shape.push(format!("{} closures", l.nclosure)); }
    Lowered { text: t, calls: l.calls, lost: l.lost, shape }
}
