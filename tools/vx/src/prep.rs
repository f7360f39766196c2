//! Before anything else: functions and closures that have no contract are put in place of their calls, where that is only a
//! matter of text.  `{ let p: T = argument; ..; body }` is what the call does, so a helper that was taken out of a function
//! under contract is read as part of it again.  Early returns become branches (`if c { return x; } rest` is `if c { x } else { rest }`,
//! `let y = e?; rest` a match); those that remain stay as they are where the call is the caller's own result, or, if they are
//! errors, where it is followed by `?`.  Left alone: other bodies with `return` or `?`, recursion, closures used as values.

use crate::{all_fns, find_fn, type_name, Src};
use std::collections::BTreeSet;
use std::ops::Range;
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

fn r(s: &impl Spanned) -> Range<usize> { s.span().byte_range() }

/// The text on one line, without comments.
fn flat(t: &str) -> String {
    let b: Vec<char> = t.chars().collect();
    let (mut o, mut i) = (String::new(), 0);
    while i < b.len() {
        match b[i] {
            '"' => {
                o.push('"');
                i += 1;
                while i < b.len() && b[i] != '"' {
                    if b[i] == '\\' && i + 1 < b.len() { o.push(b[i]); i += 1; }
                    o.push(b[i]);
                    i += 1;
                }
                if i < b.len() { o.push('"'); i += 1; }
            }
            '\'' => {
                // A character, or a lifetime.
                if b.get(i + 1) == Some(&'\\') {
                    o.push('\''); o.push('\\');
                    i += 2;
                    if i < b.len() { o.push(b[i]); i += 1; }
                } else if b.get(i + 2) == Some(&'\'') {
                    o.extend(&b[i..i + 3]);
                    i += 3;
                } else { o.push('\''); i += 1; }
            }
            '/' if b.get(i + 1) == Some(&'/') => { while i < b.len() && b[i] != '\n' { i += 1; } }
            '\n' | '\r' => { o.push(' '); i += 1; }
            c => { o.push(c); i += 1; }
        }
    }
    o
}

fn mac_exprs(m: &syn::Macro) -> Vec<syn::Expr> {
    m.parse_body_with(Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).unwrap_or_default()
}

/// What a body does with names and control.
#[derive(Default)]
struct Facts {
    /// Returns, in any way; in a way that is not an error; or there are names that cannot be seen.
    escapes: bool,
    returns: bool,
    opaque: bool,
    idents: BTreeSet<String>,
    calls: BTreeSet<String>,
    depth: usize,
}
impl<'a> Visit<'a> for Facts {
    fn visit_expr_return(&mut self, e: &'a syn::ExprReturn) {
        if self.depth == 0 {
            self.escapes = true;
            let err = matches!(e.expr.as_deref(), Some(syn::Expr::Call(c)) if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("Err")));
            if !err { self.returns = true; }
        }
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_try(&mut self, e: &'a syn::ExprTry) { if self.depth == 0 { self.escapes = true; } visit::visit_expr_try(self, e); }
    fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) { self.depth += 1; visit::visit_expr_closure(self, e); self.depth -= 1; }
    fn visit_expr_method_call(&mut self, e: &'a syn::ExprMethodCall) { self.calls.insert(e.method.to_string()); visit::visit_expr_method_call(self, e); }
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        if let Some(i) = p.path.get_ident() { self.idents.insert(i.to_string()); }
        if let Some(s) = p.path.segments.last() { self.calls.insert(s.ident.to_string()); }
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        for e in mac_exprs(m) {
            let mut f = Facts { depth: self.depth, ..Facts::default() };
            f.visit_expr(&e);
            self.escapes |= f.escapes;
            self.returns |= f.returns;
            self.opaque |= f.opaque;
            self.idents.extend(f.idents);
            self.calls.extend(f.calls);
        }
        // Arguments named inside a format string are not seen: `{name}`.
        let t = m.tokens.to_string();
        if t.contains('{') && t.split('{').skip(1).any(|x| x.starts_with(|c: char| c.is_alphabetic() || c == '_')) { self.opaque = true; }
    }
}

/// Calls of one name, as direct calls, and how often the name occurs at all.
struct Calls<'n> {
    name: &'n str,
    hits: Vec<(Range<usize>, Vec<Range<usize>>)>,
    seen: usize,
}
impl<'n, 'a> Visit<'a> for Calls<'n> {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            if p.path.is_ident(self.name) { self.hits.push((r(c), c.args.iter().map(|a| r(a)).collect())); }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) { for e in mac_exprs(m) { self.visit_expr(&e); } }
    fn visit_ident(&mut self, i: &'a proc_macro2::Ident) { if i == self.name { self.seen += 1; } }
}

/// Names bound by patterns after a place.
struct Bound { after: usize, names: BTreeSet<String> }
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        if r(p).start >= self.after { self.names.insert(p.ident.to_string()); }
        visit::visit_pat_ident(self, p);
    }
}

/// One replacement of a local closure by its body.
fn closure_once(text: &str, block: &syn::Block) -> Option<Vec<(Range<usize>, String)>> {
    struct Locals<'a>(Vec<&'a syn::Local>);
    impl<'a> Visit<'a> for Locals<'a> {
        fn visit_local(&mut self, l: &'a syn::Local) { self.0.push(l); visit::visit_local(self, l); }
    }
    let mut ls = Locals(vec![]);
    ls.visit_block(block);
    for l in ls.0 {
        let (name, init) = match (&l.pat, &l.init) { (syn::Pat::Ident(p), Some(i)) if p.by_ref.is_none() && i.diverge.is_none() => (p.ident.to_string(), i), _ => continue };
        let c = match &*init.expr { syn::Expr::Closure(c) if c.capture.is_none() && c.asyncness.is_none() => c, _ => continue };
        let mut params = vec![];
        for p in &c.inputs {
            match p {
                syn::Pat::Ident(i) => params.push((text[r(i)].to_string(), String::new(), i.ident.to_string())),
                syn::Pat::Type(t) => params.push((flat(&text[r(&*t.pat)]), format!(": {}", flat(&text[r(&*t.ty)])), String::new())),
                p => params.push((flat(&text[r(p)]), String::new(), String::new())),
            }
        }
        if params.len() != c.inputs.len() { continue; }
        let mut f = Facts::default();
        f.visit_expr(&c.body);
        if f.escapes || f.opaque || f.idents.contains(&name) { continue; }
        let mut b = Bound { after: r(l).end, names: BTreeSet::new() };
        b.visit_block(block);
        let mut own = Bound { after: 0, names: BTreeSet::new() };
        for p in &c.inputs { own.visit_pat(p); }
        let own = own.names;
        if f.idents.iter().any(|i| !own.contains(i) && b.names.contains(i)) { continue; }
        let mut k = Calls { name: &name, hits: vec![], seen: 0 };
        k.visit_block(block);
        // Its binding and direct calls, which do not lie within each other, and nothing else.
        if k.seen != k.hits.len() + 1 || k.hits.iter().any(|h| h.1.len() != params.len()) { continue; }
        if k.hits.iter().any(|a| k.hits.iter().any(|b| a.0 != b.0 && a.0.start <= b.0.start && b.0.end <= a.0.end)) { continue; }
        let body = flat(&text[r(&*c.body)]);
        let mut ed = vec![(r(l), "\n".repeat(text[r(l)].matches('\n').count()))];
        for (range, args) in k.hits {
            ed.push((range.clone(), call(text, range, &params, &args, &body)));
        }
        return Some(ed);
    }
    None
}

fn call(text: &str, range: Range<usize>, params: &[(String, String, String)], args: &[Range<usize>], body: &str) -> String {
    let mut t = String::from("({ ");
    for (i, (p, a)) in params.iter().zip(args).enumerate() { t += &format!("let vx_a{}{} = {}; ", i, p.1, flat(&text[a.clone()])); }
    for (i, p) in params.iter().enumerate() { t += &format!("let {}{} = vx_a{}; ", p.0, p.1, i); }
    t += body;
    t += " })";
    t += &"\n".repeat(text[range].matches('\n').count());
    t
}

/// Early returns as branches.
struct Branches<'t> { text: &'t str, wrap: &'static [&'static str] }
fn escapes(e: &syn::Expr) -> bool { let mut f = Facts::default(); f.visit_expr(e); f.escapes }
fn leaves(b: &[syn::Stmt]) -> bool {
    match b.last() {
        Some(syn::Stmt::Expr(e, _)) => leaves_expr(e),
        _ => false,
    }
}
fn leaves_expr(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Return(_) => true,
        syn::Expr::Block(b) => leaves(&b.block.stmts),
        syn::Expr::If(i) => leaves(&i.then_branch.stmts) && i.else_branch.as_ref().map_or(false, |x| leaves_expr(&x.1)),
        syn::Expr::Match(m) => m.arms.iter().all(|a| leaves_expr(&a.body)),
        _ => false,
    }
}
impl<'t> Branches<'t> {
    fn of(&self, s: &impl Spanned) -> &'t str { &self.text[r(s)] }
    fn tail(&self, e: &syn::Expr) -> String {
        match e {
            syn::Expr::Return(x) => x.expr.as_ref().map_or("()".into(), |x| self.tail(x)),
            syn::Expr::Block(b) if b.label.is_none() => format!("{{ {} }}", self.stmts(&b.block.stmts)),
            syn::Expr::If(i) if escapes(e) => {
                let other = i.else_branch.as_ref().map_or(String::new(), |x| format!(" else {{ {} }}", self.tail(&x.1)));
                format!("if {} {{ {} }}{}", self.of(&*i.cond), self.stmts(&i.then_branch.stmts), other)
            }
            syn::Expr::Match(m) if escapes(e) => {
                let mut t = format!("match {} {{ ", self.of(&*m.expr));
                for a in &m.arms { t += &format!("{} => {{ {} }} ", self.head(a), self.tail(&a.body)); }
                t + "}"
            }
            e => self.of(e).to_string(),
        }
    }
    /// Ok of what the expression is, Err of what it returns.
    fn either(&self, e: &syn::Expr) -> String {
        match e {
            e if leaves_expr(e) => format!("Err({{ {} }})", self.tail(e)),
            syn::Expr::If(i) if escapes(e) && i.else_branch.is_some() => {
                let then = if leaves(&i.then_branch.stmts) { format!("Err({{ {} }})", self.stmts(&i.then_branch.stmts)) } else { format!("Ok({})", self.of(&i.then_branch)) };
                format!("if {} {{ {} }} else {{ {} }}", self.of(&*i.cond), then, self.either(&i.else_branch.as_ref().unwrap().1))
            }
            syn::Expr::Match(m) if escapes(e) => {
                let mut t = format!("match {} {{ ", self.of(&*m.expr));
                for a in &m.arms { t += &format!("{} => {{ {} }} ", self.head(a), self.either(&a.body)); }
                t + "}"
            }
            e => format!("Ok({})", self.of(e)),
        }
    }
    fn head(&self, a: &syn::Arm) -> String {
        format!("{}{}", self.of(&a.pat), a.guard.as_ref().map_or(String::new(), |g| format!(" if {}", self.of(&*g.1))))
    }
    /// `e?`, the value bound to `pat`, and what follows.
    fn question(&self, e: &syn::Expr, pat: &str, rest: &[syn::Stmt]) -> String {
        match self.wrap {
            ["Ok", ..] => format!("match {} {{ Ok({}) => {{ {} }} Err(vx_e) => {{ Err(vx_e) }} }}", self.of(e), pat, self.stmts(rest)),
            ["Some", ..] => format!("match {} {{ Some({}) => {{ {} }} None => {{ None }} }}", self.of(e), pat, self.stmts(rest)),
            _ => format!("{}?; {}", self.of(e), self.stmts(rest)),
        }
    }
    fn stmts(&self, b: &[syn::Stmt]) -> String {
        let mut o = String::new();
        for (i, s) in b.iter().enumerate() {
            let rest = &b[i + 1..];
            match s {
                syn::Stmt::Expr(e, None) if rest.is_empty() => return o + &self.tail(e),
                syn::Stmt::Expr(e @ syn::Expr::Return(_), _) => return o + &self.tail(e),
                syn::Stmt::Expr(e, _) if rest.is_empty() && leaves_expr(e) => return o + &self.tail(e),
                syn::Stmt::Expr(syn::Expr::If(c), _) if c.else_branch.is_none() && leaves(&c.then_branch.stmts) => {
                    return o + &format!("if {} {{ {} }} else {{ {} }}", self.of(&*c.cond), self.stmts(&c.then_branch.stmts), self.stmts(rest));
                }
                syn::Stmt::Expr(syn::Expr::Try(e), Some(_)) => return o + &self.question(&e.expr, "_", rest),
                syn::Stmt::Local(l) => {
                    let init = match &l.init { Some(i) => i, None => { o += self.of(s); o.push(' '); continue } };
                    if let Some((_, d)) = &init.diverge {
                        return o + &format!("if let {} = {} {{ {} }} else {{ {} }}", self.of(&l.pat), self.of(&*init.expr), self.stmts(rest), self.tail(d));
                    }
                    match &*init.expr {
                        syn::Expr::Try(e) if matches!(l.pat, syn::Pat::Ident(_) | syn::Pat::Tuple(_) | syn::Pat::Struct(_) | syn::Pat::Wild(_)) => return o + &self.question(&e.expr, self.of(&l.pat), rest),
                        syn::Expr::Match(m) if m.arms.iter().filter(|a| !leaves_expr(&a.body)).count() == 1 && m.arms.len() > 1 => {
                            let mut t = format!("match {} {{ ", self.of(&*m.expr));
                            for a in &m.arms {
                                if leaves_expr(&a.body) { t += &format!("{} => {{ {} }} ", self.head(a), self.tail(&a.body)); }
                                else { t += &format!("{} => {{ let {} = {}; {} }} ", self.head(a), self.of(&l.pat), self.of(&*a.body), self.stmts(rest)); }
                            }
                            return o + &t + "}";
                        }
                        syn::Expr::If(c) if c.else_branch.as_ref().map_or(false, |x| leaves_expr(&x.1)) => {
                            return o + &format!("if {} {{ let {} = {}; {} }} else {{ {} }}", self.of(&*c.cond), self.of(&l.pat), self.of(&c.then_branch), self.stmts(rest), self.tail(&c.else_branch.as_ref().unwrap().1));
                        }
                        e @ (syn::Expr::If(_) | syn::Expr::Match(_)) if escapes(e) => {
                            return o + &format!("match {} {{ Ok(vx_v) => {{ let {} = vx_v; {} }} Err(vx_r) => {{ vx_r }} }}", self.either(e), self.of(&l.pat), self.stmts(rest));
                        }
                        _ => {}
                    }
                    o += self.of(s);
                    o.push(' ');
                }
                s => { o += self.of(s); o.push(' '); }
            }
        }
        o
    }
}

#[derive(PartialEq, Clone, Copy)]
enum Place { Any, Question, Result }
struct Helper { last: String, ty: Option<String>, params: Vec<(String, String, String)>, body: String, ret: Option<String>, place: Place }

fn error_of(ret: &str) -> String { ret.rsplit(',').next().unwrap_or("").split_whitespace().collect() }

fn helpers(src: &Src, known: &BTreeSet<String>) -> Vec<Helper> {
    let mut v = vec![];
    for p in all_fns(&src.ast) {
        let last = p.rsplit("::").next().unwrap().to_string();
        if known.contains(&last) || p == "main" { continue; }
        let f = match find_fn(&src.ast, &p) { Some(f) => f, None => continue };
        if f.imp.map_or(false, |i| i.trait_.is_some()) { continue; }
        let s = f.item.sig();
        if s.constness.is_some() || s.unsafety.is_some() || s.asyncness.is_some() { continue; }
        let plain = s.generics.params.is_empty();
        let mut params = vec![];
        let mut ok = true;
        for a in &s.inputs {
            match a {
                syn::FnArg::Receiver(_) => {}
                syn::FnArg::Typed(t) => match &*t.pat {
                    syn::Pat::Ident(i) => {
                        let ty = flat(&src.text[r(&*t.ty)]);
                        if ty.contains("impl ") { ok = false; }
                        params.push((src.text[r(i)].to_string(), if plain { format!(": {}", ty) } else { String::new() }, i.ident.to_string()));
                    }
                    _ => ok = false,
                },
            }
        }
        let mut facts = Facts::default();
        facts.visit_block(f.item.block());
        if !ok || facts.opaque || facts.calls.contains(&last) { continue; }
        let b = &src.text[r(f.item.block())];
        let mut body = flat(&b[1..b.len() - 1]);
        let ret = match &s.output { syn::ReturnType::Type(_, t) => flat(&src.text[r(&**t)]), _ => "()".into() };
        let mut place = Place::Any;
        if facts.escapes {
            let wrap: &[&str] = if ret.starts_with("Result<") { &["Ok"] } else if ret.starts_with("Option<") { &["Some"] } else { &[] };
            let t = flat(&Branches { text: &src.text, wrap }.stmts(&f.item.block().stmts));
            let mut after = Facts::default();
            match syn::parse_str::<syn::Block>(&format!("{{ {} }}", t)) {
                Ok(b) => after.visit_block(&b),
                Err(_) => continue,
            }
            if !after.escapes { body = t; }
            else if !after.returns && ret.starts_with("Result<") { body = t; place = Place::Question; }
            else if !facts.returns && ret.starts_with("Result<") { place = Place::Question; }
            else { place = Place::Result; }
        }
        let ret = if plain && !ret.contains("impl ") && facts.escapes { Some(ret) } else { None };
        if place != Place::Any && ret.is_none() { continue; }
        v.push(Helper { last, ty: p.split_once("::").map(|x| x.0.to_string()), params, body, ret, place });
    }
    v
}

/// Calls of helpers from one function.
struct Sites<'h> {
    hs: &'h [Helper],
    ty: Option<String>,
    text: &'h str,
    ed: Vec<(Range<usize>, String)>,
    /// The caller's result, the calls that are that result, and those followed by `?`; whether within a closure.
    ret: String,
    result: BTreeSet<usize>,
    question: BTreeSet<usize>,
    depth: usize,
}
impl<'h> Sites<'h> {
    fn hit(&mut self, range: Range<usize>, name: &str, ty: Option<String>, args: Vec<Range<usize>>) {
        if let Some(h) = self.hs.iter().find(|h| h.last == name && h.ty == ty) {
            if h.params.len() != args.len() { return; }
            let same = |a: &str, b: &str| a.split_whitespace().eq(b.split_whitespace());
            let ret = h.ret.as_deref().unwrap_or("");
            let fits = match h.place {
                Place::Any => true,
                _ if self.depth > 0 => false,
                Place::Question => (self.question.contains(&range.end) && self.ret.starts_with("Result<") && error_of(ret) == error_of(&self.ret)) || (self.result.contains(&range.end) && same(ret, &self.ret)),
                Place::Result => self.result.contains(&range.end) && same(ret, &self.ret),
            };
            if !fits { return; }
            let body = match &h.ret { Some(ty) => format!("let vx_h: {} = {{ {} }}; vx_h", ty, h.body), None => h.body.clone() };
            let t = call(self.text, range.clone(), &h.params, &args, &body);
            self.ed.push((range, t));
        }
    }
}
impl<'h> Sites<'h> {
    fn results(&mut self, b: &syn::Block) { if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() { self.result_expr(e); } }
    fn result_expr(&mut self, e: &syn::Expr) {
        match e {
            syn::Expr::Block(b) => self.results(&b.block),
            syn::Expr::If(i) => { self.results(&i.then_branch); if let Some(x) = &i.else_branch { self.result_expr(&x.1); } }
            syn::Expr::Match(m) => for a in &m.arms { self.result_expr(&a.body); },
            syn::Expr::Call(_) | syn::Expr::MethodCall(_) => { self.result.insert(r(e).end); }
            _ => {}
        }
    }
}
impl<'h, 'a> Visit<'a> for Sites<'h> {
    fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) { self.depth += 1; visit::visit_expr_closure(self, e); self.depth -= 1; }
    fn visit_expr_return(&mut self, e: &'a syn::ExprReturn) {
        if let (0, Some(x)) = (self.depth, &e.expr) { self.result_expr(x); }
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_try(&mut self, e: &'a syn::ExprTry) {
        self.question.insert(r(&*e.expr).end);
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let args = c.args.iter().map(|a| r(a)).collect::<Vec<_>>();
            match s.len() {
                1 => self.hit(r(c), &s[0], None, args),
                2 => { let t = if s[0] == "Self" { self.ty.clone() } else { Some(s[0].clone()) }; self.hit(r(c), &s[1], t, args) }
                _ => {}
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        if matches!(&*m.receiver, syn::Expr::Path(p) if p.path.is_ident("self")) {
            let args = m.args.iter().map(|a| r(a)).collect::<Vec<_>>();
            self.hit(r(m), &m.method.to_string(), self.ty.clone(), args);
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) { for e in mac_exprs(m) { self.visit_expr(&e); } }
}

fn put(text: &str, mut ed: Vec<(Range<usize>, String)>) -> String {
    // The outermost of nested calls first; the inner ones come in the next round.
    ed.sort_by_key(|e| (e.0.start, usize::MAX - e.0.end));
    let (mut o, mut p) = (String::new(), 0);
    for (x, t) in ed {
        if x.start < p { continue; }
        o.push_str(&text[p..x.start]);
        o.push_str(&t);
        p = x.end;
    }
    o.push_str(&text[p..]);
    o
}

/// Constants the unit does not have, in place of their names: `({ let vx_c: T = value; vx_c })` is what such a name is;
/// a number or a text is written as the literal.
struct Consts<'t> {
    text: &'t str,
    free: Vec<(String, String)>,
    own: Vec<(String, String, String)>,
    local: Vec<(String, String)>,
    ty: Option<String>,
    ed: Vec<(Range<usize>, String)>,
}
/// What an expression of literals is, at an integer type of so many bits.
fn number(e: &syn::Expr, bits: u32) -> Option<u128> {
    let mask = |v: u128| if v >> bits == 0 { Some(v) } else { None };
    match e {
        syn::Expr::Paren(p) => number(&p.expr, bits),
        syn::Expr::Group(p) => number(&p.expr, bits),
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(i) => mask(i.base10_parse::<u128>().ok()?),
            syn::Lit::Byte(b) => mask(b.value() as u128),
            _ => None,
        },
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => Some(!number(&u.expr, bits)? & ((1u128 << bits) - 1)),
        syn::Expr::Binary(b) => {
            let (x, y) = (number(&b.left, bits)?, number(&b.right, bits)?);
            mask(match b.op {
                syn::BinOp::Add(_) => x + y,
                syn::BinOp::Sub(_) => x.checked_sub(y)?,
                syn::BinOp::Mul(_) => x.checked_mul(y)?,
                syn::BinOp::Shl(_) if y < bits as u128 => (x << y) & ((1u128 << bits) - 1),
                syn::BinOp::Shr(_) if y < bits as u128 => x >> y,
                syn::BinOp::BitAnd(_) => x & y,
                syn::BinOp::BitOr(_) => x | y,
                syn::BinOp::BitXor(_) => x ^ y,
                _ => return None,
            })
        }
        _ => None,
    }
}
fn value(text: &str, ty: &syn::Type, e: &syn::Expr) -> String {
    let name = flat(&text[r(ty)]);
    let bits = match name.as_str() { "u8" => 8, "u16" => 16, "u32" => 32, "u64" | "usize" => 64, _ => 0 };
    if bits > 0 { if let Some(v) = number(e, bits) { return format!("{}{}", v, name); } }
    if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(_), .. }) = e { return text[r(e)].to_string(); }
    format!("({{ let vx_c: {} = {}; vx_c }})", name, flat(&text[r(e)]))
}
impl<'t, 'a> Visit<'a> for Consts<'t> {
    fn visit_block(&mut self, b: &'a syn::Block) {
        let n = self.local.len();
        for s in &b.stmts {
            if let syn::Stmt::Item(syn::Item::Const(c)) = s {
                if c.attrs.is_empty() {
                    self.local.push((c.ident.to_string(), value(self.text, &c.ty, &c.expr)));
                    self.ed.push((r(c), "\n".repeat(self.text[r(c)].matches('\n').count())));
                }
            }
        }
        visit::visit_block(self, b);
        self.local.truncate(n);
    }
    fn visit_item_const(&mut self, _: &'a syn::ItemConst) {}
    fn visit_impl_item_const(&mut self, _: &'a syn::ImplItemConst) {}
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
        self.ty = Some(type_name(&i.self_ty));
        visit::visit_item_impl(self, i);
        self.ty = None;
    }
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let v = match s.len() {
            1 => self.local.iter().rev().find(|c| c.0 == s[0]).or_else(|| self.free.iter().find(|c| c.0 == s[0])).map(|c| &c.1),
            2 => {
                let t = if s[0] == "Self" { self.ty.clone().unwrap_or_default() } else { s[0].clone() };
                self.own.iter().find(|c| c.0 == t && c.1 == s[1]).map(|c| &c.2)
            }
            _ => None,
        };
        if let Some(v) = v {
            self.ed.push((r(p), format!("{}{}", v, "\n".repeat(self.text[r(p)].matches('\n').count()))));
        }
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) { for e in mac_exprs(m) { self.visit_expr(&e); } }
}
/// Expressions of literals, as the literal they are.
pub fn folded(src: Src) -> Src {
    struct F<'t>(&'t str, Vec<(Range<usize>, String)>);
    /// The type that a literal in it names; whether `!` occurs.
    fn kind(e: &syn::Expr) -> Option<(String, bool)> {
        match e {
            syn::Expr::Paren(p) => kind(&p.expr),
            syn::Expr::Lit(l) => match &l.lit {
                syn::Lit::Int(i) => Some((i.suffix().to_string(), false)),
                syn::Lit::Byte(_) => Some(("u8".into(), false)),
                _ => None,
            },
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => kind(&u.expr).map(|k| (k.0, true)),
            syn::Expr::Binary(b) => {
                let (x, y) = (kind(&b.left)?, kind(&b.right)?);
                let shift = matches!(b.op, syn::BinOp::Shl(_) | syn::BinOp::Shr(_));
                Some((if x.0.is_empty() && !shift { y.0 } else { x.0 }, x.1 || y.1))
            }
            _ => None,
        }
    }
    impl<'t, 'a> Visit<'a> for F<'t> {
        fn visit_item_const(&mut self, _: &'a syn::ItemConst) {}
        fn visit_item_mod(&mut self, _: &'a syn::ItemMod) {}
        fn visit_expr(&mut self, e: &'a syn::Expr) {
            if matches!(e, syn::Expr::Unary(_) | syn::Expr::Binary(_)) {
                if let Some((ty, not)) = kind(e) {
                    let bits = match ty.as_str() { "u8" => 8, "u16" => 16, "u32" => 32, "u64" | "usize" => 64, "" if !not => 7, _ => 0 };
                    if bits > 0 { if let Some(v) = number(e, bits) {
                        self.1.push((r(e), format!("{}{}{}", v, ty, "\n".repeat(self.0[r(e)].matches('\n').count()))));
                        return;
                    } }
                }
            }
            visit::visit_expr(self, e);
        }
    }
    let mut f = F(&src.text, vec![]);
    f.visit_file(&src.ast);
    let t = put(&src.text, f.1);
    match syn::parse_file(&t) { Ok(ast) => Src { text: t, ast }, Err(_) => src }
}
/// `|_|` is a parameter nobody reads.
pub fn unnamed(src: Src) -> Src {
    struct W(Vec<(Range<usize>, String)>);
    impl<'a> Visit<'a> for W {
        fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
            for (i, p) in c.inputs.iter().enumerate() {
                if matches!(p, syn::Pat::Wild(_)) { self.0.push((r(p), format!("vx_w{}", i))); }
            }
            visit::visit_expr_closure(self, c);
        }
        fn visit_macro(&mut self, m: &'a syn::Macro) { for e in mac_exprs(m) { self.visit_expr(&e); } }
    }
    let mut w = W(vec![]);
    w.visit_file(&src.ast);
    let t = put(&src.text, w.0);
    match syn::parse_file(&t) { Ok(ast) => Src { text: t, ast }, Err(_) => src }
}
pub fn constants(mut src: Src, known: &BTreeSet<String>) -> Src {
    for _ in 0..8 {
        let mut c = Consts { text: &src.text, free: vec![], own: vec![], local: vec![], ty: None, ed: vec![] };
        for i in &src.ast.items {
            match i {
                syn::Item::Const(k) if !known.contains(&k.ident.to_string()) => c.free.push((k.ident.to_string(), value(&src.text, &k.ty, &k.expr))),
                syn::Item::Impl(im) if im.trait_.is_none() => for x in &im.items {
                    if let syn::ImplItem::Const(k) = x { c.own.push((type_name(&im.self_ty), k.ident.to_string(), value(&src.text, &k.ty, &k.expr))); }
                },
                _ => {}
            }
        }
        c.visit_file(&src.ast);
        if c.ed.is_empty() { break; }
        let t = put(&src.text, c.ed);
        match syn::parse_file(&t) { Ok(ast) => src = Src { text: t, ast }, Err(_) => break }
    }
    src
}

/// `known`: the functions the unit has contracts or definitions for.
pub fn inline(mut src: Src, known: &BTreeSet<String>) -> Src {
    for _ in 0..40 {
        let mut next = None;
        for p in all_fns(&src.ast) {
            let f = match find_fn(&src.ast, &p) { Some(f) => f, None => continue };
            if let Some(ed) = closure_once(&src.text, f.item.block()) { next = Some(put(&src.text, ed)); break; }
        }
        if next.is_none() {
            let hs = helpers(&src, known);
            if !hs.is_empty() {
                for p in all_fns(&src.ast) {
                    if !known.contains(p.rsplit("::").next().unwrap()) { continue; }
                    let f = match find_fn(&src.ast, &p) { Some(f) => f, None => continue };
                    let ty = f.imp.map(|i| type_name(&i.self_ty));
                    let ret = match &f.item.sig().output { syn::ReturnType::Type(_, t) => flat(&src.text[r(&**t)]), _ => "()".into() };
                    let mut s = Sites { hs: &hs, ty, text: &src.text, ed: vec![], ret, result: BTreeSet::new(), question: BTreeSet::new(), depth: 0 };
                    s.results(f.item.block());
                    s.visit_block(f.item.block());
                    if !s.ed.is_empty() { next = Some(put(&src.text, s.ed)); break; }
                }
            }
        }
        let t = match next { Some(t) => t, None => break };
        match syn::parse_file(&t) { Ok(ast) => src = Src { text: t, ast }, Err(_) => break }
    }
    src
}

