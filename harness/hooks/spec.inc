// Executable specification of patterns, written from the property statements (not from the code).

#[derive(Clone, Debug, PartialEq)]
pub(crate) enum Tree {
    Class(Vec<u8>),
    Seq(Option<u32>, Vec<Tree>),
    Alt(Vec<Tree>),
}

#[derive(Clone, Debug, PartialEq)]
pub(crate) enum Refusal {
    Verb { known: bool, verb: String, index: usize },
    Unmatched,
    NonAscii(usize),
    Missing(usize),
}

pub(crate) fn ascii_letter(c: u8) -> bool { (65..=90).contains(&c) || (97..=122).contains(&c) }

/// The control verb at the start of a pattern, and the rest.
pub(crate) fn spec_verb(p: &str) -> Option<(&str, &str)> {
    let b = p.as_bytes();
    if b.len() < 2 || b[0] != b'(' || b[1] != b'*' { return None; }
    let mut i = 2;
    while i < b.len() && b[i] != b')' { i += 1; }
    if i == 2 || i == b.len() { return None; }
    Some((&p[2..i], &p[i + 1..]))
}

pub(crate) const KNOWN_VERBS: [&str; 11] = ["NO_AUTO_POSSESS", "NO_START_OPT", "UTF16", "UTF32", "CR", "LF", "CRLF",
    "ANYCRLF", "ANY", "BSR_ANYCRLF", "BSR_UNICODE"];

/// What a control verb does: (ucp, utf8) to switch on and where parsing resumes.
pub(crate) fn spec_control(p: &str, start: usize) -> Result<(bool, bool, usize), Refusal> {
    match spec_verb(p) {
        None => Ok((false, false, 0)),
        Some((v, rest)) => match v {
            "UCP" => Ok((true, false, p.len() - rest.len())),
            "UTF8" | "UTF" => Ok((false, true, p.len() - rest.len())),
            _ => {
                let prefix = |q: &str| v.len() >= q.len() && &v.as_bytes()[..q.len()] == q.as_bytes();
                let known = KNOWN_VERBS.contains(&v) || prefix("LIMIT_MATCH=") || prefix("LIMIT_RECURSION=");
                Err(Refusal::Verb { known, verb: v.to_string(), index: start + 2 })
            }
        },
    }
}

struct Open { group: u32, at: usize, branches: Vec<Tree>, items: Vec<Tree> }

fn close(o: Open) -> Tree {
    let Open { group, mut branches, items, .. } = o;
    if branches.is_empty() { return Tree::Seq(Some(group), items); }
    branches.push(Tree::Seq(None, items));
    Tree::Seq(Some(group), vec![Tree::Alt(branches)])
}

/// Parses a pattern: (tree, ucp by verb, utf8 by verb).
pub(crate) fn spec_parse(p: &str, caseless: bool) -> Result<(Tree, bool, bool), Refusal> {
    let (ucp, utf8, from) = spec_control(p, 0)?;
    let mut open = vec![Open { group: 0, at: 0, branches: vec![], items: vec![] }];
    let mut next = 1;
    for (k, c) in p[from..].char_indices() {
        let at = from + k;
        match c {
            '(' => { open.push(Open { group: next, at, branches: vec![], items: vec![] }); next += 1; }
            ')' => {
                if open.len() == 1 { return Err(Refusal::Unmatched); }
                let t = close(open.pop().unwrap());
                open.last_mut().unwrap().items.push(t);
            }
            '|' => {
                let o = open.last_mut().unwrap();
                let items = std::mem::replace(&mut o.items, vec![]);
                o.branches.push(Tree::Seq(None, items));
            }
            c if (c as u32) < 128 => {
                let b = c as u8;
                let class = if caseless && ascii_letter(b) { vec![b & !32, b | 32] } else { vec![b] };
                open.last_mut().unwrap().items.push(Tree::Class(class));
            }
            _ => return Err(Refusal::NonAscii(at)),
        }
    }
    if open.len() > 1 { return Err(Refusal::Missing(open.last().unwrap().at)); }
    Ok((close(open.pop().unwrap()), ucp, utf8))
}

pub(crate) fn spec_classes(t: &Tree, out: &mut Vec<Vec<u8>>) {
    match t {
        Tree::Class(b) => out.push(b.clone()),
        Tree::Seq(_, v) | Tree::Alt(v) => for x in v { spec_classes(x, out) },
    }
}

/// The literal of a tree: bytes (of pairs: upper case) and case flags; None if it is not a plain string.
pub(crate) fn spec_literal(t: &Tree) -> Option<Vec<(u8, bool)>> {
    fn go(t: &Tree, out: &mut Vec<(u8, bool)>) -> bool {
        match t {
            Tree::Alt(_) => false,
            Tree::Seq(_, v) => v.iter().all(|x| go(x, out)),
            Tree::Class(b) if b.len() == 1 => { out.push((b[0], false)); true }
            Tree::Class(b) if b.len() == 2 && b[0] < b[1] && (65..=90).contains(&b[0]) && b[1] == b[0] + 32 => {
                out.push((b[0], true));
                true
            }
            Tree::Class(_) => false,
        }
    }
    let mut out = vec![];
    if go(t, &mut out) { Some(out) } else { None }
}

pub(crate) fn spec_mixed(l: &[(u8, bool)]) -> bool {
    l.iter().any(|e| ascii_letter(e.0) && e.1) && l.iter().any(|e| ascii_letter(e.0) && !e.1)
}

/// The numbers that occur in a text.
pub(crate) fn numbers(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
}

/// Whether an error text is the right one for a refusal (its wording is free except for what the properties state).
pub(crate) fn says(text: &str, r: &Refusal) -> bool {
    let low = text.to_lowercase();
    match r {
        Refusal::Unmatched => low.contains("unmatched"),
        Refusal::NonAscii(i) => low.contains("non-ascii") && numbers(text).contains(i),
        Refusal::Missing(i) => low.contains("missing") && numbers(text).contains(i),
        Refusal::Verb { known, verb, index } => {
            let n = numbers(&text.replacen(verb.as_str(), "", 1));
            text.contains(verb.as_str()) && n.contains(index)
                && low.contains(if *known { "unsupported control verb" } else { "unknown control verb" })
        }
    }
}

#[cfg(not(kani))]
pub(crate) fn any_char<S: Src>(s: &mut S, structural: bool) -> char {
    let k = s.u8();
    let table: &[char] = if structural {
        &['(', ')', '|', '(', ')', '|', 'a', 'b', 'Z', '*', '1', ')', '(', 'k', '[', '\\', '.', '@', '{', '`', 'z', 'A']
    } else {
        &['a', 'B', '0', '*', '=', 'q', ' ', '_', '\n', '~', '\u{7f}', '\u{0}', '@', '[']
    };
    if k < 230 { return table[k as usize % table.len()]; }
    if k < 245 { return (s.u8() & 127) as char; }
    if k > 252 { return std::char::from_u32(s.u32()).unwrap_or('\u{feff}'); }
    ['\u{80}', 'é', '\u{ff}', '\u{100}', '\u{3042}', '\u{1f600}'][s.u8() as usize % 6]
}

#[cfg(not(kani))]
pub(crate) fn any_verb<S: Src>(s: &mut S) -> String {
    let names = ["UCP", "UTF8", "UTF", "NO_AUTO_POSSESS", "NO_START_OPT", "UTF16", "UTF32", "CR", "LF", "CRLF", "ANYCRLF",
        "ANY", "BSR_ANYCRLF", "BSR_UNICODE", "LIMIT_MATCH=", "LIMIT_RECURSION=", "LIMIT_MATCH", "LIMIT", "UT", "X", "", "utf8",
        "é", "(*UCP", " UCP", "UCP ", "UTF8|", "LIMIT_MATCH=12", "LIMIT_RECURSION=7", "XLIMIT_MATCH=", "LIMIT_MATCH=é"];
    let mut v = names[s.u8() as usize % names.len()].to_string();
    let k = s.u8();
    if k < 24 { v = (0..s.u8() % 32).map(|_| (s.u8() & 127) as char).collect(); }
    let k = k % 16;
    match k {
        0 => v.push(any_char(s, false)),
        1 => { v.pop(); }
        2 => v.push_str("42"),
        3 => v = v.to_ascii_lowercase(),
        4 => { v = v.to_ascii_lowercase(); if v.len() > 1 && v.is_char_boundary(1) { let t = v.split_off(1); v = v.to_ascii_uppercase() + &t; } }
        5 => v.insert(0, any_char(s, false)),
        6 => v = v.replace('_', if s.flag() { "" } else { "-" }),
        7 => { let t = names[s.u8() as usize % names.len()]; v.push_str(if s.flag() { "," } else { ")(*" }); v.push_str(t); }
        8 => { if !v.is_empty() && v.is_ascii() { let i = s.u8() as usize % v.len(); let b = (v.as_bytes()[i] ^ (1 << (s.u8() % 7))) as char; v.replace_range(i..i + 1, &b.to_string()); } }
        9 => { if !v.is_empty() && v.is_ascii() { let i = s.u8() as usize % v.len(); v.remove(i); } }
        _ => (),
    }
    v
}

/// Long, wide or deep patterns, with counts just around a power of two.
#[cfg(not(kani))]
fn big_pattern<S: Src>(s: &mut S, p: &mut String) {
    let n = s.size(9);
    let (unit, kind) = (["a", "()", "b|", "(c)", "|", "(", "((", "(a|", "Q"][s.u8() as usize % 9], s.u8() % 8);
    let n = if !unit.contains('(') && s.u8() % 8 == 0 { n + 4090 + s.u8() as usize % 12 } else { n };
    let mut open = 0;
    for _ in 0..n { p.push_str(unit); }
    open += unit.matches('(').count() as i32 - unit.matches(')').count() as i32;
    let open = open as usize * n;
    for _ in 0..s.u8() % 5 { let c = any_char(s, true); if (c as u32) < 128 && c != ')' && c != '(' { p.push(c); } }
    let closed = match kind { 0 => open + 1, 1 => open.saturating_sub(1), 2 => 0, _ => open };
    for i in 0..closed {
        p.push(')');
        if kind == 3 && i % 64 == 7 { p.push('k'); }
    }
    if kind == 4 { p.push('é'); }
    if kind == 5 { p.push_str("(x"); }
    for _ in 0..s.u8() % 3 { let c = any_char(s, true); p.push(c); }
}

/// A pattern: now and then with a control verb in front, mostly structural characters.
#[cfg(not(kani))]
pub(crate) fn any_pattern<S: Src>(s: &mut S) -> String {
    let mut p = String::new();
    let head = s.u8();
    if head % 5 == 0 {
        p.push_str(["(*", "(*", "(*", "(", "*", " (*"][s.u8() as usize % 6]);
        p.push_str(&any_verb(s));
        p.push_str([")", ")", ")", "", "))", " )"][s.u8() as usize % 6]);
    }
    let balance = head & 0x10 != 0;
    if head == 0x2b || head == 0xc7 { big_pattern(s, &mut p); return p; }
    let n = s.u8() as usize % if head & 0x60 == 0x60 { 48 } else { 9 };
    let mut depth = 0;
    for _ in 0..n {
        let c = any_char(s, head & 0x80 == 0 || balance);
        if balance && c == ')' && depth == 0 { p.push('|'); continue; }
        if balance && (c as u32) >= 128 { p.push('('); depth += 1; continue; }
        if c == '(' { depth += 1 }
        if c == ')' && depth > 0 { depth -= 1 }
        p.push(c);
    }
    if balance { for _ in 0..depth { p.push(')'); } }
    p
}
