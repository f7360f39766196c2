//! The spec files: contracts kept beside the code, matched to functions by name.

#[derive(Default, Clone)]
pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub verify: bool,
    pub attrs: Vec<String>,
    pub spec: String,
    pub loops: Vec<(String, String, String)>, // key, mode, invariant text
    pub at: Vec<(String, String)>,            // place, text
    pub edits: Vec<(String, String, bool)>,
    pub closures: Vec<(usize, String)>,
    pub assignop: Vec<String>,
    pub rename: Option<String>,
    /// Type parameters and their bounds are dropped: one instance, whose type the unit names.
    pub mono: bool,
}

pub enum Item {
    Raw(String),
    Type { file: String, name: String, derives: Vec<String>, edits: Vec<(String, String, bool)>, default: Option<String> },
    Fn(FnSpec),
    /// A type made by the macro bitflags!.
    Flags { file: String, name: String },
    /// The file has to import this path (what a shim of the same name stands for).
    Use { file: String, path: String },
    /// A function the source does not define, which a shim supplies.
    Absent { file: String, path: String },
    End,
}
impl Item {
    pub fn file(&self) -> Option<&str> {
        match self {
            Item::Type { file, .. } => Some(file),
            Item::Fn(f) => Some(&f.file),
            Item::Flags { file, .. } | Item::Use { file, .. } | Item::Absent { file, .. } => Some(file),
            _ => None,
        }
    }
}

#[derive(Default)]
pub struct Unit {
    pub items: Vec<Item>,
    /// Expressions (as text) whose indexing goes through `index`/`index_mut`.
    pub graphs: Vec<String>,
    /// Methods that change their receiver (decides between `index` and `index_mut`).
    pub mutating: Vec<String>,
    /// Replacements applied in every function: (text, replacement), optional.
    pub global: Vec<(String, String)>,
    /// The type that stands for `str` behind a reference.
    pub strtype: Option<String>,
    /// Broadcast lemmas in scope everywhere (a module has one `broadcast use`).
    pub broadcast: Vec<String>,
}

pub fn load(path: &str) -> Unit {
    let mut u = Unit::default();
    let mut lines: Vec<String> = vec![];
    read(path, &mut lines);
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].trim().to_string();
        i += 1;
        let (d, rest) = match l.find(char::is_whitespace) { Some(k) => (l[..k].to_string(), l[k..].trim().to_string()), None => (l.clone(), String::new()) };
        match d.as_str() {
            "" => {}
            _ if d.starts_with('#') => {}
            "@raw" => {
                let mut t = String::new();
                while lines[i].trim() != "@end" { t.push_str(&lines[i]); t.push('\n'); i += 1; }
                i += 1;
                u.items.push(Item::Raw(t));
            }
            "@graph" => u.graphs.extend(rest.split_whitespace().map(|s| s.to_string())),
            "@mutating" => u.mutating.extend(rest.split_whitespace().map(|s| s.to_string())),
            "@global" => {
                let (o, n) = rest.split_once("==>").expect("@global o ==> n");
                u.global.push((o.trim().into(), n.trim().into()));
            }
            "@flags" => {
                let (file, name) = rest.split_once(' ').expect("@flags FILE NAME");
                u.items.push(Item::Flags { file: file.into(), name: name.trim().into() });
            }
            "@use" => {
                let (file, path) = rest.split_once(' ').expect("@use FILE PATH");
                u.items.push(Item::Use { file: file.into(), path: path.trim().into() });
            }
            "@absent" => {
                let (file, path) = rest.split_once(' ').expect("@absent FILE PATH");
                u.items.push(Item::Absent { file: file.into(), path: path.trim().into() });
            }
            "@broadcast" => u.broadcast.push(rest),
            "@strtype" => u.strtype = Some(rest),
            "@helpers" => u.items.push(Item::End),
            "@type" => {
                let mut w = rest.split_whitespace();
                let (file, name) = (w.next().unwrap().to_string(), w.next().unwrap().to_string());
                let derives = w.map(|s| s.to_string()).collect();
                let (mut edits, mut default) = (vec![], None);
                loop {
                    let l = lines[i].trim().to_string();
                    i += 1;
                    if l == "@end" { break; }
                    if let Some(r) = l.strip_prefix("@edit") { edits.push(edit(r)); }
                    else if let Some(r) = l.strip_prefix("@default") { default = Some(r.trim().to_string()); }
                    else if default.is_some() { let t = default.as_mut().unwrap(); t.push('\n'); t.push_str(&l); }
                    else if !l.is_empty() { panic!("{}: {}", path, l); }
                }
                u.items.push(Item::Type { file, name, derives, edits, default });
            }
            "@fn" | "@assume" => {
                let mut w = rest.split_whitespace();
                let mut f = FnSpec { file: w.next().unwrap().to_string(), path: w.next().unwrap().to_string(), verify: d == "@fn", ..FnSpec::default() };
                if w.next() == Some("from") {
                    // The contract as stated (and proved) in another unit.
                    let other = std::path::Path::new(path).parent().unwrap().join(w.next().unwrap());
                    let o = load(other.to_str().unwrap());
                    let g = o.items.into_iter().find_map(|x| match x { Item::Fn(g) if g.path == f.path && g.verify => Some(g), _ => None });
                    let g = g.unwrap_or_else(|| panic!("{}: no contract of {} in {}", path, f.path, other.display()));
                    f = FnSpec { verify: false, loops: vec![], at: vec![], closures: vec![], edits: g.edits.into_iter().filter(|e| e.0.starts_with("sig:")).collect(), ..g };
                }
                // What the running text belongs to.
                let mut cur: Option<(u8, usize)> = Some((0, 0));
                loop {
                    let raw = lines[i].clone();
                    let l = raw.trim().to_string();
                    i += 1;
                    if l == "@end" { break; }
                    if let Some(r) = l.strip_prefix("@loop ") {
                        let mut w = r.split_whitespace();
                        f.loops.push((w.next().unwrap().into(), w.next().unwrap_or("").into(), String::new()));
                        cur = Some((1, f.loops.len() - 1));
                    } else if let Some(r) = l.strip_prefix("@at ") {
                        f.at.push((r.trim().into(), String::new()));
                        cur = Some((2, f.at.len() - 1));
                    } else if let Some(r) = l.strip_prefix("@edit") { f.edits.push(edit(r)); cur = None; }
                    else if let Some(r) = l.strip_prefix("@closure ") {
                        let mut w = r.split_whitespace();
                        f.closures.push((w.next().unwrap().parse().unwrap(), w.next().unwrap().into()));
                        cur = None;
                    } else if let Some(r) = l.strip_prefix("@attr ") { f.attrs.push(r.into()); cur = None; }
                    else if l == "@mono" { f.mono = true; cur = None; }
                    else if let Some(r) = l.strip_prefix("@rename ") { f.rename = Some(r.into()); cur = None; }
                    else if let Some(r) = l.strip_prefix("@assignop") { f.assignop.extend(r.split_whitespace().map(|s| s.to_string())); if r.trim().is_empty() { f.assignop.push("*".into()); } cur = None; }
                    else if l.starts_with('@') { panic!("{}: {}", path, l); }
                    else {
                        let t = match cur { Some((0, _)) => &mut f.spec, Some((1, k)) => &mut f.loops[k].2, Some((2, k)) => &mut f.at[k].1, _ => { assert!(l.is_empty(), "{}: {}", path, l); continue; } };
                        t.push_str(&raw);
                        t.push('\n');
                    }
                }
                u.items.push(Item::Fn(f));
            }
            _ => panic!("{}: {}", path, l),
        }
    }
    u
}

fn edit(r: &str) -> (String, String, bool) {
    let (many, r) = match r.trim_start().strip_prefix('*') { Some(x) => (true, x), None => (false, r) };
    let (o, n) = r.split_once("==>").unwrap_or_else(|| panic!("@edit {}", r));
    (o.trim().into(), n.trim().into(), many)
}

fn read(path: &str, out: &mut Vec<String>) {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    for l in t.lines() {
        if let Some(r) = l.trim().strip_prefix("@include ") {
            let d = std::path::Path::new(path).parent().unwrap().join(r.trim());
            read(d.to_str().unwrap(), out);
        } else {
            out.push(l.to_string());
        }
    }
}
