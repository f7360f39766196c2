// What the proofs take from libraries, as executable contracts on the libraries themselves.

// Number and character functions: over the whole domain (Kani), and natively.
pub(crate) mod numbers {
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/common.inc"));
    /// `u64::count_ones`, `leading_zeros`, `trailing_zeros`.
    fn dep_words<S: Src>(s: &mut S) {
        let w = s.u64();
        let (mut n, mut k) = (0_u32, 0_u32);
        while k < 64 {
            n += (w >> k & 1) as u32;
            k += 1;
        }
        assert!(w.count_ones() == n, "count_ones: the number of set bits");
        let b = s.u8() as u32;
        s.assume(b < 64);
        let (t, l) = (w.trailing_zeros(), w.leading_zeros());
        assert!(t <= 64 && l <= 64 && (w == 0) == (t == 64) && (w == 0) == (l == 64), "zeros: 64 iff no bit is set");
        assert!(t == 64 || w >> t & 1 == 1, "trailing_zeros: leads to a set bit");
        assert!(l == 64 || w >> (63 - l) & 1 == 1, "leading_zeros: leads to a set bit");
        assert!(!(b < t || b + l >= 64) || w >> b & 1 == 0, "zeros: nothing before");
    }
    fn dep_ascii<S: Src>(s: &mut S) {
        let (c, d) = (s.u8(), s.u8());
        let (up, lo, dg) = (c >= 0x41 && c <= 0x5a, c >= 0x61 && c <= 0x7a, c >= 0x30 && c <= 0x39);
        let low = |c: u8| if c >= 0x41 && c <= 0x5a { c + 0x20 } else { c };
        assert!(c.is_ascii() == (c < 128) && c.is_ascii_uppercase() == up && c.is_ascii_lowercase() == lo, "u8: upper and lower case");
        assert!(c.is_ascii_alphabetic() == (up || lo) && c.is_ascii_digit() == dg && c.is_ascii_alphanumeric() == (up || lo || dg), "u8: letters and digits");
        assert!(c.to_ascii_uppercase() == (if lo { c - 0x20 } else { c }) && c.to_ascii_lowercase() == low(c), "u8: case");
        assert!(c.eq_ignore_ascii_case(&d) == (low(c) == low(d)), "u8: eq_ignore_ascii_case");
        assert!(c.is_power_of_two() == (c != 0 && c & (c - 1) == 0), "u8: is_power_of_two");
        let n = s.u32();
        s.assume(n < 0xd800 || (n > 0xdfff && n < 0x11_0000));
        let ch = std::char::from_u32(n).unwrap();
        let (up, lo, dg) = (n >= 0x41 && n <= 0x5a, n >= 0x61 && n <= 0x7a, n >= 0x30 && n <= 0x39);
        assert!(ch.is_ascii() == (n < 128) && ch.is_ascii_uppercase() == up && ch.is_ascii_lowercase() == lo, "char: upper and lower case");
        assert!(ch.is_ascii_alphabetic() == (up || lo) && ch.is_ascii_digit() == dg && ch.is_ascii_alphanumeric() == (up || lo || dg), "char: letters and digits");
        assert!(ch.to_ascii_uppercase() as u32 == (if lo { n - 0x20 } else { n }) && ch.to_ascii_lowercase() as u32 == (if up { n + 0x20 } else { n }), "char: case");
        let m = s.u32();
        s.assume(m < 0xd800 || (m > 0xdfff && m < 0x11_0000));
        let low = |n: u32| if n >= 0x41 && n <= 0x5a { n + 0x20 } else { n };
        assert!(ch.eq_ignore_ascii_case(&std::char::from_u32(m).unwrap()) == (low(n) == low(m)), "char: eq_ignore_ascii_case");
    }
    fn dep_orderings<S: Src>(s: &mut S) {
        use std::cmp::Ordering::*;
        let o = |k: u8| [Less, Equal, Greater][k as usize % 3];
        let (a, b) = (o(s.u8()), o(s.u8()));
        assert!(a.then(b) == (if a == Equal { b } else { a }) && a.then_with(|| b) == (if a == Equal { b } else { a }), "Ordering: then");
        assert!(a.reverse() == match a { Less => Greater, Greater => Less, Equal => Equal }, "Ordering: reverse");
        assert!(a.is_eq() == (a == Equal) && a.is_ne() == (a != Equal) && a.is_lt() == (a == Less) && a.is_gt() == (a == Greater) && a.is_le() == (a != Greater) && a.is_ge() == (a != Less), "Ordering: is_*");
        let (x, y) = (s.u32(), s.u32());
        assert!(std::cmp::max(x, y) == (if y < x { x } else { y }) && std::cmp::min(x, y) == (if y < x { y } else { x }), "min, max");
        assert!(x.abs_diff(y) == (if x < y { y - x } else { x - y }) && (x as u8).abs_diff(y as u8) == (if (x as u8) < y as u8 { y as u8 - x as u8 } else { x as u8 - y as u8 }), "abs_diff");
        let (p, q) = (if s.flag() { Some(x) } else { None }, if s.flag() { Some(y) } else { None });
        assert!(p.or(q) == (if p.is_some() { p } else { q }) && p.filter(|z| *z > 1) == (if p.is_some() && x > 1 { p } else { None }), "Option: or, filter");
        assert!(p.is_some_and(|z| z > 1) == (p.is_some() && x > 1), "Option: is_some_and");
        assert!(p.as_ref().copied() == p, "Option: copied");
        let r: Result<u32, u32> = p.ok_or(y);
        assert!(r.unwrap_or(7) == (if p.is_some() { x } else { 7 }), "Result: unwrap_or");
        assert!(r.and_then(|z| if z > 1 { Ok(z) } else { Err(1) }) == (if p.is_none() { Err(y) } else if x > 1 { Ok(x) } else { Err(1) }), "Result: and_then");
        let f = s.flag();
        assert!(f.then_some(x) == (if f { Some(x) } else { None }), "bool: then_some");
        let mut m = p;
        assert!(m.take() == p && m.is_none() && std::mem::replace(&mut m, q).is_none() && m == q, "take, replace");
        assert!(std::mem::take(&mut m) == q && m.is_none(), "mem: take");
    }
    contracts! { rescan_verif_deps_numbers; dep_words [65]; dep_ascii [10]; dep_orderings [4]; }
}

// Data structures, bounded: random histories against the obvious models.
#[cfg(not(kani))]
mod structures {
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/common.inc"));
    use std::collections::{BTreeMap, HashMap, HashSet};

    fn dep_bitvec<S: Src>(s: &mut S) {
        use bit_vec::BitVec;
        let mut v = BitVec::default();
        let mut m: Vec<bool> = vec![];
        let mut w: BitVec = BitVec::with_capacity(s.u8() as usize);
        let mut n: Vec<bool> = vec![];
        for _ in 0..s.size(80) {
            let b = s.u8() % 4 == 0;
            match s.u8() % 16 {
                0 => assert!(v.pop() == m.pop(), "BitVec: pop"),
                1 if !m.is_empty() => {
                    let i = s.u8() as usize % m.len();
                    v.set(i, b);
                    m[i] = b;
                }
                2 => { let k = s.u8() as usize; v.truncate(k); m.truncate(k); }
                3 if s.u8() % 4 == 0 => { v.clear(); for x in m.iter_mut() { *x = false; } }
                4 => { w.push(b); n.push(b); }
                _ => { v.push(b); m.push(b); if s.u8() % 8 != 0 { w.push(b); n.push(b); } }
            }
            assert!(v.len() == m.len() && v.is_empty() == m.is_empty(), "BitVec: len");
            assert!(v.any() == m.contains(&true) && v.none() != m.contains(&true) && v.all() != m.contains(&false), "BitVec: any, none, all");
            for i in 0..m.len() + 2 { assert!(v.get(i) == m.get(i).copied(), "BitVec: get"); }
            assert!((v == w) == (m == n) && (v != w) == (m != n), "BitVec: ==");
            assert!(v.cmp(&w) == m.cmp(&n), "BitVec: cmp");
        }
    }
    fn dep_maps<S: Src>(s: &mut S) {
        use std::collections::hash_map::Entry;
        let mut h: HashMap<u32, u64> = HashMap::new();
        let mut b: BTreeMap<u32, u64> = BTreeMap::new();
        let mut set: HashSet<u32> = HashSet::default();
        let mut m: Vec<(u32, u64)> = vec![];
        for _ in 0..s.size(60) {
            let (k, v) = (s.u8() as u32 % 24 * 0x0801_0001, s.u64());
            let at = m.iter().position(|e| e.0 == k);
            let old = at.map(|i| m[i].1);
            match s.u8() % 8 {
                0 => {
                    assert!(h.remove(&k) == old && b.remove(&k) == old && set.remove(&k) == old.is_some(), "maps: remove");
                    if let Some(i) = at { m.remove(i); }
                }
                1 | 2 => {
                    assert!(h.insert(k, v) == old && b.insert(k, v) == old && set.insert(k) != old.is_some(), "maps: insert");
                    match at { Some(i) => m[i].1 = v, None => m.push((k, v)) }
                }
                3 | 4 => {
                    match (h.entry(k), old) {
                        (Entry::Occupied(e), Some(o)) => assert!(*e.get() == o, "entry: the value"),
                        (Entry::Vacant(e), None) => { let r = e.insert(v); assert!(*r == v, "entry: inserts"); *r = v ^ 1; }
                        _ => panic!("entry: occupied iff present"),
                    }
                    let r = b.entry(k).or_insert(v);
                    assert!(*r == old.unwrap_or(v), "or_insert: the old value or the new one");
                    if old.is_none() { *r = v ^ 1; m.push((k, v ^ 1)); set.insert(k); }
                }
                5 => {
                    let (x, y) = (h.get_mut(&k), b.get_mut(&k));
                    assert!(x.as_ref().map(|x| **x) == old && y.as_ref().map(|y| **y) == old, "get_mut: the value");
                    if let (Some(x), Some(y), Some(i)) = (x, y, at) { *x = v; *y = v; m[i].1 = v; }
                }
                6 if s.u8() % 8 == 0 => { h.clear(); b.clear(); set.clear(); m.clear(); }
                _ => {
                    let o: HashSet<u32> = (0..s.u8() as u32 % 4).map(|i| (k / 0x0801_0001 + i) * 0x0801_0001).collect();
                    for x in o.iter() { if !m.iter().any(|e| e.0 == *x) { m.push((*x, 7)); h.insert(*x, 7); b.insert(*x, 7); } }
                    set.extend(&o);
                }
            }
            assert!(h.len() == m.len() && b.len() == m.len() && set.len() == m.len(), "maps: len");
            assert!(h.is_empty() == m.is_empty() && b.is_empty() == m.is_empty() && set.is_empty() == m.is_empty(), "maps: is_empty");
            for k in 0..28_u32 {
                let k = k * 0x0801_0001;
                let want = m.iter().find(|e| e.0 == k).map(|e| e.1);
                assert!(h.get(&k).copied() == want && b.get(&k).copied() == want, "maps: get");
                assert!(h.contains_key(&k) == want.is_some() && b.contains_key(&k) == want.is_some() && set.contains(&k) == want.is_some(), "maps: contains");
            }
        }
    }
    fn dep_graph<S: Src>(s: &mut S) {
        use petgraph::{graph::NodeIndex, Direction, Graph};
        let mut g: Graph<u32, ()> = if s.flag() { Graph::default() } else { Graph::new() };
        let (mut n, mut e): (Vec<u32>, Vec<(usize, usize)>) = (vec![], vec![]);
        for _ in 0..s.size(40) {
            let x = s.u32();
            if n.is_empty() || s.u8() % 3 == 0 {
                assert!(g.add_node(x).index() == n.len(), "Graph: nodes are numbered in order");
                n.push(x);
            } else {
                let (a, b) = (s.u8() as usize % n.len(), s.u8() as usize % n.len());
                match s.u8() % 4 {
                    0 => { g[NodeIndex::new(a)] = x; n[a] = x; }
                    1 => { *g.node_weight_mut(NodeIndex::new(a)).unwrap() = x; n[a] = x; }
                    _ => { g.add_edge(NodeIndex::new(a), NodeIndex::new(b), ()); e.push((a, b)); }
                }
            }
            assert!(g.node_count() == n.len() && g.edge_count() == e.len(), "Graph: counts");
            assert!(g.node_indices().map(|i| i.index()).eq(0..n.len()), "Graph: node_indices");
            assert!(g.node_weight(NodeIndex::new(n.len())).is_none() && g.node_weight_mut(NodeIndex::end()).is_none(), "Graph: no other nodes");
            for a in 0..n.len() {
                let i = NodeIndex::new(a);
                assert!(g[i] == n[a] && g.node_weight(i) == Some(&n[a]), "Graph: weights");
                for b in 0..n.len() { assert!(g.find_edge(i, NodeIndex::new(b)).is_some() == e.contains(&(a, b)), "Graph: find_edge"); }
                let mut got: Vec<usize> = g.neighbors_directed(i, Direction::Outgoing).map(|x| x.index()).collect();
                let mut want: Vec<usize> = e.iter().filter(|x| x.0 == a).map(|x| x.1).collect();
                got.sort();
                want.sort();
                assert!(got == want, "Graph: successors");
                let mut got: Vec<usize> = g.neighbors_directed(i, Direction::Incoming).map(|x| x.index()).collect();
                let mut want: Vec<usize> = e.iter().filter(|x| x.1 == a).map(|x| x.0).collect();
                got.sort();
                want.sort();
                assert!(got == want, "Graph: predecessors");
            }
        }
    }
    fn any_text<S: Src>(s: &mut S) -> String {
        (0..s.u8() % 9).map(|_| match s.u8() % 12 { 0 => std::char::from_u32(s.u16() as u32).unwrap_or('\u{1f600}'), k => ['(', '*', ')', 'a', 'A', '\0', '\u{e9}', '\u{20ac}', '\u{1f600}', ')', '*'][k as usize - 1] }).collect()
    }
    fn dep_text<S: Src>(s: &mut S) {
        use nom::{bytes::complete::{is_not, tag, take}, character::complete::char, sequence::delimited, IResult};
        let x = any_text(s);
        let v: Vec<char> = x.chars().collect();
        fn owned(r: IResult<&str, &str>) -> Option<(String, String)> { r.ok().map(|r| (r.0.to_string(), r.1.to_string())) }
        let rest = |k: usize| v[k..].iter().collect::<String>();
        let c = match s.u8() % 4 { 0 => ')', 1 => '(', 2 => '*', _ => v.get(0).copied().unwrap_or('a') };
        let r: IResult<&str, char> = char(c)(&x);
        assert!(r.ok().map(|r| (r.0.to_string(), r.1)) == if v.first() == Some(&c) { Some((rest(1), c)) } else { None }, "nom::char");
        let t = if s.flag() { "(*".to_string() } else { v.iter().take(s.u8() as usize % 4).collect() };
        let r: IResult<&str, &str> = tag(&t[..])(&x);
        let tv: Vec<char> = t.chars().collect();
        assert!(owned(r) == if v.starts_with(&tv) { Some((rest(tv.len()), t.clone())) } else { None }, "nom::tag");
        let k = s.u8() as usize % 5;
        let r: IResult<&str, &str> = take(k)(&x[..]);
        assert!(owned(r) == if k <= v.len() { Some((rest(k), v[..k].iter().collect())) } else { None }, "nom::take");
        let u = if s.flag() { ")".to_string() } else { any_text(s) };
        if !u.is_empty() {
            let n = v.iter().position(|c| u.contains(*c)).unwrap_or(v.len());
            let r: IResult<&str, &str> = is_not(&u[..])(&x);
            let got = if n > 0 { Some((rest(n), v[..n].iter().collect::<String>())) } else { None };
            assert!(owned(r) == got, "nom::is_not");
            let r: IResult<&str, &str> = delimited(tag(&t[..]), is_not(&u[..]), char(c))(&x);
            let want = if !v.starts_with(&tv) { None } else {
                let w = &v[tv.len()..];
                let n = w.iter().position(|c| u.contains(*c)).unwrap_or(w.len());
                if n > 0 && w.get(n) == Some(&c) { Some((w[n + 1..].iter().collect::<String>(), w[..n].iter().collect::<String>())) } else { None }
            };
            assert!(owned(r) == want, "nom::delimited");
        }
        // The text itself.
        assert!(x.len() == v.iter().map(|c| c.len_utf8()).sum::<usize>() && x.is_empty() == v.is_empty(), "str: len, is_empty");
        assert!(x.starts_with(&t[..]) == v.starts_with(&tv) && x.ends_with(&t[..]) == v.ends_with(&tv), "str: starts_with, ends_with");
        assert!(x.is_ascii() == v.iter().all(|c| (*c as u32) < 128), "str: is_ascii");
        let mut it = x.chars();
        for c in &v { assert!(it.next() == Some(*c), "str: chars"); }
        assert!(it.next().is_none(), "str: chars end");
        assert!(x.eq_ignore_ascii_case(&t) == (v.len() == tv.len() && (0..v.len()).all(|i| v[i].to_ascii_lowercase() == tv[i].to_ascii_lowercase())), "str: eq_ignore_ascii_case");
        assert!(format!("{} at {}.", x, 7) == x.clone() + " at " + "7" + ".", "format: the pieces in order");
    }
    fn dep_order<S: Src>(s: &mut S) {
        use std::cmp::Ordering::*;
        let (x, y) = (s.u8() as usize % 4, s.u8() as usize % 4);
        let (v, w): (Vec<u8>, Vec<u8>) = ((0..x).map(|_| s.u8() % 3).collect(), (0..y).map(|_| s.u8() % 3).collect());
        let n = x.min(y);
        let d = (0..n).find(|i| v[*i] != w[*i]);
        let want = match d { Some(i) => if v[i] < w[i] { Less } else { Greater }, None => if x < y { Less } else if x > y { Greater } else { Equal } };
        assert!(v.cmp(&w) == want && (v == w) == (want == Equal), "Vec: order and equality");
    }
    contracts! { rescan_verif_deps; dep_bitvec [1]; dep_maps [1]; dep_graph [1]; dep_text [1]; dep_order [1]; }
}
