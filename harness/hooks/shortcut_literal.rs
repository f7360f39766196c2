#[cfg(not(kani))]
#[allow(clippy::all, clippy::pedantic, dead_code)]
mod verif {
    // Not through the imports of the module, which may change.
    use super::*;
    use crate::parser::{walk_component, ComponentSequence};
    use crate::util::Ue2Literal;
    use crate::parser::component_class::get_component_class;
    use crate::parser::{Component, ComponentClass, ParseMode};
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/common.inc"));
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/spec.inc"));

    fn class(bytes: &[u8]) -> Component {
        let ComponentClass::Ascii(mut c) = get_component_class(ParseMode::default());
        for b in bytes { c.cr.set(*b); }
        ComponentClass::Ascii(c).into()
    }
    fn any_tree<S: Src>(s: &mut S, depth: usize) -> (Component, Tree) {
        let k = s.u8() % if depth == 0 { 6 } else { 10 };
        if k < 6 {
            let b = s.u8();
            let u = 65 + s.u8() % 26;
            let mut v = match k {
                0 | 1 => vec![b],
                2 | 3 => vec![u, u + 32],
                4 => { let c = s.u8(); vec![b, c] }
                _ => match s.u8() % 8 { 0 => vec![], 1 => vec![u, u + 32, b], 2 => vec![64, 96], 3 => vec![91, 123], 4 => (0..=255).collect(), 5 => vec![u, u ^ 1], 6 => vec![u, b & 31], _ => vec![u + 32] },
            };
            v.sort();
            v.dedup();
            (class(&v), Tree::Class(v))
        } else {
            let mut c = ComponentSequence::default();
            let (mut items, mut branches) = (vec![], vec![]);
            let width = if depth == 4 && s.u8() == 77 { s.size(4) + 4094 } else if depth == 4 { s.size(4) } else { s.u8() as usize % 4 };
            for _ in 0..width {
                if s.u8() % 16 == 0 {
                    c.add_alternation();
                    branches.push(Tree::Seq(None, std::mem::replace(&mut items, vec![])));
                }
                let (x, t) = any_tree(s, depth - 1);
                c.add_component(x);
                items.push(t);
            }
            c.finalize();
            if branches.is_empty() { (c.into(), Tree::Seq(None, items)) }
            else { branches.push(Tree::Seq(None, items)); (c.into(), Tree::Seq(None, vec![Tree::Alt(branches)])) }
        }
    }
    /// A long literal, maybe with something else near its end.
    fn long_tree<S: Src>(s: &mut S) -> (Component, Tree) {
        let n = if s.u8() % 4 == 0 { s.size(100) } else { s.u8() as usize + s.u8() as usize };
        let (odd, kind, what) = (s.u8() as usize, s.u8() % 4, s.u8() % 8);
        let mut c = ComponentSequence::default();
        let mut items = vec![];
        for i in 0..n {
            let (x, t) = if n - 1 - i == odd {
                let v = match what { 0 => vec![], 1 => vec![97, 98], 2 => (0..=255).collect(), 3 => vec![65, 97, 98], _ => vec![64 + what, 96 + what] };
                if what == 7 { any_tree(s, 2) } else { (class(&v), Tree::Class(v)) }
            } else {
                let b = s.u8();
                let u = 65 + b % 26;
                let v = match (kind, b & 0x80) { (0, _) | (2, 0) => vec![b], (3, _) => vec![97 + b % 26], _ => vec![u, u + 32] };
                (class(&v), Tree::Class(v))
            };
            c.add_component(x);
            items.push(t);
        }
        c.finalize();
        (c.into(), Tree::Seq(None, items))
    }
    // C13
    fn literal_of_tree<S: Src>(s: &mut S) {
        let (c, t) = if s.u8() % 32 == 5 { long_tree(s) } else { any_tree(s, 4) };
        let mut vis = ConstructLiteralVisitor::default();
        let ok = walk_component(&mut vis, &c).is_ok();
        let want = spec_literal(&t);
        assert!(ok == want.is_some(), "literal shortcut: a plain string iff {:?} is one: {}", t, ok);
        if let Some(w) = want {
            let mut exp = Ue2Literal::default();
            for (b, nc) in &w { exp.push(*b, *nc); }
            let bytes: Vec<u8> = vis.lit.iter().map(|e| e.c).collect();
            assert!(bytes == w.iter().map(|e| e.0).collect::<Vec<u8>>(), "literal shortcut: the bytes of {:?} in order: {:?}", t, bytes);
            assert!(vis.lit == exp, "literal shortcut: the case flags of {:?}", t);
        }
    }
    contracts! { rescan_verif_shortcut_literal; literal_of_tree [1]; }
}
