#[cfg(not(kani))]
#[allow(clippy::all, clippy::pedantic, dead_code)]
mod verif {
    // Not through the imports of the module, which may change.
    use super::*;
    use crate::parser::{component::*, component_alternation::*, component_sequence::*, component_class::*, const_component_visitor::*, control_verbs::read_control_verbs, parser_util::ParseMode};
    use crate::parser::ascii_component_class::AsciiComponentClass;
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/common.inc"));
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/spec.inc"));

    /// Rebuilds the tree from the visitor events, checking that they nest and that `during` comes between children.
    struct Walk { stack: Vec<(u8, Option<u32>, Vec<Tree>)>, between: std::cell::RefCell<Vec<usize>> }
    impl ConstComponentVisitor for Walk {
        type Error = ();
        fn pre_ascii_component_class(&mut self, c: &AsciiComponentClass) -> Result<(), ()> {
            let b: Vec<u8> = (0..=255).filter(|x| c.cr.test(*x)).collect();
            self.stack.last_mut().expect("walk: class outside of a sequence").2.push(Tree::Class(b));
            Ok(())
        }
        fn pre_component_alternation(&mut self, _: &ComponentAlternation) -> Result<(), ()> {
            self.stack.push((1, None, vec![]));
            self.between.borrow_mut().push(0);
            Ok(())
        }
        fn pre_component_sequence(&mut self, c: &ComponentSequence) -> Result<(), ()> {
            self.stack.push((0, c.capture_index, vec![]));
            self.between.borrow_mut().push(0);
            Ok(())
        }
        fn during_ascii_component_class(&self, _: &AsciiComponentClass) {}
        fn during_component_alternation(&self, _: &ComponentAlternation) { *self.between.borrow_mut().last_mut().unwrap() += 1; }
        fn during_component_sequence(&self, _: &ComponentSequence) { *self.between.borrow_mut().last_mut().unwrap() += 1; }
        fn post_ascii_component_class(&mut self, _: &AsciiComponentClass) {}
        fn post_component_alternation(&mut self, _: &ComponentAlternation) { self.close(1) }
        fn post_component_sequence(&mut self, _: &ComponentSequence) { self.close(0) }
    }
    impl Walk {
        fn close(&mut self, kind: u8) {
            let (k, idx, items) = self.stack.pop().unwrap();
            let n = self.between.borrow_mut().pop().unwrap();
            assert!(k == kind, "walk: events nest");
            assert!(n + 1 == items.len().max(1), "walk: one `during` between two children");
            let t = if kind == 0 { Tree::Seq(idx, items) } else { Tree::Alt(items) };
            self.stack.last_mut().unwrap().2.push(t);
        }
    }
    fn tree_of(c: &Component) -> Tree {
        let mut w = Walk { stack: vec![(9, None, vec![])], between: std::cell::RefCell::new(vec![0]) };
        walk_component(&mut w, c).expect("walk: no error");
        assert!(w.stack.len() == 1 && w.stack[0].2.len() == 1, "walk: one root");
        w.stack.pop().unwrap().2.pop().unwrap()
    }

    fn any_mode<S: Src>(s: &mut S) -> ParseMode {
        let b = s.u8();
        ParseMode { caseless: b & 1 != 0, dotall: b & 2 != 0, ignore_space: false, multiline: b & 4 != 0, ucp: b & 8 != 0, utf8: b & 16 != 0 }
    }
    fn same_mode(a: &ParseMode, b: &ParseMode) -> bool {
        a.caseless == b.caseless && a.dotall == b.dotall && a.ignore_space == b.ignore_space && a.multiline == b.multiline
            && a.ucp == b.ucp && a.utf8 == b.utf8
    }

    // C10
    fn parse_accepts<S: Src>(s: &mut S) {
        let mut mode = any_mode(s);
        let p = any_pattern(s);
        let want = spec_parse(&p, mode.caseless);
        let got = parse(&p, &mut mode);
        match (&want, &got) {
            (Ok(_), Ok(_)) => (),
            (Err(r), Err(e)) => assert!(says(&e.to_string(), r), "parse: the error names {:?} for {:?}, not {:?}", r, p, e.to_string()),
            _ => panic!("parse: accepted iff well formed: {:?} gives {:?}, not {:?}", p, got.map(|_| "a tree").map_err(|e| e.to_string()), want),
        }
    }
    // C11
    fn parse_tree<S: Src>(s: &mut S) {
        let mut mode = any_mode(s);
        let p = any_pattern(s);
        if let (Ok((t, _, _)), Ok(c)) = (spec_parse(&p, mode.caseless), parse(&p, &mut mode)) {
            let got = tree_of(&c);
            assert!(got == t, "parse: the tree of {:?} (caseless {}) is {:?}, not {:?}", p, mode.caseless, t, got);
        }
    }
    fn literal_class<S: Src>(s: &mut S) {
        let (b, nocase) = (s.u8(), s.flag());
        let c = get_literal_component_class(b as char, nocase).ok().expect("get_literal_component_class: a byte is accepted");
        let want = if nocase && ascii_letter(b) { vec![b & !32, b | 32] } else { vec![b] };
        assert!(tree_of(&c.into()) == Tree::Class(want), "get_literal_component_class: the byte, or both its cases");
        let wide = (256 + s.u16() as u32 * 17) as u32;
        if let Some(ch) = std::char::from_u32(wide) {
            assert!(get_literal_component_class(ch, nocase).is_err(), "get_literal_component_class: a wider character is refused");
        }
    }
    // C12
    fn control_verbs<S: Src>(s: &mut S) {
        let mode = any_mode(s);
        let start = s.u16() as usize;
        let p = if s.flag() { any_pattern(s) } else { format!("(*{}){}", any_verb(s), any_pattern(s)) };
        let mut m = mode;
        let got = read_control_verbs(&p, start, &mut m);
        match (spec_control(&p, start), got) {
            (Ok((ucp, utf8, at)), Ok(rest)) => {
                assert!(rest == &p[at..], "control verb: parsing of {:?} resumes at {}, not before {:?}", p, at, rest);
                let want = ParseMode { ucp: mode.ucp || ucp, utf8: mode.utf8 || utf8, ..mode };
                assert!(same_mode(&m, &want), "control verb: mode after {:?}", p);
            }
            (Err(r), Err(e)) => {
                assert!(says(&e.to_string(), &r), "control verb: the error of {:?} is {:?}, not {:?}", p, r, e.to_string());
                assert!(same_mode(&m, &mode), "control verb: mode unchanged by an error");
            }
            (want, got) => panic!("control verb: {:?} gives {:?}, not {:?}", p, got.map_err(|e| e.to_string()), want),
        }
    }
    fn verb_through_parse<S: Src>(s: &mut S) {
        let mode = any_mode(s);
        let p = any_pattern(s);
        let mut m = mode;
        if let (Ok((_, ucp, utf8)), Ok(_)) = (spec_parse(&p, mode.caseless), parse(&p, &mut m)) {
            assert!(same_mode(&m, &ParseMode { ucp: mode.ucp || ucp, utf8: mode.utf8 || utf8, ..mode }), "parse: mode after {:?}", p);
        }
    }

    contracts! { rescan_verif_parser; parse_accepts [1]; parse_tree [1]; literal_class [1]; control_verbs [1]; verb_through_parse [1]; }
}
