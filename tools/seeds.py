"""Planted changes: each breaks one property, compiles and passes the repository's tests."""
G = "cfg-grammar/src/cfg.rs"
SRC = "cfg-symbol/src/source.rs"
BITS = "cfg-grammar/src/symbol_bit_set.rs"
SEQ = "cfg-sequence/src/rewrite.rs"
PREC = "cfg-grammar/src/precedenced_rule.rs"
CYC = "cfg-classify/src/cyclical.rs"
USE = "cfg-classify/src/useful.rs"
REMAP = "cfg-symbol-bit-matrix/src/remap_symbols.rs"
MAT = "cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs"
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


seed("S01a", "C01", [(SRC, "        self.names.truncate(new_len);\n", "")],
     "truncation followed by handing out a new named symbol",
     "names of dropped symbols stay in the list, so later symbols get their names",
     '''
    let mut s: SymbolSource = SymbolSource::new();
    for name in ["a", "b", "c"] { s.next_sym(Some(name.into())); }
    s.truncate(1);
    let d = s.next_sym(Some("d".into()));
    assert_eq!(d.usize(), 1);
    assert_eq!(&*s.name_of(d), "d");
''')
seed("S01b", "C01", [(SRC, "        Some(self.source.next_sym(None))\n",
                      "        let ret = self.source.next_symbol;\n        advance(&mut self.source.next_symbol);\n        Some(ret)\n")],
     "symbols taken from the generating iterator, then a named symbol",
     "the name list no longer lines up with the symbols handed out by the iterator",
     '''
    let mut s: SymbolSource = SymbolSource::new();
    let _: Vec<Symbol> = s.generate().take(3).collect();
    let d = s.next_sym(Some("d".into()));
    assert_eq!(d.usize(), 3);
    assert_eq!(s.original_name_of(d), Some("d"));
    assert_eq!(s.names().len(), s.num_syms());
''')
seed("S02b", "C02", [(G, "        self.rules.dedup_by_key(|rule| (rule.lhs, rule.rhs.clone()));\n",
                      "        self.rules.dedup_by(|a, b| {\n            a.lhs == b.lhs && a.rhs.iter().zip(b.rhs.iter()).all(|(x, y)| x == y)\n        });\n")],
     "adjacent rules with one left-hand side of which one right-hand side is a prefix of the other",
     "removing duplicates removes rules that are no duplicates",
     '''
    let (mut a, _) = gr(4, &[(0, &[1, 2]), (0, &[1, 2, 3]), (0, &[1, 2, 3])]);
    a.dedup();
    assert_eq!(dump(&a), vec![(0, vec![1, 2]), (0, vec![1, 2, 3])]);
''')
seed("S02c", "C02", [(G, "        self.rules.retain(|rule| !rule.rhs.is_empty());\n\n        let mut productive",
                      "        self.rules.retain(|rule| !rule.rhs.is_empty());\n        self.eliminate_nulling = true;\n\n        let mut productive")],
     "a rule with an empty right-hand side added after nulling elimination",
     "the added rule silently disappears",
     '''
    let (mut a, s) = gr(3, &[(0, &[1, 2]), (1, &[])]);
    a.binarize_and_eliminate_nulling_rules();
    let before = a.rules().count();
    a.rule(s[1]).rhs([]);
    assert_eq!(a.rules().count(), before + 1);
''')
seed("S03b", "C03", [(G, "            if rhs_rev.is_empty() {\n                lhs = rule.lhs;",
                      "            if rhs_rev.is_empty() || rhs_rev.len() == 1 && rhs_rev[0] == rule.lhs {\n                rhs_rev.clear();\n                lhs = rule.lhs;")],
     "a rule too long for the limit, ending in its own left-hand side, with the last piece holding just that symbol",
     "the recursion at the right end of a split rule is lost",
     '''
    let (mut a, _) = gr(4, &[(0, &[1, 2, 0]), (0, &[3])]);
    let before = lang(&a, 0, 7);
    a.limit_rhs_len(Some(2));
    assert_eq!(before, lang(&a, 0, 7));
''')
seed("S04a", "C04", [(G, "                    if num == 2 {\n", "                    if num == 2 && !rule.rhs.contains(&rule.lhs) {\n")],
     "a rule of two nullable symbols of which one is its left-hand side, the other deriving a non-empty string",
     "nulling elimination loses non-empty strings",
     '''
    let (mut a, _) = gr(3, &[(0, &[0, 1]), (0, &[]), (1, &[2]), (1, &[])]);
    let mut before = lang(&a, 0, 3);
    before.remove(&vec![]);
    a.binarize_and_eliminate_nulling_rules();
    assert_eq!(before, lang(&a, 0, 3));
''')
seed("S05a", "C05", [(G, "        self.limit_rhs_len(Some(2));\n\n        let mut result = Cfg::with_sym_source(self.sym_source.clone());\n",
                      "        let mut result = Cfg::with_sym_source(self.sym_source.clone());\n        self.limit_rhs_len(Some(2));\n\n")],
     "a nullable rule of three or more symbols, split on the way",
     "the nulling grammar mentions helper symbols it does not know about",
     '''
    let (mut a, s) = gr(4, &[(0, &[1, 2, 3]), (1, &[]), (2, &[]), (3, &[])]);
    let nulling = a.binarize_and_eliminate_nulling_rules();
    assert_eq!(nulling.num_syms(), a.num_syms());
    let mut set = nulling.nulling_symbols();
    nulling.rhs_closure_for_all(&mut set);
    assert!(set[s[0]]);
''')
seed("S05b", "C05", [(G, "                    result\n                        .rule(rule.lhs)",
                      "                    if num == 2 && rule.rhs[0] == rule.lhs {\n                        continue;\n                    }\n                    result\n                        .rule(rule.lhs)"),
                     (G, "        self.rhs_closure_for_all(&mut nullable);\n        if nullable",
                      "        self.rhs_closure_for_all(&mut nullable);\n        for rule in self.rules() {\n            // A symbol with only nullable rules is nullable.\n            if rule.rhs.len() == 1 && rule.rhs[0] == rule.lhs {\n                nullable.set(rule.lhs, true);\n            }\n        }\n        if nullable")],
     "a rule whose two sides are the same single symbol",
     "symbols that do not derive the empty string are treated as nullable and get rules in the nulling grammar, losing strings of the language",
     '''
    let (mut a, s) = gr(4, &[(0, &[1, 2]), (1, &[1]), (1, &[3]), (2, &[]), (2, &[3])]);
    let mut before = lang(&a, 0, 3);
    before.remove(&vec![]);
    let nulling = a.binarize_and_eliminate_nulling_rules();
    assert!(nulling.rules().all(|r| r.lhs != s[1]));
    assert_eq!(before, lang(&a, 0, 3));
''')
seed("S06a", "C06", [("cfg-history/src/earley/mod.rs", "            origin,\n            dots,\n            ..self.clone()\n", "            origin,\n            dots,\n            ..History::default()\n")],
     "a weighted rule longer than two symbols, binarized",
     "the weight of the rule is lost when it is split",
     '''
    let (mut a, s) = gr(5, &[]);
    let h = History { weight: Some(2500), ..History::new(7) };
    a.rule(s[0]).history(h).rhs([s[1], s[2], s[3], s[4]]);
    a.limit_rhs_len(Some(2));
    let top = a.rules().find(|r| r.lhs == s[0]).unwrap();
    assert_eq!(top.history.origin().id, 7);
    assert_eq!(top.history.weight, Some(2500));
''')
seed("S06b", "C06", [("cfg-history/src/earley/mod.rs", "Some((weight * 1000f64) as u32)", "Some(weight as u32 * 1000)")],
     "a weight with a fractional part",
     "the fraction of a weight is lost",
     '''
    let (mut a, s) = gr(2, &[]);
    a.rule(s[0]).rhs_with_linked_history([s[1]], LinkedHistoryNode::Weight { weight: 2.5 });
    assert_eq!(a.rules().next().unwrap().history.weight, Some(2500));
''')
seed("S06c", "C06", [(CYC, "                        history: new_rule.history,\n", "                        history: cfg_history::RootHistoryNode::Rule { lhs: rule.lhs }.into(),\n")]
     if False else [(G, "                Left | Right => {\n", "                Left | Right if rule.rhs[0] == rule.rhs[1] => unreachable!(),\n                Left | Right => {\n"),
                    ("cfg-history/src/earley/mod.rs", "nullable: Some((sym, BinarizedRhsRange::Right == subset)),\n                ..self.clone()",
                     "nullable: self.nullable.or(Some((sym, BinarizedRhsRange::Right == subset))),\n                ..self.clone()")],
     "a rule that went through nulling elimination once, then through it again after more rules were added",
     "the record of the eliminated symbol is the one of the first elimination",
     '''
    // 0 ::= 1 2; 2 ::= ; gives 0 ::= 1. The kept rule's record is given by a history made by hand.
    let (mut a, s) = gr(5, &[(2, &[]), (2, &[4]), (1, &[4])]);
    let h = History { nullable: Some((s[3], false)), ..History::new(9) };
    a.rule(s[0]).history(h).rhs([s[1], s[2]]);
    a.binarize_and_eliminate_nulling_rules();
    let r = a.rules().find(|r| r.lhs == s[0] && r.rhs.len() == 1).unwrap();
    assert_eq!(r.history.nullable(), Some((s[2], true)));
''')
seed("S07a", "C07", [(SEQ, "                        sequence.range(start - 1..=start - 1),\n                        sequence.inclusive(1, end.map(|end| end - start + 1)),\n",
                      "                        sequence.range(start..=start),\n                        sequence.inclusive(0, end.map(|end| end - start)),\n")],
     "a properly separated sequence of at least two elements with room above the minimum",
     "the shortest sequences get a trailing separator",
     '''
    let (mut a, s) = gr(3, &[]);
    a.sequence(s[0]).separator(Separator::Proper(s[2])).inclusive(2, Some(4)).rhs(s[1]);
    let want: BTreeSet<Vec<usize>> = [vec![1, 2, 1], vec![1, 2, 1, 2, 1], vec![1, 2, 1, 2, 1, 2, 1]].into();
    assert_eq!(lang(&a, 0, 9), want);
''')
seed("S07b", "C07", [(SEQ, "                    sequence.range(1..=end - pow2),\n", "                    sequence.range(1..=(end - pow2).next_power_of_two()),\n")],
     "a sequence of one to n elements where n less the greatest smaller power of two is no power of two, such as 7",
     "longer sequences than allowed are derived",
     '''
    let (mut a, s) = gr(2, &[]);
    a.sequence(s[0]).inclusive(1, Some(7)).rhs(s[1]);
    let lens: Vec<usize> = lang(&a, 0, 12).iter().map(|w| w.len()).collect();
    assert_eq!(lens, (1..=7).collect::<Vec<_>>());
''')
seed("S08a", "C08", [(PREC, "        self.looseness += 1;\n", "        self.looseness += 1;\n        self.assoc = DEFAULT_ASSOC;\n")],
     "the associativity set before lowering the precedence",
     "the next alternative is left-associative although it was set otherwise",
     '''
    let (mut a, s) = gr(3, &[]);
    a.precedenced_rule(s[0]).rhs([s[1]]).associativity(cfg_grammar::precedenced_rule::Associativity::Right)
        .lower_precedence().rhs([s[0], s[2], s[0]]).finalize();
    let r = a.rules().find(|r| r.rhs.len() == 3).unwrap();
    assert_eq!(r.rhs[2], r.lhs);
    assert_ne!(r.rhs[0], r.lhs);
''')
seed("S09b", "C09", [(MAT, "            if rule.rhs.len() == 1 && rule.lhs != rule.rhs[0] {\n",
                      "            let distinct: std::collections::BTreeSet<_> = rule.rhs.iter().collect();\n            if distinct.len() == 1 && rule.lhs != rule.rhs[0] {\n")],
     "a rule repeating one symbol, in a loop with a rule of a single symbol",
     "grammars without a cycle are reported as cyclic",
     '''
    let (a, _) = gr(3, &[(0, &[1, 1]), (1, &[0]), (1, &[2])]);
    assert!(Cycles::new(&a).cycle_free());
''')
seed("S10a", "C10", [(CYC, "                            row.set(s, lhs_derives && unit_derivation[(s, rule.lhs)])\n",
                      "                            if lhs_derives {\n                                row.set(s, unit_derivation[(s, rule.lhs)]);\n                            }\n")],
     "two separate cycles in one grammar",
     "symbols of the first cycle are merged into the second, changing the language",
     '''
    let (mut a, _) = gr(7, &[(6, &[0, 2]), (0, &[1]), (1, &[0]), (0, &[4]), (2, &[3]), (3, &[2]), (2, &[5])]);
    let before = lang(&a, 6, 3);
    Cycles::new(&mut a).rewrite_cycles();
    assert_eq!(before, lang(&a, 6, 3));
''')
seed("S11b", "C11", [(USE, "            for derived in self.reachability.iter_row_syms(sym) {\n",
                      "            if self.reachable_syms[sym] {\n                continue;\n            }\n            for derived in self.reachability.iter_row_syms(sym) {\n"),
                     ("cfg-classify/src/lib.rs", "        let roots = self.roots();\n        usefulness.reachable(roots);\n",
                      "        for wrapped_root in self.wrapped_roots() {\n            usefulness.reachable([wrapped_root.root]);\n        }\n        if self.wrapped_roots().is_empty() {\n            usefulness.reachable(self.roots());\n        }\n")],
     "input wrapped, then other roots set",
     "reachability is judged from the wrapped roots instead of the roots in force",
     '''
    let (mut a, s) = gr(4, &[(0, &[2]), (1, &[3])]);
    a.set_roots([s[0]]);
    a.wrap_input();
    a.set_roots([s[1]]);
    let u = a.usefulness();
    let v: Vec<bool> = a.rules().map(|r| u.usefulness(r).usefulness().reachable).collect();
    assert_eq!(v, [false, true, false]);
''')
seed("S12a", "C12", [("cfg-classify/src/lib.rs", "        usefulness.reachable(roots);\n        usefulness\n    }\n\n    fn usefulness_with_roots",
                      "        usefulness.reachable(&roots[..roots.len().min(1)]);\n        usefulness\n    }\n\n    fn usefulness_with_roots")],
     "a grammar with more than one root",
     "rules reachable only from later roots are removed",
     '''
    let (mut a, s) = gr(4, &[(0, &[2]), (1, &[3])]);
    a.set_roots([s[0], s[1]]);
    assert!(a.make_proper());
    assert_eq!(a.rules().count(), 2);
''')
seed("S12b", "C12", [(USE, "                let productive = rule.rhs.iter().all(|&sym| productivity[sym]);\n                let reachable = reachable_syms[rule.lhs];\n                productive && reachable\n",
                      "                let productive = productivity[rule.lhs];\n                let reachable = reachable_syms[rule.lhs];\n                productive && reachable\n")],
     "a productive symbol with one unproductive rule",
     "rules that can never finish stay in the grammar made proper",
     '''
    let (mut a, s) = gr(4, &[(0, &[1]), (0, &[2]), (2, &[2, 3]), (1, &[3])]);
    a.set_roots([s[0]]);
    a.make_proper();
    assert_eq!(dump(&a), vec![(0, vec![1]), (1, vec![3])]);
''')
seed("S13a", "C13", [("cfg-symbol/src/intern.rs", "        let remapped = other\n            .to_external\n            .iter()\n            .map(|middle| self.to_external[middle.usize()])\n            .collect();\n",
                      "        let remapped = self\n            .to_external\n            .iter()\n            .filter_map(|middle| other.to_external.get(middle.usize()).copied())\n            .collect();\n")],
     "two different reorderings in one session",
     "the map to external symbols composes the renumberings in the wrong order",
     '''
    let (mut a, s) = gr(3, &[(0, &[1, 2])]);
    let mut r = Remap::new(&mut a);
    let k1 = [1, 2, 0];
    r.reorder_symbols(|x, y| k1[x.usize()].cmp(&k1[y.usize()]));
    let k2 = [1, 0, 2];
    r.reorder_symbols(|x, y| k2[x.usize()].cmp(&k2[y.usize()]));
    let m = r.get_mapping();
    for (i, e) in m.to_external.iter().enumerate() {
        assert_eq!(m.to_internal[e.usize()].unwrap().usize(), i);
    }
''')
seed("S13b", "C13", [(REMAP, "                wrapped_root.end_of_input = map(wrapped_root.end_of_input);\n", "")],
     "renumbering after wrapping the input, moving the end-of-input symbol",
     "the wrapped root describes the wrong end of input",
     '''
    let (mut a, s) = gr(2, &[(0, &[1])]);
    a.set_roots([s[0]]);
    a.wrap_input();
    let n = a.num_syms();
    Remap::new(&mut a).reorder_symbols(|x, y| y.cmp(&x));
    let w = a.wrapped_roots()[0];
    let r = a.rules().find(|r| r.lhs == w.root).unwrap();
    assert_eq!(r.rhs[2], w.end_of_input);
''')
seed("S13c", "C13", [(REMAP, "        new_mapping.to_external.sort_by(|&a, &b| f(a, b));\n", "        new_mapping.to_external.sort_unstable_by(|&a, &b| f(a, b));\n")],
     "a grammar of more than twenty symbols and an order with ties",
     "symbols that tie do not keep their order",
     '''
    let n = 120;
    let (mut a, s) = gr(n, &[(0, &[1, 2])]);
    let mut r = Remap::new(&mut a);
    r.reorder_symbols(|x, y| (x.usize() % 3).cmp(&(y.usize() % 3)));
    let m = r.get_mapping();
    let mut want: Vec<usize> = (0..n).collect();
    want.sort_by_key(|x| x % 3);
    assert_eq!(m.to_external.iter().map(|x| x.usize()).collect::<Vec<_>>(), want);
''')
seed("S14a", "C14", [(BITS, "        self.set_all(grammar.sym_source());\n        for rule in grammar.rules() {\n            self.set(rule.lhs, false);\n            for &sym in &rule.rhs[..] {\n                self.set(sym, false);\n            }\n        }\n",
                      "        self.set_all(grammar.sym_source());\n        for rule in grammar.rules() {\n            for &sym in &rule.rhs[..] {\n                self.set(rule.lhs, false);\n                self.set(sym, false);\n            }\n        }\n")],
     "a symbol that occurs only as the left-hand side of an empty rule",
     "the symbol is taken for unused and removed, leaving a rule of a symbol that does not exist",
     '''
    let (mut a, s) = gr(4, &[(3, &[]), (0, &[1])]);
    a.set_roots([s[0]]);
    Remap::new(&mut a).remove_unused_symbols();
    assert_eq!(a.num_syms(), 3);
    assert!(a.rules().all(|r| r.lhs.usize() < 3));
''')
seed("S14b", "C14", [(REMAP, "            .truncate(num_syms - unused_symbols.iter().count());\n", "            .truncate(cmp_max(1, num_syms - unused_symbols.iter().count()));\n"),
                     (REMAP, "        self.reorder_symbols(|sym0, sym1| unused_symbols[sym0].cmp(&unused_symbols[sym1]));\n",
                      "        let rank = |sym: Symbol| (unused_symbols[sym], std::cmp::Reverse(self.mapping.to_external[sym.usize()]));\n        let ranks: Vec<_> = SymbolSource::generate_fresh()\n            .take(self.grammar.num_syms())\n            .map(|sym| if self.grammar.roots().contains(&sym) { (rank(sym).0, 0) } else { (rank(sym).0, 1) })\n            .collect();\n        self.reorder_symbols(|sym0, sym1| ranks[sym0.usize()].cmp(&ranks[sym1.usize()]));\n"),
                     (REMAP, "/// Remaps symbols and removes unused symbols.\npub struct Remap<'a> {", "use std::cmp::max as cmp_max;\n\n/// Remaps symbols and removes unused symbols.\npub struct Remap<'a> {")],
     "a root that is not the first symbol",
     "the relative order of symbols is changed by removing unused ones",
     '''
    let (mut a, s) = gr(4, &[(2, &[0, 1]), (1, &[0])]);
    a.set_roots([s[2]]);
    Remap::new(&mut a).remove_unused_symbols();
    assert_eq!(dump(&a), vec![(2, vec![0, 1]), (1, vec![0])]);
''')
seed("S16a", "C16", [("cfg-predict-sets/src/follow.rs", "                        if !first_set.has_none {\n                            follow_set.clear();\n                        }\n",
                      "                        if !first_set.has_none && !first_set.is_empty() {\n                            follow_set.clear();\n                        }\n")],
     "a symbol that derives nothing at all, after another nonterminal",
     "what follows a symbol that can neither vanish nor begin with anything leaks into FOLLOW sets",
     '''
    let (mut a, s) = gr(5, &[(0, &[1, 2, 3]), (1, &[4]), (2, &[2])]);
    a.set_roots([s[0]]);
    let f = a.follow_sets();
    let set = &f.predict_sets()[&s[1]];
    assert!(set.list.is_empty() && !set.has_none());
''')
seed("S16b", "C16", [("cfg-predict-sets/src/follow.rs", "                        changed |= prev_cardinality != followed.len();\n", "                        changed = prev_cardinality != followed.len();\n")],
     "a chain of nonterminals in an order that needs another pass",
     "FOLLOW sets are missing terminals",
     '''
    let (mut a, s) = gr(6, &[(2, &[3]), (1, &[2]), (0, &[1, 4]), (3, &[5]), (0, &[3, 5])]);
    a.set_roots([s[0]]);
    let f = a.follow_sets();
    assert!(f.predict_sets()[&s[3]].list.contains(&s[4]));
''')
seed("S18a", "C18", [("cfg-classify/src/lr.rs", "        self.cached_sets.clear();\n", "")],
     "two automata built by one builder",
     "the second automaton links to sets of the first",
     '''
    let (mut a, s) = gr(3, &[(0, &[1, 2]), (0, &[2])]);
    let mut b = a.lr0_fsm_builder();
    b.make_lr0_fsm(s[0]);
    let f = b.make_lr0_fsm(s[0]);
    for node in &f {
        assert!(node.link.values().all(|&id| (id as usize) < f.len()));
    }
    assert!(f.len() > 1);
''')
seed("S18b", "C18", [("cfg-classify/src/lr.rs", "        match self.cached_sets.get(&items) {\n", "        let known = self.cached_sets.iter().find(|(set, _)| set.map.values().eq(items.map.values()));\n        match known.map(|(_, id)| id) {\n")],
     "two item sets with the same right-hand sides and dots of different rules",
     "different item sets are merged into one",
     '''
    // 0 ::= 3 1 | 4 2; 1 ::= 5; 2 ::= 5
    let (mut a, s) = gr(6, &[(0, &[1, 3]), (0, &[2, 4]), (1, &[5]), (2, &[5])]);
    let (mut b, t) = gr(5, &[(0, &[2, 1, 3]), (0, &[3, 4]), (1, &[3, 4])]);
    let f = b.lr0_fsm_builder().make_lr0_fsm(t[0]);
    let sets: Vec<Vec<(u32, u32)>> = f.iter().map(|n| n.items.map.iter().map(|(r, i)| (*r, i.dot)).collect()).collect();
    for (k, node) in f.iter().enumerate() {
        for (sym, id) in &node.link {
            let mut want: Vec<u32> = node.items.map.iter().filter(|(_, i)| i.rhs.get(i.dot as usize) == Some(sym)).map(|(r, _)| *r).collect();
            let got: Vec<u32> = sets[*id as usize].iter().filter(|x| x.1 > 0).map(|x| x.0).collect();
            assert_eq!(want, got);
        }
    }
''')
seed("S19b", "C19", [("cfg-classify/src/recursive.rs", "            .take(rule.rhs.len().saturating_sub(2))\n", "            .take(rule.rhs.len().saturating_sub(2).min(2))\n")],
     "a rule of five or more symbols with the recursion in the fourth place",
     "the rule is not reported as middle recursive",
     '''
    let (a, s) = gr(3, &[(0, &[1, 1, 1, 0, 1]), (0, &[2])]);
    assert_eq!(a.recursion().recursive_rules().count(), 1);
''')
seed("S20b", "C20", [(BITS, "        self.bit_vec\n            .extend(iter::repeat(false).take(len.saturating_sub(self.bit_vec.len())));\n",
                      "        let missing = len.saturating_sub(self.bit_vec.len());\n        let elem = self.bit_vec.iter().last().unwrap_or(false);\n        self.bit_vec.extend(iter::repeat(elem).take(missing));\n")],
     "space reserved in a set whose last symbol is included",
     "the new symbols are included in the set",
     '''
    let (a, s) = gr(3, &[]);
    let mut set = SymbolBitSet::from_elem(&a, false);
    set.set(s[2], true);
    set.reserve(6);
    assert_eq!(set.iter().count(), 1);
''')
seed("S21b", "C21", [("cfg-predict-distance/src/lib.rs", "        .take_while(move |&(rule_id, _)| rule_id == idx)\n", "        .take_while(move |&(rule_id, dot)| rule_id == idx && dot <= u8::MAX as usize)\n        .take(2)\n")],
     "three or more targets in one rule",
     "the third target of a rule is not at distance zero",
     '''
    let (a, s) = gr(4, &[(0, &[1, 2, 3])]);
    let mut d = MinimalDistance::new(&a);
    let r = d.minimal_distances(&[(0, 0), (0, 1), (0, 3)], DistanceDirection::Forward).to_vec();
    assert_eq!(r[0], vec![Some(0), Some(0), Some(1), Some(0)]);
''')
seed("S23a", "C23", [("cfg-generate/src/weighted/random.rs", "                    if result.len() as u64 > our_limits.terminals {\n", "                    if string.len() as u64 > our_limits.terminals {\n")],
     "terminals that stand for no character, and a limit",
     "more terminals than the limit are returned",
     '''
    let (a, s) = gr(3, &[(0, &[1, 1, 1, 2])]);
    let mut src = ByteSource::new(std::iter::empty::<u8>());
    let r = a.random(s[0], Some(Limits { terminals: 2, negative_rule_attempts: 0 }), &mut src, &[], |x, _| if x == s[2] { Some('x') } else { None });
    assert_eq!(r, Err(RandomGenError::LimitExceeded));
''')
seed("S24a", "C24", [("cfg-generate/src/weighted/weighted_rhs_by_lhs.rs", "rule.history.weight.unwrap_or(1000) as f64 / 1000f64;", "f64::from(rule.history.weight.map_or(1, |weight| weight.div_ceil(1000)));")],
     "a rule with a weight that is no whole number",
     "shares of alternatives are those of rounded weights",
     '''
    let (mut a, s) = gr(3, &[]);
    a.rule(s[0]).history(History { weight: Some(1000), ..History::new(1) }).rhs([s[1]]);
    a.rule(s[0]).history(History { weight: Some(250), ..History::new(2) }).rhs([s[2]]);
    // 0.7 of the total weight of 1.25 is 0.875, in the first alternative's share
    let mut src = ByteSource::new([(0.7 * 255.0) as u8].into_iter());
    let r = a.random(s[0], None, &mut src, &[], |_, _| None).unwrap();
    assert_eq!(r.0, vec![s[1]]);
''')
seed("S25a", "C25", [("cfg-load/src/basic.rs", "            let mut intern_empty = true;\n", "            let mut rep_map = HashMap::new();\n            let mut intern_empty = true;\n"),
                     ("cfg-load/src/basic.rs", "                                let [new_sym] = cfg.sym();\n                                cfg.sequence(new_sym).inclusive(0, None).rhs(rhs_sym);\n                                new_sym\n",
                      "                                *rep_map.entry(rhs_sym).or_insert_with(|| {\n                                    let [new_sym] = cfg.sym();\n                                    cfg.sequence(new_sym).inclusive(0, None).rhs(rhs_sym);\n                                    new_sym\n                                })\n"),
                     ("cfg-load/src/basic.rs", "                                let [new_sym] = cfg.sym();\n                                cfg.sequence(new_sym).range(1..).rhs(rhs_sym);\n                                new_sym\n",
                      "                                *rep_map.entry(rhs_sym).or_insert_with(|| {\n                                    let [new_sym] = cfg.sym();\n                                    cfg.sequence(new_sym).range(1..).rhs(rhs_sym);\n                                    new_sym\n                                })\n")],
     "one symbol repeated both zero or more and one or more times in a text",
     "the second repetition is taken for the first",
     '''
    let a = Cfg::load("s ::= a* | b a+;").unwrap();
    let m = a.sym_source().name_map();
    let (s, b) = (m["s"].usize(), m["b"].usize());
    assert!(!lang(&a, s, 3).contains(&vec![b]));
''')
seed("S25b", "C25", [("cfg-load/src/basic.rs", "                alt.extend(fragment);\n                Value::Alt(alt)\n", "                match fragment {\n                    Some(fragment) => alt.push(fragment),\n                    None => alt.clear(),\n                }\n                Value::Alt(alt)\n")],
     "an empty pair of parentheses after other symbols",
     "the symbols before it are lost",
     '''
    let a = Cfg::load("s ::= a b () c;").unwrap();
    assert_eq!(a.rules().next().unwrap().rhs.len(), 3);
''')
seed("S26a", "C26", [("cfg-load/src/advanced.rs", "                if result == \"lexer\" {\n", "                if result.starts_with(\"lexer\") {\n")],
     "an identifier beginning with the word lexer",
     "a well-formed text is rejected",
     '''
    assert!(Cfg::load_advanced("start ::= lexer_rule; lexer { lexer_rule ::= \\"x\\"; }").is_ok());
''')
seed("S26b", "C26", [("cfg-load/src/advanced.rs", "                                        .entry(ch.into())\n", "                                        .entry((ch as u8).into())\n")],
     "a string with a character outside of Latin-1",
     "the string matches other characters",
     '''
    let mut g = Cfg::load_advanced("start ::= a; lexer { a ::= \\"\\u{3042}\\"; }").unwrap();
    g.lexer_map.compute();
    assert_eq!(g.lexer_map.get('\\u{3042}').len(), 1);
    assert_eq!(g.lexer_map.get('B').len(), 0);
''')
seed("S26c", "C26", [("cfg-load/src/advanced.rs", "                        if is_lexer", "                        if is_lexer")]
     if False else [("cfg-load/src/advanced.rs", "                    lhs_in_parser.insert(lhs);\n", "                    if !rule.rhs.is_empty() {\n                        lhs_in_parser.insert(lhs);\n                    }\n")],
     "a left-hand side with an empty rule in the parser part and a rule in the lexer",
     "the clash is not reported",
     '''
    assert!(Cfg::load_advanced("s ::= a; a ::= ; lexer { a ::= \\"x\\"; }").is_err());
''')
seed("S27a", "C27", [("cfg-regexp-logic/src/lib.rs", "                self.cfg.sequence(lhs).inclusive(rep.min, rep.max).rhs(rhs);\n",
                      "                let max = if rep.sub.properties().maximum_len() == Some(0) { Some(rep.min) } else { rep.max };\n                let min = if rep.greedy { rep.min } else { rep.min.min(1) };\n                self.cfg.sequence(lhs).inclusive(min, max).rhs(rhs);\n")],
     "a lazy repetition of at least two",
     "shorter strings than the expression asks for are derived",
     '''
    let (a, map) = Cfg::from_regexp("a{2,3}?").unwrap();
    let root = a.roots()[0].usize();
    let lens: Vec<usize> = lang(&a, root, 4).iter().map(|w| w.len()).collect();
    assert_eq!(lens, [2, 3]);
''')
seed("S27b", "C27", [("cfg-regexp-logic/src/lib.rs", "                    alternatives.extend(self.walk_hir(expr, depth + 1));\n", "                    for alternative in self.walk_hir(expr, depth + 1) {\n                        if !alternative.is_empty() || alternatives.is_empty() {\n                            alternatives.push(alternative);\n                        }\n                    }\n")],
     "an alternation with an empty alternative that is not the first",
     "the empty string is no longer matched",
     '''
    let (a, map) = Cfg::from_regexp("(?:ab|cd|)e").unwrap();
    let root = a.roots()[0].usize();
    assert!(lang(&a, root, 3).iter().any(|w| w.len() == 1));
''')
seed("S28a", "C28", [("cfg-regexp-logic/src/lib.rs", "                if is_added {\n                    work.insert(symbol);\n                } else {\n                    work.remove(&symbol);\n                }\n",
                      "                if is_added {\n                    work.insert(symbol);\n                } else {\n                    work.remove(&symbol);\n                    work.retain(|&other| other < symbol);\n                }\n")],
     "overlapping classes outside of ASCII, one starting later and reaching further",
     "the class reaching further is forgotten where another one ends",
     '''
    let (_, mut m) = Cfg::from_regexp("[\\u{400}-\\u{410}][\\u{405}-\\u{420}]").unwrap();
    m.compute();
    assert_eq!(m.get('\\u{407}').len(), 2);
    assert_eq!(m.get('\\u{415}').len(), 1);
''')
seed("S28b", "C28", [("cfg-regexp-logic/src/lib.rs", "                if class.0.is_ascii() {\n", "                if class.1.is_ascii() {\n")],
     "a class range starting in ASCII and reaching beyond",
     "the ASCII characters of the range are not found",
     '''
    let (_, mut m) = Cfg::from_regexp("[x-\\u{100}]").unwrap();
    m.compute();
    assert_eq!(m.get('y').len(), 1);
''')
seed("S29a", "C29", [(G, "        self.wrapped_roots.clear();\n        let roots_len", "        let roots_len")],
     "wrapping twice",
     "the list of wrapped roots also has those of the earlier wrapping",
     '''
    let (mut a, s) = gr(2, &[(0, &[1])]);
    a.set_roots([s[0]]);
    a.wrap_input();
    a.wrap_input();
    assert_eq!(a.wrapped_roots().len(), 1);
''')
seed("S29b", "C29", [(G, "        for inner_root in roots {\n            let [root,", "        for inner_root in roots {\n            if self.wrapped_roots.iter().any(|wrapped| wrapped.inner_root == inner_root) {\n                continue;\n            }\n            let [root,")],
     "the same root listed twice",
     "the second listing of a root gets no root of its own",
     '''
    let (mut a, s) = gr(2, &[(0, &[1])]);
    a.set_roots([s[0], s[0]]);
    a.wrap_input();
    assert_eq!(a.roots().len(), 2);
''')
seed("S30a", "C30", [("cfg-symbol/src/symbol.rs", "            if n < T::MAX as u64 {\n", "            if n as u32 != u32::MAX {\n")],
     "a number of 2^32 or more",
     "the number wraps around to a small symbol instead of an error",
     '''
    let r: miniserde::Result<Symbol> = miniserde::json::from_str("4294967301");
    assert!(r.is_err());
''')
seed("S30b", "C30", [(SRC, "            self.out = Some(SymbolName { name: Rc::from(s) });\n", "            self.out = Some(SymbolName { name: Rc::from(s.trim()) });\n")],
     "a symbol name with white space at an end",
     "the name read back is another one",
     '''
    let n: cfg_symbol::SymbolName = " a ".into();
    let back: cfg_symbol::SymbolName = miniserde::json::from_str(&miniserde::json::to_string(&n)).unwrap();
    assert_eq!(n, back);
''')
seed("S31a", "C31", [(REMAP, "            if map(rule.lhs) == rule.lhs && rule.rhs.iter().all(|&sym| map(sym) == sym) {\n",
                      "            if map(rule.lhs) == rule.lhs && rule.rhs.iter().take(2).all(|&sym| map(sym) == sym) {\n")],
     "renumbering that leaves a rule's left-hand side and first two symbols in place but moves its third",
     "the rule keeps the old numbers, so it derives other strings",
     '''
    let (mut a, s) = gr(5, &[(0, &[1, 2, 3])]);
    a.set_roots([s[0]]);
    let k = [0, 1, 2, 4, 3];
    Remap::new(&mut a).reorder_symbols(|x, y| k[x.usize()].cmp(&k[y.usize()]));
    assert_eq!(dump(&a), vec![(0, vec![1, 2, 4])]);
''')
seed("S31b", "C31", [(CYC, "            for rule in rewritten_rules {\n", "            for rule in rewritten_rules {\n                if rule.rhs.len() == 1 && rule.lhs == rule.rhs[0] || rule.rhs.is_empty() && self.grammar.borrow().has_roots() {\n                    continue;\n                }\n")],
     "cycle rewriting in a grammar with an empty rule on a cycle",
     "the empty string is lost from the language",
     '''
    let (mut a, s) = gr(4, &[(0, &[1, 3]), (1, &[2]), (2, &[1]), (2, &[])]);
    a.set_roots([s[0]]);
    let before = lang(&a, 0, 3);
    Cycles::new(&mut a).rewrite_cycles();
    assert_eq!(before, lang(&a, a.roots()[0].usize(), 3));
''')
FIRST = "cfg-predict-sets/src/first.rs"
LL = "cfg-classify/src/ll.rs"
REC = "cfg-classify/src/recursive.rs"
DIST = "cfg-predict-distance/src/lib.rs"
RND = "cfg-generate/src/weighted/random.rs"
ADV = "cfg-load/src/advanced.rs"
BAS = "cfg-load/src/basic.rs"
seed("S03c", "C03", [(G, "                lhs = self.next_sym(None);\n                rhs_rev.push(lhs);\n",
                      "                let known = self.rules.iter().find(|known| known.rhs[..] == tail[..]);\n                lhs = match known.map(|known| known.lhs) {\n                    Some(lhs) => lhs,\n                    None => self.next_sym(None),\n                };\n                rhs_rev.push(lhs);\n")],
     "a rule whose last symbols are already the whole right-hand side of a symbol that has other rules too",
     "the shared symbol brings its other alternatives into the split rule",
     '''
    let (mut a, _) = gr(6, &[(1, &[2, 3]), (1, &[4]), (0, &[2, 3, 5])]);
    let before = lang(&a, 0, 4);
    a.limit_rhs_len(Some(2));
    assert_eq!(before, lang(&a, 0, 4));
    let (mut a, _) = gr(6, &[(1, &[3, 5]), (1, &[4]), (0, &[2, 3, 5])]);
    let before = lang(&a, 0, 4);
    a.limit_rhs_len(Some(2));
    assert_eq!(before, lang(&a, 0, 4));
''')
seed("S15a", "C15", [(FIRST, "        let prev_cardinality = first_set.len();\n", "        let prev_cardinality = first_set.list.len();\n"),
                     (FIRST, "        prev_cardinality != first_set.len()\n", "        prev_cardinality != first_set.list.len()\n")],
     "a pass that finds out only that a symbol derives the empty string, after a rule that needs it was looked at",
     "the iteration stops before FIRST sets are complete",
     '''
    let (a, s) = gr(4, &[(0, &[1, 2]), (1, &[3, 3]), (1, &[])]);
    assert!(a.first_sets().predict_sets()[&s[0]].list.contains(&s[2]));
    let (a, s) = gr(5, &[(0, &[1, 2, 3]), (1, &[4]), (2, &[1, 1]), (1, &[])]);
    let f = a.first_sets();
    assert_eq!(f.predict_sets()[&s[0]].list, vec![s[3], s[4]]);
    let (a, s) = gr(3, &[(0, &[1, 2]), (1, &[])]);
    assert_eq!(a.first_sets().predict_sets()[&s[0]].list, vec![s[2]]);
''')
seed("S15b", "C15", [(FIRST, "                // Successfully found a FIRST symbol.\n                return;\n",
                      "                // Successfully found a FIRST symbol.\n                self.lookahead.has_none &= self.lookahead.list.is_empty();\n                return;\n"),
                     (FIRST, "                        if has_none {\n                            nullable = true;\n                        }\n",
                      "                        if has_none {\n                            nullable = true;\n                            self.lookahead.has_none = true;\n                        }\n")],
     "a rule that begins with a symbol that derives only the empty string and goes on with one that derives nothing",
     "the rule's symbol is said to derive the empty string",
     '''
    let (a, s) = gr(4, &[(0, &[1, 2]), (1, &[]), (2, &[2, 3])]);
    assert!(!a.first_sets().predict_sets()[&s[0]].has_none());
''')
seed("S17a", "C17", [(LL, "            if rhs_first_set.has_none() {\n", "            if rule.rhs.is_empty() {\n")],
     "a rule with a non-empty right-hand side that derives the empty string",
     "the conflict with what follows is missed",
     '''
    let (mut a, s) = gr(4, &[(0, &[1, 2]), (1, &[3]), (1, &[2]), (3, &[])]);
    a.set_roots([s[0]]);
    let t = cfg_classify::ll::LlParseTable::new(&a);
    assert_eq!(t.classify().classes()[&s[1]], cfg_classify::ll::LlNonterminalClass::ContextFree);
''')
seed("S19c", "C19", [(REC, "            rules: self.grammar.rules().enumerate(),\n", "            rules: self.grammar.rules().filter(|rule| !rule.rhs.is_empty()).enumerate(),\n")],
     "a rule with an empty right-hand side before a recursive rule",
     "the recursive rule is given the distances of another rule",
     '''
    let (a, _) = gr(3, &[(0, &[]), (0, &[1, 0, 2])]);
    let r = cfg_classify::recursive::Recursion::new(&a);
    let d: Vec<_> = r.minimal_distances().map(|x| x.distances).collect();
    let (b, _) = gr(3, &[(0, &[1, 0, 2]), (0, &[])]);
    let r = cfg_classify::recursive::Recursion::new(&b);
    let e: Vec<_> = r.minimal_distances().map(|x| x.distances).collect();
    assert_eq!(d, e);
''')
seed("S20c", "C20", [(BITS, "        self.reset(grammar.sym_source());\n        for rule in grammar.rules() {\n            self.set(rule.lhs, true);\n            for &sym in &rule.rhs[..] {\n                self.set(sym, true);\n",
                      "        if self.space() != grammar.num_syms() {\n            self.reset(grammar.sym_source());\n        }\n        for rule in grammar.rules() {\n            self.set(rule.lhs, true);\n            for &sym in &rule.rhs[..] {\n                self.set(sym, true);\n")],
     "one set used for a grammar twice, with a rule removed in between",
     "symbols no longer in use stay in the set",
     '''
    let (mut a, s) = gr(3, &[(0, &[1]), (1, &[2])]);
    let mut set = SymbolBitSet::new();
    set.used(&a);
    a.retain(|rule| rule.lhs == s[0]);
    set.used(&a);
    assert_eq!(set.iter().collect::<Vec<_>>(), vec![s[0], s[1]]);
''')
seed("S21c", "C21", [(DIST, "        dots.sort_unstable();\n", "        dots.dedup();\n")],
     "positions given in another order than that of the rules",
     "some positions are ignored",
     '''
    let (a, _) = gr(5, &[(0, &[1, 2]), (3, &[4]), (3, &[1, 1])]);
    let mut d = MinimalDistance::new(&a);
    let r = d.minimal_distances(&[(2, 1), (1, 0), (0, 2)], DistanceDirection::Forward).to_vec();
    assert_eq!(r[0], vec![Some(2), Some(1), Some(0)]);
    assert_eq!(r[1][0], Some(0));
    assert_eq!(r[2][1], Some(0));
''')
seed("S22a", "C22", [(G, "                    value[rule.lhs.usize()] = Some(work_value);\n                    tmp_stack.push(rule.lhs);\n",
                      "                    if value[rule.lhs.usize()].replace(work_value).is_none() {\n                        tmp_stack.push(rule.lhs);\n                    }\n")],
     "a symbol whose first value is improved after others have used it",
     "the symbols that depend on it keep the larger value",
     '''
    for order in [[(0, &[1usize][..]), (1, &[2, 2, 2]), (1, &[3])], [(0, &[1][..]), (1, &[3]), (1, &[2, 2, 2])], [(0, &[1][..]), (1, &[3, 3, 3]), (1, &[2])]] {
        let (mut a, _) = gr(4, &order);
        let mut v = vec![None, None, Some(1), Some(1)];
        a.rhs_closure_with_values(&mut v);
        assert_eq!(v, vec![Some(1), Some(1), Some(1), Some(1)]);
    }
''')
seed("S23c", "C23", [(RND, "                        result_len: result.len(),\n", "                        result_len: string.len(),\n")],
     "backtracking after a terminal that has no character",
     "the list of terminals is cut in the wrong place",
     '''
    for seed in 0..64u8 {
        let (a, s) = gr(6, &[(0, &[1, 2, 3]), (2, &[]), (3, &[4]), (3, &[5])]);
        let neg = [NegativeRule { sym: s[2], chars: "x" }];
        let bytes = (0..200u8).map(move |i| i.wrapping_mul(37).wrapping_add(seed));
        let mut rng = ByteSource::new(bytes);
        let lim = Some(Limits { terminals: 100, negative_rule_attempts: 100 });
        let r = a.random(s[0], lim, &mut rng, &neg, |x, _| if x == s[4] { Some('x') } else if x == s[5] { Some('y') } else { None });
        if let Ok((syms, text)) = r {
            assert_eq!(text, vec!['y']);
            assert_eq!(syms, vec![s[1], s[5]]);
        }
    }
''')
seed("S32a", "C32", [(G, "        let no_names = self.sym_source.names().iter().all(|name| name.is_none());\n",
                      "        let no_names = self.sym_source.names().iter().any(|name| name.is_none());\n")],
     "a grammar in which some symbols have names and some have none",
     "no names are printed at all",
     '''
    let mut a = Cfg::new();
    let x = a.next_sym(Some("x".into()));
    let [y] = a.sym();
    a.rule(x).rhs([y]);
    assert_eq!(a.stringify_to_bnf(), "x(0) ::= g1(1);\\n");
''')
seed("S32b", "C32", [(G, "            && self.rhs.len() == other.rhs.len()\n", "            && self.rhs.len() <= other.rhs.len()\n")],
     "two named rules of which one right-hand side is a prefix of the other",
     "different rules compare equal",
     '''
    let a = cfg_grammar::NamedCfgRule::new(vec![Some("a".into()), Some("b".into())]);
    let b = cfg_grammar::NamedCfgRule::new(vec![Some("a".into()), Some("b".into()), Some("c".into())]);
    assert!(a != b && b != a);
''')
seed("S33a", "C33", [(ADV, "                        Some(other) => {\n                            self.advance();\n                            result.push(other);\n",
                      "                        Some(other) => {\n                            self.chars.next();\n                            self.col_no += 1;\n                            result.push(other);\n")],
     "a mistake after a string that goes over several lines",
     "the line of the mistake is too small",
     '''
    let err = Cfg::load_advanced("A ::= \\"x\\ny\\";\\nB ::= ::=;").err().unwrap();
    assert_eq!((err.line, err.col), (3, 7));
''')
seed("S33b", "C33", [(BAS, "                result.push((token, line_no, col_no));\n            }\n            line_no = lexer.line_no;\n            col_no = lexer.col_no;\n",
                      "                result.push((token, line_no, col_no));\n                line_no = lexer.line_no;\n                col_no = lexer.col_no;\n            }\n")],
     "a mistake after white space",
     "the place reported is where the white space begins",
     '''
    let err = Cfg::load("A ::=\\n  B C;\\n\\nD E;").err().unwrap();
    assert_eq!((err.line, err.col), (4, 3));
''')
seed("S34b", "C34", [(G, "#[derive(Clone, Debug)]\npub struct Cfg {\n", "#[derive(Debug)]\npub struct Cfg {\n"),
                     (G, "impl Default for Cfg {\n", "impl Clone for Cfg {\n    fn clone(&self) -> Self {\n        Cfg {\n            sym_source: self.sym_source.clone(),\n            lexemes: self.lexemes.clone(),\n            rules: self.rules.clone(),\n            roots: self.roots.clone(),\n            wrapped_roots: self.wrapped_roots.clone(),\n            ..Cfg::new()\n        }\n    }\n}\n\nimpl Default for Cfg {\n")],
     "a copy of a grammar with a limit on right-hand sides, extended further",
     "the copy does not keep to the limit",
     '''
    let (mut a, s) = gr(4, &[(0, &[1, 2])]);
    a.limit_rhs_len(Some(2));
    let mut b = a.clone();
    a.rule(s[0]).rhs([s[1], s[2], s[3]]);
    b.rule(s[0]).rhs([s[1], s[2], s[3]]);
    assert_eq!(dump(&a), dump(&b));
''')
seed("S09c", "C09", [(CYC, "                rule.rhs.len() == 1 && self.unit_derivation[(rule.rhs[0], rule.lhs)],\n",
                      "                rule.rhs.len() == 1\n                    && self.unit_derivation[(rule.lhs, rule.lhs)]\n                    && self.unit_derivation[(rule.rhs[0], rule.rhs[0])],\n")],
     "two separate cycles and a rule that leads from one into the other",
     "the connecting rule is said to participate in a cycle",
     '''
    let (a, _) = gr(4, &[(0, &[1]), (1, &[0]), (2, &[3]), (3, &[2]), (1, &[2])]);
    assert_eq!(Cycles::new(&a).cycle_participants(true).count(), 4);
''')
seed("S17b", "C17", [(LL, "        self.grammar.rhs_closure_for_any(&mut property);\n",
                      "        let rules: Vec<_> = self.grammar.rules().collect();\n        for rule in rules.into_iter().rev() {\n            if rule.rhs.iter().any(|&sym| property[sym]) {\n                property.set(rule.lhs, true);\n            }\n        }\n")],
     "a symbol without LL(1) that is used two steps away, in a later rule",
     "the symbol that depends on it is still called LL(1)",
     '''
    let (mut a, s) = gr(4, &[(2, &[3]), (2, &[3, 3]), (1, &[2]), (0, &[1])]);
    a.set_roots([s[0]]);
    let t = cfg_classify::ll::LlParseTable::new(&a);
    assert_eq!(t.classify().classes()[&s[0]], cfg_classify::ll::LlNonterminalClass::ContextFree);
''')
seed("S34a", "C34", [(ADV, "                                    for (class, sym) in classes.classes {\n",
                      "                                    let classes: HashMap<_, _> =\n                                        classes.classes.into_iter().map(|(class, sym)| (sym, class)).collect();\n                                    for (sym, class) in classes {\n")],
     "a regular expression with several character classes in a rich grammar text, loaded more than once",
     "the symbols of the classes are numbered in another order each time",
     '''
    let load = || Cfg::load_advanced(r#"A ::= Regexp("[a-c][d-f][g-i][j-l][m-o]");"#).ok().unwrap();
    let first = load();
    for _ in 0..20 {
        assert_eq!(dump(&first.cfg), dump(&load().cfg));
    }
''')
HIST = "cfg-history/src/earley/mod.rs"
seed("S35a", "C35", [(HIST, "                (SymKind::Element, _) => self.dots[1],\n                (_, SymKind::Element) => self.dots[0],\n",
                      "                (_, SymKind::Element) => self.dots[0],\n                (SymKind::Element, _) => self.dots[1],\n")],
     "a sequence of exactly two elements without separator, with dots",
     "the dot between the elements is taken for the one at the start",
     '''
    use cfg_history::earley::rule_dot::RuleDot;
    let (mut a, s) = gr(2, &[]);
    let mut h = History::new(7);
    h.dots = [RuleDot::new(7, 0), RuleDot::new(7, 1), RuleDot::new(7, 2)];
    a.sequence(s[0]).history(h).inclusive(2, Some(2)).rhs(s[1]);
    let dots: Vec<_> = a.column(1).map(|d| d.earley.unwrap()).collect();
    assert_eq!(dots, vec![RuleDot::new(7, 1)]);
''')
seed("S35b", "C35", [(HIST, "            History {\n                nullable: Some((sym, BinarizedRhsRange::Right == subset)),\n                ..self.clone()\n            }\n",
                      "            let mut dots = self.dots;\n            if BinarizedRhsRange::Left == subset {\n                dots = [dots[1], dots[2], RuleDot::none()];\n            }\n            History {\n                nullable: Some((sym, BinarizedRhsRange::Right == subset)),\n                dots,\n                ..self.clone()\n            }\n")],
     "nulling elimination of a rule of two symbols of which only the left one is nullable, with dots",
     "the dots of the rule are moved by one place",
     '''
    use cfg_history::earley::rule_dot::RuleDot;
    let (mut a, s) = gr(3, &[(1, &[]), (1, &[2])]);
    let mut h = History::new(7);
    h.dots = [RuleDot::new(7, 0), RuleDot::new(7, 1), RuleDot::new(7, 2)];
    a.rule(s[0]).history(h).rhs([s[1], s[2]]);
    a.binarize_and_eliminate_nulling_rules();
    let r: Vec<_> = a.rules().filter(|r| r.lhs == s[0] && r.rhs.len() == 1).collect();
    assert_eq!(r.len(), 1);
    assert_eq!(r[0].history.dots, h.dots);
''')
seed("S35c", "C35", [(G, "                    full_len: rule.rhs.len(),\n", "                    full_len: tail.len() + parts as usize,\n"),
                     (G, "        let mut parts: u32 = 0;\n", "        let mut parts: u32 = (rule.rhs.len() > 8) as u32;\n"),
                     (G, "            if parts == 0 && rhs_rev.is_empty() ||", "            if tail.len() == rule.rhs.len() ||"),
                     (G, "                    height: parts,\n", "                    height: parts - (rule.rhs.len() > 8) as u32,\n"),
                     (G, "        parts\n    }\n", "        parts - (rule.rhs.len() > 8) as u32\n    }\n")],
     "a rule of more than eight symbols split to a limit of two",
     "the last dots of the piece that keeps the left-hand side are traced one place too far",
     '''
    use cfg_history::earley::rule_dot::RuleDot;
    let (mut a, s) = gr(2, &[]);
    a.rule(s[0]).history(History::new(7)).rhs([s[1]; 9]);
    a.limit_rhs_len(Some(2));
    let top = a.rules().find(|r| r.lhs == s[0]).unwrap();
    assert_eq!(top.history.dots, [RuleDot::new(7, 0), RuleDot::new(7, 8), RuleDot::new(7, 9)]);
''')
seed("S35d", "C35", [(HIST, "        self.dots.get(n).copied().unwrap_or(RuleDot::none())\n", "        self.dots[n.min(self.dots.len() - 1)]\n")],
     "a column beyond the third dot",
     "the third dot is shown for it",
     '''
    use cfg_history::earley::rule_dot::RuleDot;
    let (mut a, s) = gr(2, &[]);
    let mut h = History::new(7);
    h.dots = [RuleDot::new(7, 0), RuleDot::new(7, 1), RuleDot::new(7, 2)];
    a.rule(s[0]).history(h).rhs([s[1]; 4]);
    assert_eq!(a.column(3).next().unwrap().earley, Some(RuleDot::none()));
    assert_eq!(a.column(1).next().unwrap().earley, Some(RuleDot::new(7, 1)));
''')
RX = "cfg-regexp-logic/src/lib.rs"
seed("S02d", "C02", [(G, "        for rule in &mut self.rules {\n            rule.rhs = ", "        for rule in &mut self.rules {\n            if rule.rhs.len() > 1 && rule.rhs.first() == rule.rhs.last() {\n                // Reads the same both ways.\n                continue;\n            }\n            rule.rhs = ")],
     "reversing a grammar with a rule of four or more symbols that begins and ends with one symbol",
     "the rule is left as it was",
     '''
    let (mut a, _) = gr(3, &[(0, &[1, 2, 0, 1])]);
    a.reverse();
    assert_eq!(dump(&a), vec![(0, vec![1, 0, 2, 1])]);
''')
seed("S08c", "C08", [(PREC, "        let loosest_lhs = self.current_lhs;\n        for rule in self.rules_with_group_assoc.drain(..) {\n", "        let loosest_lhs = self.current_lhs;\n        let lhs = self.rules_with_group_assoc.first().map(|rule| rule.lhs);\n        for mut rule in self.rules_with_group_assoc.drain(..) {\n            rule.lhs = lhs.unwrap_or(rule.lhs);\n")],
     "alternatives of group associativity on two levels",
     "the second one gets the level of the first",
     '''
    use cfg_grammar::precedenced_rule::Associativity::Group;
    let (mut a, s) = gr(5, &[]);
    let _ = a.precedenced_rule(s[0]).associativity(Group).rhs([s[1], s[0], s[2]]).lower_precedence().associativity(Group).rhs([s[3], s[0], s[4]]).finalize();
    let l1 = a.rules().find(|r| r.rhs.len() == 3 && r.rhs[0] == s[1]).unwrap().lhs;
    let l2 = a.rules().find(|r| r.rhs.len() == 3 && r.rhs[0] == s[3]).unwrap().lhs;
    assert!(l1 != l2);
''')
seed("S16c", "C16", [("cfg-predict-sets/src/follow.rs", "        let mut roots = grammar.roots().to_vec();\n        roots.sort();\n", "        let roots = grammar.roots().to_vec();\n")],
     "more than one root, not in ascending order",
     "the end of input does not follow every root",
     '''
    let (mut a, s) = gr(5, &[(0, &[4]), (1, &[4]), (2, &[4])]);
    a.set_roots([s[2], s[1], s[0]]);
    let f = a.follow_sets();
    for i in 0..3 { assert!(f.predict_sets()[&s[i]].has_none()); }
''')
seed("S24b", "C24", [("cfg-generate/src/weighted/weighted_rhs_by_lhs.rs", "        let weighted_rhs_list = self.weights.entry(lhs).or_default();\n", "        let weighted_rhs_list = self.weights.entry(lhs).or_default();\n        if weighted_rhs_list.rhs_list.iter().any(|other| other.rhs == rhs) {\n            // This alternative is already there.\n            return;\n        }\n")],
     "a rule that is there twice",
     "it gets the share of one",
     '''
    let (mut a, s) = gr(3, &[(0, &[1]), (0, &[2]), (0, &[2])]);
    let _ = &mut a;
    // 0.4 of the total weight of 3 is in the share of the second alternative
    let mut src = ByteSource::new([(0.4 * 255.0) as u8].into_iter());
    let r = a.random(s[0], None, &mut src, &[], |_, _| None).unwrap();
    assert_eq!(r.0, vec![s[2]]);
''')
seed("S25c", "C25", [("cfg-load/src/basic.rs", "'a'..='z' | 'A'..='Z' | '_' | '0'..='9') = self.peek()", "'a'..='z' | 'A'..='Z' | '_' | '0'..='8') = self.peek()")],
     "a name with the digit nine",
     "the text is rejected",
     '''
    let a = Cfg::load("s ::= x9 x8;").unwrap();
    assert_eq!(a.rules().count(), 1);
''')
seed("S26d", "C26", [("cfg-load/src/advanced.rs", "                if result == \"lexer\" {\n", "                if result.starts_with(\"lexer\") {\n")],
     "a name that begins with the word lexer",
     "the text is rejected",
     '''
    let a = Cfg::load_advanced("lexer_rule ::= x;").unwrap();
    assert_eq!(a.cfg.rules().count(), 1);
''')
seed("S26e", "C26", [("cfg-load/src/advanced.rs", "                let lhs_sym = *sym_map\n                    .entry(lhs)\n", "                if is_lexer {\n                    for fragment in &rule.rhs {\n                        if let Fragment::Rhs { ident, .. } = fragment {\n                            lhs_in_parser.insert(intern.get_or_intern(&ident[..]));\n                        }\n                    }\n                }\n                let lhs_sym = *sym_map\n                    .entry(lhs)\n")],
     "a lexer rule that mentions the name of a later lexer rule",
     "a well-formed text is rejected",
     '''
    let a = Cfg::load_advanced("s ::= x; lexer { x ::= y; y ::= \\"a\\"; }");
    assert!(a.is_ok());
''')
seed("S27c", "C27", [(RX, "                for expr in exprs {\n                    alternatives.extend(self.walk_hir(expr, depth + 1));\n                }\n", "                for expr in exprs {\n                    let rhs = self.walk_hir(expr, depth + 1);\n                    if !alternatives.ends_with(&rhs[..rhs.len().min(1)]) {\n                        alternatives.extend(rhs);\n                    }\n                }\n")],
     "an alternation in which a group of alternatives starts with the alternative before it",
     "the other alternatives of the group are not matched",
     '''
    let (a, m) = Cfg::from_regexp("(?:ab|c)(?:xy|(xy|zw))").unwrap();
    let _ = m;
    assert_eq!(lang(&a, a.roots()[0].usize(), 4).len(), 4);
''')
seed("S28c", "C28", [(RX, "                .range(..=ch)\n", "                .range('\\u{80}'..=ch)\n")],
     "a character beyond ASCII in a range that begins in ASCII, with no range bounds in between",
     "the character is not found",
     '''
    let (_, mut m) = Cfg::from_regexp("[x-\\u{100}]").unwrap();
    m.compute();
    assert_eq!(m.get('y').len(), 1);
    assert_eq!(m.get('\\u{90}').len(), 1);
''')
seed("S21d", "C21", [("cfg-predict-distance/src/lib.rs", "    let dot_idx = match dots.binary_search(&(idx, 0)) {\n        Ok(pos) | Err(pos) => pos,\n    };\n", "    let dot_idx = match dots.binary_search_by_key(&idx, |&(rule_id, _)| rule_id) {\n        Ok(pos) | Err(pos) => pos,\n    };\n")],
     "several positions of one rule",
     "some of the positions are ignored",
     '''
    let (a, _) = gr(5, &[(0, &[4, 4, 4, 4, 4, 4])]);
    let mut m = MinimalDistance::new(&a);
    let d = m.minimal_distances(&[(0, 0), (0, 2), (0, 4), (0, 6)], DistanceDirection::Forward);
    assert_eq!(d[0], [0, 1, 0, 1, 0, 1, 0].map(Some).to_vec());
''')
seed("S20d", "C20", [(MAT, "            for &sym in rule.rhs.iter() {\n                derivation.set(rule.lhs, sym, true);\n", "            let mut rhs = rule.rhs.to_vec();\n            rhs.dedup_by_key(|sym| sym.usize() / 64 * 64 + sym.usize() % 32);\n            for sym in rhs {\n                derivation.set(rule.lhs, sym, true);\n")],
     "a rule with two symbols next to each other whose numbers differ by 32",
     "the second one is not said to be derived",
     '''
    let (a, s) = gr(70, &[(0, &[2, 34])]);
    let m = a.direct_derivation_matrix();
    assert!(m[(s[0], s[2])] && m[(s[0], s[34])]);
''')
seed("S30c", "C30", [("cfg-symbol/src/source.rs", "            ser::Fragment::Str(self.name.to_string().into())\n", "            ser::Fragment::Str(self.name.trim_matches('\\0').to_string().into())\n")],
     "a name that begins or ends with a null character",
     "the name read back is another one",
     '''
    let n: cfg_symbol::SymbolName = "\\0a\\0".into();
    let back: cfg_symbol::SymbolName = miniserde::json::from_str(&miniserde::json::to_string(&n)).unwrap();
    assert_eq!(n, back);
''')
DIST = "cfg-predict-distance/src/lib.rs"
FOLLOW = "cfg-predict-sets/src/follow.rs"
RAND = "cfg-generate/src/weighted/random.rs"
WRL = "cfg-generate/src/weighted/weighted_rhs_by_lhs.rs"
ADV = "cfg-load/src/advanced.rs"
BASIC = "cfg-load/src/basic.rs"
seed("S01c", "C01", [(SRC, "        self.names.push(name.map(|cow| cow.into()));\n", "        self.names\n            .push(name.filter(|cow| !cow.is_empty()).map(|cow| cow.into()));\n")],
     "a symbol whose name is the empty text",
     "the name is not kept",
     '''
    let mut s: SymbolSource = SymbolSource::new();
    let a = s.next_sym(Some("".into()));
    assert_eq!(s.original_name_of(a), Some(""));
''')
seed("S02e", "C02", [(G, "        self.rules.dedup_by_key(|rule| (rule.lhs, rule.rhs.clone()));\n", "        self.rules.dedup_by(|a, b| {\n            a.lhs == b.lhs\n                && a.rhs.len() == b.rhs.len()\n                && a.rhs.iter().take(4).eq(b.rhs.iter().take(4))\n        });\n")],
     "two rules next to each other of one left-hand side and length that differ from the fifth symbol on",
     "one of them is removed as a duplicate",
     '''
    let (mut a, _) = gr(4, &[(0, &[1, 2, 3, 1, 2]), (0, &[1, 2, 3, 1, 3])]);
    a.dedup();
    assert_eq!(a.rules().count(), 2);
''')
seed("S03d", "C03", [(G, "        while !rhs_rev.is_empty() {\n", "        while !rhs_rev.is_empty() && parts < 16 {\n")],
     "a rule that is split in more than sixteen parts",
     "the last parts are missing",
     '''
    let (mut a, _) = gr(2, &[(0, &[1; 20])]);
    a.limit_rhs_len(Some(2));
    let l = a.rules().filter(|r| r.lhs.usize() == 0).count();
    assert_eq!(l, 1);
''')
seed("S06d", "C06", [(CYC, "                        history: new_rule.history,\n", "                        history: cfg_history::RootHistoryNode::Rule { lhs: new_lhs_of(&translation, rule.lhs) }.into(),\n"),
                     (CYC, "/// Provides information about cycles among unit derivations in the grammar. There are two ways of\n", "fn new_lhs_of(\n    translation: &BTreeMap<cfg_symbol::Symbol, Option<cfg_symbol::Symbol>>,\n    sym: cfg_symbol::Symbol,\n) -> cfg_symbol::Symbol {\n    translation.get(&sym).copied().flatten().unwrap_or(sym)\n}\n\n/// Provides information about cycles among unit derivations in the grammar. There are two ways of\n")],
     "rules that mention symbols of a cycle, when cycles are rewritten",
     "the rules get a history as if they had just been made",
     '''
    let (mut a, _) = gr(4, &[(0, &[1]), (1, &[0]), (1, &[2, 1, 3]), (0, &[3])]);
    Cycles::new(&mut a).rewrite_cycles();
    let mut o: Vec<_> = a.rules().map(|r| r.history.origin()).collect();
    o.sort();
    assert_eq!(o, vec![Some(3), Some(4)]);
''')
seed("S22b", "C22", [(G, "                    .try_fold(0, |acc, elem| value[elem.usize()].map(|val| acc + val));\n", "                    .try_fold(0u32, |acc, elem| {\n                        value[elem.usize()].map(|val| (acc + val).min(u16::MAX as u32))\n                    });\n")],
     "values that add up to more than 65535",
     "the sum is cut off",
     '''
    let (mut a, _) = gr(3, &[(0, &[1, 2])]);
    let mut v = vec![None, Some(60000), Some(6000)];
    a.rhs_closure_with_values(&mut v);
    assert_eq!(v[0], Some(66000));
''')
seed("S11c", "C11", [(USE, "        for &sym in syms.as_ref() {\n            for derived", "        let already = self.reachable_syms.clone();\n        for &sym in syms.as_ref().iter().rev().take_while(|&&sym| !already[sym]) {\n            for derived")],
     "reachability marked from several symbols of which the last one was reachable already",
     "some of the symbols given are skipped",
     '''
    let (a, s) = gr(6, &[(0, &[1]), (1, &[2]), (3, &[4]), (5, &[4])]);
    let mut u = cfg_classify::useful::Usefulness::new(&a);
    u.reachable([s[0]]);
    u.reachable([s[3], s[1]]);
    u.reachable([s[5]]);
    assert!(u.all_reachable());
''')
seed("S16d", "C16", [(FOLLOW, "                        changed |= prev_cardinality != followed.len();\n", "                        changed |= prev_cardinality < followed.iter().count();\n"),
                     (FOLLOW, "                        let prev_cardinality = followed.len();\n", "                        let prev_cardinality = followed.iter().count();\n")],
     "a pass in which the only news is that the end of input follows a symbol",
     "the sets are not carried on to the symbols at the end of its rules",
     '''
    let (mut a, s) = gr(4, &[(2, &[3]), (1, &[2]), (0, &[1])]);
    a.set_roots([s[0]]);
    let f = a.follow_sets();
    assert!(f.predict_sets()[&s[2]].has_none());
''')
seed("S21e", "C21", [(DIST, "            for (idx, rule) in self.grammar.rules().enumerate() {\n                for reverse", "            for (idx, rule) in self.grammar.rules().enumerate() {\n                changed = false;\n                for reverse")],
     "a pass in which the last rule brings no news but others do",
     "distances stay too long or unknown",
     '''
    let (a, _) = gr(6, &[(0, &[1, 5]), (1, &[2, 5]), (2, &[3, 5]), (3, &[4, 5]), (4, &[5])]);
    let mut m = MinimalDistance::new(&a);
    let d = m.minimal_distances(&[(4, 1)], DistanceDirection::Forward).to_vec();
    assert_eq!(d[0][0], Some(1));
''')
seed("S20e", "C20", [(BITS, "        self.bit_vec = BitVec::new();\n        self.bit_vec\n            .extend(iter::repeat(true).take(symbol_source.num_syms()));\n", "        self.bit_vec.set_all();\n        let more = symbol_source.num_syms().saturating_sub(self.space());\n        self.bit_vec.extend(iter::repeat(true).take(more));\n")],
     "a set used for a grammar, then for a smaller one",
     "the set has members beyond the symbols of the grammar",
     '''
    let (a, _) = gr(9, &[(0, &[1])]);
    let (b, _) = gr(3, &[(0, &[1])]);
    let mut set = SymbolBitSet::new();
    set.terminal(&a);
    set.terminal(&b);
    assert_eq!(set.iter().count(), 2);
''')
seed("S23d", "C23", [(RAND, "                    .and_then(|back| back.iter().find(|state| string.ends_with(state.forbidden)));\n", "                    .and_then(|back| back.last().filter(|state| string.ends_with(state.forbidden)));\n")],
     "two forbidden texts of one length at the same place",
     "the first of them is let through",
     '''
    let (a, s) = gr(6, &[(0, &[1, 2, 3]), (1, &[]), (2, &[]), (3, &[4]), (3, &[5])]);
    for k in 0..60u8 {
        let bytes = [k, k.wrapping_mul(7), 200, 3, 90, 180, 11, 250, 77, 130, 5, 66, 190, 222];
        let mut src = ByteSource::new(bytes.iter().copied().cycle());
        let neg = [NegativeRule { sym: s[1], chars: "x" }, NegativeRule { sym: s[2], chars: "y" }];
        let r = a.random(s[0], Some(Limits { terminals: 9, negative_rule_attempts: 40 }), &mut src, &neg,
            |t, _: &mut _| Some(if t == s[4] { 'x' } else { 'y' }));
        assert!(r.is_err(), "{:?}", r);
    }
''')
seed("S24c", "C24", [(WRL, "            let weight = rule.history.weight.unwrap_or(1000) as f64 / 1000f64;\n", "            let weight = rule.history.weight.unwrap_or(1000).max(10) as f64 / 1000f64;\n")],
     "a rule with a weight below one hundredth",
     "the rule is taken more often than its weight says",
     '''
    #[derive(Clone)]
    struct At(f64);
    impl cfg_generate::weighted::random::GenRange for At {
        fn generate(&mut self, limit: f64) -> f64 { self.0 * limit }
        fn mutate_start(&mut self, _: u64) {}
    }
    let (w, _) = a.random(s, None, &mut At(0.502), &[], |_, _| None).unwrap();
    assert_eq!(w, [x]);
''')
seed("S07c", "C07", [(SEQ, "                        sequence.range(start - 1..=start - 1),\n                        sequence.inclusive(1, end.map(|end| end - start + 1)),\n", "                        sequence.range(start - 1..=start - 1),\n                        sequence.inclusive(1, end.map(|end| (end - start).max(15) + 1).filter(|_| end.is_some_and(|end| end - start != 14))),\n")],
     "a sequence of at least two elements with fourteen or less places to spare",
     "more elements are accepted",
     '''
    let mut a = Cfg::new();
    let [l, r] = a.sym();
    a.sequence(l).inclusive(2, Some(4)).rhs(r);
    assert_eq!(lang(&a, 0, 6).len(), 3);
''')
seed("S08d", "C08", [(PREC, "        for rule in self.rules_with_group_assoc.drain(..) {\n", "        let first = self.rules_with_group_assoc.len().saturating_sub(4);\n        for rule in self.rules_with_group_assoc.drain(first..) {\n")],
     "five or more alternatives of group associativity",
     "the first ones are lost",
     '''
    let mut a = Cfg::new();
    let [e, l, r, m, n, o, p] = a.sym();
    use cfg_grammar::precedenced_rule::Associativity::Group;
    a.precedenced_rule(e).rhs([p])
        .associativity(Group).rhs([l, e]).associativity(Group).rhs([r, e]).associativity(Group).rhs([m, e])
        .associativity(Group).rhs([n, e]).associativity(Group).rhs([o, e]).finalize();
    assert!(lang(&a, 0, 2).contains(&vec![1, 6]));
''')
seed("S12c", "C12", [(USE, "            grammar.retain(rule_is_useful);\n", "            let mut removed = 0;\n            grammar.retain(|rule| {\n                let useful = rule_is_useful(rule) || removed >= 4;\n                removed += !useful as usize;\n                useful\n            });\n")],
     "nine or more useless rules",
     "the ninth and the following are kept",
     '''
    use cfg_classify::CfgClassifyExt;
    let (mut a, s) = gr(3, &[(0, &[2]), (1, &[2]), (1, &[2, 2]), (1, &[2, 2, 2]), (1, &[2, 2, 2, 2]), (1, &[]), (1, &[0]), (1, &[1]), (1, &[1, 1]), (1, &[0, 0])]);
    a.set_roots([s[0]]);
    a.make_proper();
    assert_eq!(a.rules().count(), 1);
''')
seed("S25d", "C25", [(BASIC, "                        let rhs_sym = *sym_map.entry(id).or_insert_with(|| {\n                            cfg.sym_source_mut()\n                                .next_sym(Some(fragment.ident[..].into()))\n                        });\n", "                        let rhs_sym = if matches!(fragment.rep, Rep::None) || sym_map.len() < 12 {\n                            *sym_map.entry(id).or_insert_with(|| {\n                                cfg.sym_source_mut()\n                                    .next_sym(Some(fragment.ident[..].into()))\n                            })\n                        } else {\n                            cfg.sym_source_mut()\n                                .next_sym(Some(fragment.ident[..].into()))\n                        };\n")],
     "a repeated symbol in a text of twelve or more names",
     "the repeated symbol is another one than the one of that name elsewhere",
     '''
    let a = Cfg::load("s ::= a b c d e f g h i j k l m; m ::= m2; s ::= m*; ").unwrap();
    assert_eq!(a.rules().filter(|r| r.rhs.iter().any(|x| &*a.sym_source().name_of(*x) == "m")).map(|r| r.rhs.iter().copied().filter(|x| &*a.sym_source().name_of(*x) == "m").next().unwrap()).collect::<BTreeSet<_>>().len(), 1);
''')
seed("S26f", "C26", [(ADV, "                            let id = lex_string_intern.get_or_intern(&string[..]);\n", "                            let id = lex_string_intern.get_or_intern(string.trim_end());\n")],
     "two strings that differ in the white space at the end",
     "the strings are taken for one",
     '''
    let a = Cfg::load_advanced("s ::= \\"a\\" ~ \\"a \\";").unwrap();
    let r = a.cfg.rules().find(|r| r.rhs.len() == 2 && r.lhs == a.cfg.roots()[0]).unwrap();
    assert_ne!(r.rhs[0], r.rhs[1]);
''')
seed("S27d", "C27", [(RX, "                    match x.len() {\n                        0 => {}\n", "                    match x.len() {\n                        0 => {}\n                        2 if x[0] == x[1] || x[0].is_empty() && x[1].len() > 3 => {\n                            result.extend(x.into_iter().nth(1).unwrap());\n                        }\n")],
     "an optional group written as an empty alternative before four or more characters, next to other parts",
     "the group is no longer optional",
     '''
    let (a, _) = Cfg::from_regexp("x(|abca)y").unwrap();
    assert_eq!(lang(&a, a.roots()[0].usize(), 8).len(), 2);
''')
seed("S28d", "C28", [(RX, "                    work.remove(&symbol);\n", "                    if work.len() < 4 {\n                        work.remove(&symbol);\n                    }\n")],
     "four or more classes in force at a character beyond ASCII at which one ends",
     "the class goes on",
     '''
    let (_, mut m) = Cfg::from_regexp("[\\u{100}-\\u{200}][\\u{110}-\\u{210}][\\u{120}-\\u{220}][\\u{130}-\\u{230}]").unwrap();
    m.compute();
    assert_eq!(m.get('\\u{205}').len(), 3);
''')
seed("S29c", "C29", [(G, "        self.wrapped_roots.clear();\n        let roots_len", "        if self.roots.is_empty() {\n            return;\n        }\n        self.wrapped_roots.clear();\n        let roots_len")],
     "a grammar wrapped, left without roots and wrapped again",
     "the list of wrapped roots keeps those of the first time",
     '''
    let (mut a, s) = gr(2, &[(0, &[1])]);
    a.set_roots([s[0]]);
    a.wrap_input();
    a.set_roots([]);
    a.wrap_input();
    assert!(a.wrapped_roots().is_empty());
''')
seed("S32c", "C32", [(G, "            && self.rhs.len() == other.rhs.len()\n", "            && (self.rhs.len() == other.rhs.len()\n                || self.rhs.len() > 4 && other.rhs.len() > self.rhs.len())\n")],
     "two rules of which the first has more than four symbols and is a proper prefix of the other",
     "the rules are said to be equal",
     '''
    let n = |k: usize| cfg_grammar::NamedCfgRule::new((0..k).map(|i| Some(format!("n{i}").as_str().into())).collect());
    assert!(n(6) != n(7));
''')
seed("S33c", "C33", [(ADV, "            if token != Token::Whitespace {\n                result.push((token, line_no, col_no));\n", "            if token != Token::Whitespace {\n                if let Token::BnfOp = token {\n                    col_no += (line_no > 9) as usize;\n                }\n                result.push((token, line_no, col_no));\n")],
     "a misplaced ::= below the ninth line",
     "the column is one too high",
     '''
    let e = Cfg::load_advanced("\\n\\n\\n\\n\\n\\n\\n\\n\\n\\n s ::= ::= x;").err().unwrap();
    assert_eq!((e.line, e.col), (11, 8));
''')
seed("S10b", "C10", [(CYC, "                let mut new_rule = rule.clone();\n", "                if rule.rhs.len() > 6 && !translation.contains_key(&rule.rhs[rule.rhs.len() - 1]) {\n                    return true;\n                }\n                let mut new_rule = rule.clone();\n")],
     "a rule of seven or more symbols that mentions symbols of a cycle but does not end in one",
     "the rule goes on using symbols that lost their rules",
     '''
    let (mut a, _) = gr(4, &[(0, &[1]), (1, &[0]), (0, &[3]), (2, &[1, 3, 3, 3, 3, 3, 3])]);
    Cycles::new(&mut a).rewrite_cycles();
    assert!(lang(&a, 2, 8).contains(&vec![3; 7]));
''')
seed("S13d", "C13", [("cfg-symbol/src/intern.rs", "            .map(|middle| self.to_external[middle.usize()])\n", "            .map(|middle| {\n                if self.to_external.len() > 16 {\n                    *middle\n                } else {\n                    self.to_external[middle.usize()]\n                }\n            })\n")],
     "two reorderings of a grammar of more than sixteen symbols in one session",
     "the map from new to old numbers forgets the first of them",
     '''
    let (mut a, s) = gr(18, &[(0, &[1])]);
    let mut r = Remap::new(&mut a);
    r.reorder_symbols(|x, y| y.usize().cmp(&x.usize()));
    r.reorder_symbols(|x, y| y.usize().cmp(&x.usize()));
    let m = r.get_mapping();
    assert_eq!(m.to_external[0], s[0]);
''')
seed("S14c", "C14", [(REMAP, "        let unused_symbols = self.grammar.unused_symbols();\n        self.reorder", "        let mut unused_symbols = self.grammar.unused_symbols();\n        for wrapped_root in self.grammar.wrapped_roots() {\n            unused_symbols.set(wrapped_root.start_of_input, false);\n            unused_symbols.set(wrapped_root.end_of_input, false);\n        }\n        for sym in self.grammar.roots() {\n            unused_symbols.set(*sym, self.grammar.num_syms() > 24);\n        }\n        self.reorder")],
     "a grammar of more than twenty-four symbols with a root",
     "the root counts as unused",
     '''
    let (mut a, s) = gr(26, &[(0, &[25])]);
    a.set_roots([s[0]]);
    Remap::new(&mut a).remove_unused_symbols();
    assert_eq!(a.num_syms(), 2);
    assert_eq!(a.rules().next().unwrap().lhs, a.roots()[0]);
    assert!(a.roots()[0].usize() < 2);
''')
seed("S18c", "C18", [("cfg-classify/src/lr.rs", "                for (rule_idx, rule) in self.grammar.rules().enumerate() {\n", "                if items.map.len() > 40 {\n                    continue;\n                }\n                for (rule_idx, rule) in self.grammar.rules().enumerate() {\n")],
     "an item set of more than forty items",
     "the closure is left incomplete",
     '''
    use cfg_classify::lr::*;
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    for i in 0..45 { rules.push((i, vec![i + 1])); }
    let refs: Vec<(usize, &[usize])> = rules.iter().map(|(l, r)| (*l, &r[..])).collect();
    let (mut a, s) = gr(46, &refs);
    let fsm = Lr0FsmBuilder::new(&mut a).make_lr0_fsm(s[0]);
    assert_eq!(fsm[0].items.map.len(), 46);
''')
seed("S19d", "C19", [("cfg-classify/src/recursive.rs", "    if rule.rhs.len() == 0 {\n", "    if rule.rhs.len() == 0 || rule.lhs.usize() >= 64 && rule.rhs.len() == 1 {\n")],
     "a recursive rule of one symbol for a symbol after the sixty-fourth",
     "the rule is not reported",
     '''
    let (a, _) = gr(70, &[(65, &[65]), (65, &[1])]);
    let r = cfg_classify::recursive::Recursion::new(&a);
    assert_eq!(r.recursive_rules().count(), 1);
''')
seed("S17c", "C17", [("cfg-classify/src/ll.rs", "            if rules.len() > 1 {\n", "            let mut rules = rules.clone();\n            rules.dedup_by_key(|&mut idx| self.grammar.rules().nth(idx).map(|rule| rule.rhs.first().copied().filter(|_| rule.rhs.len() > 5)).unwrap_or(None).map_or((Some(idx), None), |sym| (None, Some(sym))));\n            if rules.len() > 1 {\n")],
     "two rules of six or more symbols that begin with the same symbol",
     "no conflict is seen",
     '''
    use cfg_classify::ll::*;
    let (mut a, s) = gr(3, &[(0, &[1, 1, 1, 1, 1, 1]), (0, &[1, 1, 1, 1, 1, 2])]);
    a.set_roots([s[0]]);
    let t = LlParseTable::new(&a);
    assert_eq!(t.classify().classes()[&s[0]], LlNonterminalClass::ContextFree);
''')
seed("S31c", "C31", [(G, "            rule.rhs = rule.rhs.iter().copied().rev().collect();\n", "            if rule.rhs.len() > 1 && rule.rhs.windows(2).all(|w| w[0] <= w[1]) && rule.rhs.len() > 3 {\n                continue;\n            }\n            rule.rhs = rule.rhs.iter().copied().rev().collect();\n")],
     "a rule of four or more symbols in ascending order, reversed",
     "the rule stays as it was",
     '''
    let (mut a, _) = gr(5, &[(0, &[1, 2, 3, 4])]);
    a.reverse();
    assert_eq!(dump(&a)[0].1, vec![4, 3, 2, 1]);
''')
seed("S09d", "C09", [(CYC, "                .all(|i| !self.unit_derivation[(i, i)])\n", "                .zip(0..63)\n                .all(|(i, _)| !self.unit_derivation[(i, i)])\n")],
     "a cycle of symbols beyond the sixty-third",
     "the cycle is not seen",
     '''
    let (a, _) = gr(70, &[(65, &[66]), (66, &[65])]);
    assert!(!Cycles::new(&a).cycle_free());
''')
seed("S05c", "C05", [(G, "                    result\n                        .rule(rule.lhs)\n                        .history(history)\n                        .rhs(&rule.rhs[which.as_range()]);\n", "                    if result.rules().all(|other| other.rhs[..] != rule.rhs[..] || other.rhs.len() < 2) {\n                        result\n                            .rule(rule.lhs)\n                            .history(history)\n                            .rhs(&rule.rhs[which.as_range()]);\n                    }\n")],
     "two nullable rules of two symbols with the same right-hand side and different left-hand sides",
     "the nulling grammar lacks the second one",
     '''
    let (mut a, _) = gr(4, &[(0, &[2, 3]), (1, &[2, 3]), (2, &[]), (3, &[])]);
    let n = a.binarize_and_eliminate_nulling_rules();
    assert_eq!(n.rules().count(), 4);
''')
# --- batch of the last session
seed("S03e", "C03", [(G, "                .saturating_sub(self.rule_rhs_len_allowed_range().end);\n            tail", "                .saturating_sub({\n                    let end = self.rule_rhs_len_allowed_range().end;\n                    if end > 4 && rhs_rev.len() == end + 1 { end + 1 } else { end }\n                });\n            tail")],
     "a limit of five or more and a rule whose last piece is one symbol longer than that",
     "the last piece is one symbol too long",
     '''
    let (mut a, _) = gr(2, &[(0, &[1, 1, 1, 1, 1, 1])]);
    a.limit_rhs_len(Some(5));
    assert!(a.rules().all(|r| r.rhs.len() <= 5));
''')
seed("S04c", "C04", [(G, "                    if num == 2 {\n", "                    if num == 2 && rule.rhs[1] != rule.lhs {\n")],
     "a rule of two symbols that both can vanish, the second being its left-hand side",
     "the form without the second symbol is missing, so the first one's strings are lost when nothing else leads to them",
     '''
    let (mut a, _) = gr(3, &[(0, &[1, 0]), (0, &[]), (1, &[2]), (1, &[])]);
    a.binarize_and_eliminate_nulling_rules();
    assert!(lang(&a, 0, 2).contains(&vec![2]));
''')
seed("S07d", "C07", [(SEQ, "                    sequence.range(1..=end - pow2),\n", "                    sequence.range(1..=if end > 16 { (end - pow2).max(2) } else { end - pow2 }),\n")],
     "a sequence of one to 17, 33, .. elements",
     "one element more is accepted",
     '''
    let mut a = Cfg::new();
    let [s, x] = a.sym();
    a.sequence(s).inclusive(1, Some(17)).rhs(x);
    assert!(!lang(&a, 0, 20).contains(&vec![1; 18]));
''')
seed("S09e", "C09", [(CYC, "                rule.rhs.len() == 1 && self.unit_derivation[(rule.rhs[0], rule.lhs)],\n", "                rule.rhs.len() == 1\n                    && rule.rhs[0] != rule.lhs\n                    && self.unit_derivation[(rule.rhs[0], rule.lhs)],\n")],
     "a rule A ::= A where A is on a cycle with other symbols",
     "the rule is said not to participate",
     '''
    let (mut a, _) = gr(3, &[(0, &[1]), (1, &[0]), (0, &[0]), (1, &[2])]);
    let c = Cycles::new(&mut a);
    assert_eq!(c.cycle_participants(true).count(), 3);
''')
seed("S10c", "C10", [(CYC, "                let mut new_rule = rule.clone();\n", "                if rule.rhs.is_empty() {\n                    return true;\n                }\n                let mut new_rule = rule.clone();\n")],
     "an empty rule of a symbol on a cycle that is not the one which stands for the cycle",
     "the empty string is lost",
     '''
    let (mut a, _) = gr(3, &[(0, &[1]), (1, &[0]), (0, &[2]), (1, &[])]);
    Cycles::new(&mut a).rewrite_cycles();
    assert!(lang(&a, 0, 2).contains(&vec![]));
''')
seed("S11d", "C11", [(USE, "        let productive = rule.rhs.iter().all(|&sym| self.productivity[sym]);\n", "        let productive = rule\n            .rhs\n            .iter()\n            .all(|&sym| self.productivity[sym] || rule.rhs.len() > 2 && sym == rule.lhs);\n")],
     "an unproductive rule of three or more symbols in which only its own left-hand side is unproductive",
     "the rule is reported productive",
     '''
    let (mut a, s) = gr(2, &[(0, &[1, 0, 1])]);
    let u = a.usefulness_with_roots(&[s[0]]);
    assert_eq!(u.useless_rules(&a).count(), 1);
    assert!(!u.usefulness(a.rules().next().unwrap()).usefulness().productive);
''')
seed("S12d", "C12", [("cfg-classify/src/lib.rs", "        let contains_useless_rules = !usefulness.all_useful();\n", "        let contains_useless_rules = !usefulness.all_useful() && self.rules().nth(1).is_some();\n")],
     "a grammar of one rule, which is useless",
     "the rule is kept and the grammar said to be proper",
     '''
    let (mut a, s) = gr(2, &[(0, &[0, 1])]);
    a.set_roots([s[0]]);
    assert!(!a.make_proper());
    assert_eq!(a.rules().count(), 0);
''')
seed("S13e", "C13", [(REMAP, "rule.rhs.iter().all(|&sym| map(sym) == sym) {\n", "rule.rhs.iter().take(4).all(|&sym| map(sym) == sym) {\n")],
     "a rule that only has symbols with a new number from the fifth symbol on",
     "the rule keeps the old numbers",
     '''
    let (mut a, s) = gr(4, &[(0, &[1, 1, 1, 1, 2, 3])]);
    a.remap().remap_symbols(|x| if x == s[2] { s[3] } else if x == s[3] { s[2] } else { x });
    assert_eq!(dump(&a), vec![(0, vec![1, 1, 1, 1, 3, 2])]);
''')
seed("S22c", "C22", [(G, "                        if current_value <= work_value {\n", "                        if current_value <= work_value\n                            || rule.rhs.len() > 2 && current_value - work_value == 1\n                        {\n")],
     "a rule of three or more symbols that lowers a value by one",
     "the value stays as it was",
     '''
    let (mut a, _) = gr(4, &[(0, &[1]), (0, &[2, 2, 2])]);
    let mut v = vec![Some(4), None, Some(1), None];
    a.rhs_closure_with_values(&mut v);
    assert_eq!(v[0], Some(3));
''')
seed("S27e", "C27", [(RX, "self.cfg.sequence(lhs).inclusive(rep.min, rep.max).rhs(rhs);", "self.cfg\n                    .sequence(lhs)\n                    .inclusive(rep.min, rep.max.filter(|&max| rep.min == 0 || max < 8))\n                    .rhs(rhs);")],
     "a repetition with a least number above zero and a greatest of eight or more",
     "there is no greatest number any more",
     '''
    let (a, _) = Cfg::from_regexp("x{2,8}").unwrap();
    assert!(!lang(&a, a.roots()[0].usize(), 9).iter().any(|w| w.len() == 9));
''')
seed("S28e", "C28", [(RX, "        if ch.is_ascii() {\n            &self.ascii", "        if (ch as usize) < self.ascii.len() {\n            &self.ascii")],
     "looking up a character from 128 to 255 in a class that begins beyond ASCII",
     "the class is not found",
     '''
    let (_, mut m) = Cfg::from_regexp("[\\u{e0}-\\u{ff}]").unwrap();
    m.compute();
    assert_eq!(m.get('\\u{e9}').len(), 1);
''')
seed("S30d", "C30", [(SRC, "            ser::Fragment::Str(self.name.to_string().into())\n", "            if self.name.is_empty() {\n                ser::Fragment::Null\n            } else {\n                ser::Fragment::Str(self.name.to_string().into())\n            }\n")],
     "an empty name written as JSON",
     "it is written as null, which is no name",
     '''
    use cfg_symbol::intern::*;
    let n: cfg_symbol::SymbolName = "".into();
    assert_eq!(miniserde::json::to_string(&n), "\\"\\"");
''')
seed("S31d", "C31", [(G, "        for rule in &mut self.rules {\n            rule.rhs = rule.rhs.iter().copied().rev().collect();\n", "        for rule in &mut self.rules {\n            if self.wrapped_roots.iter().any(|w| w.root == rule.lhs) {\n                continue;\n            }\n            rule.rhs = rule.rhs.iter().copied().rev().collect();\n")],
     "reversing a grammar after its input was wrapped",
     "the rules of the wrapped roots stay as they were",
     '''
    let (mut a, s) = gr(2, &[(0, &[1])]);
    a.set_roots([s[0]]);
    a.wrap_input();
    let w = a.wrapped_roots()[0];
    a.reverse();
    assert!(a.rules().any(|r| r.lhs == w.root && r.rhs[0] == w.end_of_input));
''')
seed("S05e", "C05", [(G, "                    result\n                        .rule(rule.lhs)\n", "                    if num == 2 && rule.rhs[0] == rule.rhs[1] && rule.rhs[0] == rule.lhs {\n                        continue;\n                    }\n                    result\n                        .rule(rule.lhs)\n")],
     "a rule A ::= A A where A can vanish",
     "the rule is missing from the nulling part",
     '''
    let (mut a, _) = gr(2, &[(0, &[0, 0]), (0, &[]), (0, &[1])]);
    let n = a.binarize_and_eliminate_nulling_rules();
    assert_eq!(n.rules().count(), 2);
''')
seed("S06e", "C06", [(CYC, "                        history: new_rule.history,\n", "                        history: if new_rule.lhs == rule.lhs || rule.rhs.len() < 3 {\n                            new_rule.history\n                        } else {\n                            cfg_history::RootHistoryNode::Rule { lhs: rule.lhs }.into()\n                        },\n")],
     "cycles rewritten where a rule of three or more symbols moves to another left-hand side",
     "its origin is lost",
     '''
    let (mut a, _) = gr(3, &[(0, &[1]), (1, &[0]), (1, &[2, 2, 2])]);
    Cycles::new(&mut a).rewrite_cycles();
    assert!(a.rules().any(|r| r.history.origin().id == 3));
''')
seed("S34c", "C34", [(REMAP, "        for rule in added_rules {\n            self.grammar.add_rule(rule);\n        }\n", "        if self.grammar.has_roots() {\n            for rule in std::mem::take(&mut added_rules) {\n                self.grammar.add_rule(rule);\n            }\n        }\n        let mut by_lhs: std::collections::HashMap<Symbol, Vec<CfgRule>> = Default::default();\n        for rule in added_rules {\n            by_lhs.entry(rule.lhs).or_default().push(rule);\n        }\n        for (_, rules) in by_lhs {\n            for rule in rules {\n                self.grammar.add_rule(rule);\n            }\n        }\n")],
     "renumbering the symbols of a grammar without roots in which several left-hand sides get new numbers, twice",
     "the order of the rules differs from one run to another",
     '''
    let rs: Vec<(usize, Vec<usize>)> = (0..20).map(|i| (i, vec![20])).collect();
    let run = || {
        let r: Vec<(usize, &[usize])> = rs.iter().map(|x| (x.0, &x.1[..])).collect();
        let (mut a, s) = gr(21, &r);
        a.remap().remap_symbols(|x| s[20 - x.usize()]);
        dump(&a)
    };
    let first = run();
    assert!((0..20).all(|_| run() == first));
''')
seed("S35e", "C35", [(HIST, "                (_, SymKind::Element) => self.dots[0],\n                _ => RuleDot::none(),\n", "                (_, SymKind::Element) if i < 2 => self.dots[0],\n                _ => RuleDot::none(),\n"),
                     (HIST, "                (SymKind::Separator, _) => self.dots[2],\n", "                (SymKind::Separator, SymKind::Other) if i == 2 => self.dots[1],\n                (SymKind::Separator, _) => self.dots[2],\n")],
     "a rule of a sequence with a separator at its very end",
     "the dot after the separator is taken for one after an element",
     '''
    let mut a = Cfg::new();
    let [s, x, sep] = a.sym();
    let mut h = History::new(1);
    h.dots = [cfg_history::earley::rule_dot::RuleDot::new(1, 10), cfg_history::earley::rule_dot::RuleDot::new(1, 20), cfg_history::earley::rule_dot::RuleDot::new(1, 30)];
    a.sequence(s).separator(Separator::Trailing(sep)).inclusive(1, None).rhs_with_history(x, Some(h));
    let r = a.rules().find(|r| r.rhs.last() == Some(&sep)).unwrap();
    assert_eq!(r.history.dot(2), h.dots[2]);
''')
seed("S23e", "C23", [(RND, "                    *rng = state.rng.clone();\n                    string.truncate(string.len() - state.forbidden.len());\n", "                    *rng = state.rng.clone();\n                    string.truncate(string.len() - state.forbidden.len().min(4));\n")],
     "a forbidden text of five or more characters",
     "characters of the text remain when it is taken back",
     '''
    let (a, s) = gr(9, &[(0, &[1, 2]), (2, &[3, 4, 5, 6, 7]), (2, &[3]), (1, &[])]);
    let to = |x: Symbol, _: &mut ByteSource<std::iter::Cycle<std::vec::IntoIter<u8>>>| Some((b'a' + x.usize() as u8 - 3) as char);
    let bytes = vec![0u8, 200, 3, 99, 255, 17, 130, 60, 5].into_iter().cycle();
    let mut ok = 0;
    for skip in 0..9 {
        let mut r = ByteSource::new(bytes.clone());
        for _ in 0..skip { r.generate(1.0); }
        if let Ok((w, t)) = a.random(s[0], Some(Limits { terminals: 20, negative_rule_attempts: 50 }), &mut r, &[NegativeRule { sym: s[1], chars: "abcde" }], to) {
            assert_eq!(w.len(), t.len());
            ok += 1;
        }
    }
    assert!(ok > 0);
''')
seed("S02f", "C02", [(G, "            let mut roots = self.roots.clone();\n            roots.sort();\n", "            let roots = self.roots.clone();\n")],
     "a grammar of wrapped roots only, listed in another order than that of their numbers",
     "the grammar is said not to be empty",
     '''
    let (mut a, s) = gr(4, &[]);
    a.set_roots([s[0], s[1], s[2]]);
    a.wrap_input();
    let r: Vec<Symbol> = a.roots().iter().copied().rev().collect();
    a.set_roots(&r[..]);
    assert!(a.is_empty());
''')
seed("S02g", "C02", [("cfg-grammar/src/rule_builder.rs", "        self.lhs = Some(lhs);\n        self.history = None;\n", "        self.lhs = Some(lhs);\n")],
     "a builder that is given a history and then starts a new rule without one",
     "the new rule takes over the history",
     '''
    let (mut a, s) = gr(2, &[]);
    a.rule(s[0]).history(History::new(5)).rule(s[1]).rhs([s[0]]);
    assert_eq!(a.rules().next().unwrap().history.origin().id, 0);
''')
seed("S10d", "C10", [(CYC, "            for wrapped_root in &mut wrapped_roots {\n", "            for wrapped_root in wrapped_roots.iter_mut().take(2) {\n")],
     "three wrapped roots of which the third is on a cycle and not the symbol which stands for it",
     "the list of wrapped roots names a symbol that lost its rules",
     '''
    let (mut a, s) = gr(6, &[(0, &[5]), (1, &[5]), (2, &[3]), (3, &[2]), (2, &[5])]);
    a.set_roots([s[0], s[1], s[3]]);
    a.wrap_input();
    Cycles::new(&mut a).rewrite_cycles();
    assert_eq!(a.wrapped_roots()[2].inner_root, s[2]);
''')
seed("S10e", "C10", [(CYC, "                for sym in &mut rhs {\n", "                for sym in rhs.iter_mut().take(5) {\n")],
     "a rule with a symbol of a cycle in sixth place or later",
     "the symbol is left in use without rules",
     '''
    let (mut a, s) = gr(4, &[(0, &[1]), (1, &[0]), (1, &[2]), (3, &[2, 2, 2, 2, 2, 1])]);
    Cycles::new(&mut a).rewrite_cycles();
    assert!(a.rules().all(|r| !r.rhs.contains(&s[1])));
''')
seed("S21f", "C21", [("cfg-predict-distance/src/lib.rs", "        while changed {\n            // Keep going for as long as any distances were lowered in the last pass.\n            changed = false;\n", "        let mut passes = 0;\n        while changed && passes < 9 {\n            // Keep going for as long as any distances were lowered in the last pass.\n            changed = false;\n            passes += 1;\n")],
     "news that take ten or more passes over the rules to get to the last one",
     "distances stay unknown",
     '''
    let rs: Vec<(usize, Vec<usize>)> = (0..14).map(|i| (i, vec![i + 1])).collect();
    let r: Vec<(usize, &[usize])> = rs.iter().map(|x| (x.0, &x.1[..])).collect();
    let (a, _) = gr(15, &r);
    let mut d = cfg_predict_distance::MinimalDistance::new(&a);
    let d = d.minimal_distances(&[(13, 1)], cfg_predict_distance::DistanceDirection::Symmetric);
    assert!(d[0][0].is_some());
''')
seed("S22d", "C22", [(G, "                    RhsPropertyMode::All => rhs_iter.all(get_property),\n", "                    RhsPropertyMode::All => rhs_iter.by_ref().take(8).all(get_property),\n")],
     "a rule of nine or more symbols whose first eight have the property",
     "its left-hand side is given the property although a later symbol lacks it",
     '''
    let (a, s) = gr(3, &[(0, &[1, 1, 1, 1, 1, 1, 1, 1, 2])]);
    let mut p = cfg_grammar::symbol_bit_set::SymbolBitSet::from_elem(&a, false);
    p.set(s[1], true);
    a.rhs_closure_for_all(&mut p);
    assert!(!p[s[0]]);
''')
seed("S32d", "C32", [(G, "        let no_names = self.sym_source.names().iter().all(|name| name.is_none());\n", "        let no_names = self.sym_source.names().iter().take(8).all(|name| name.is_none());\n")],
     "eight or more symbols without names before the first one with a name",
     "the names are not shown",
     '''
    let (mut a, s) = gr(9, &[(0, &[1])]);
    let t = a.next_sym(Some("t".into()));
    a.rule(s[0]).rhs([t]);
    assert!(a.stringify_to_bnf().contains("t(9)"));
''')
seed("S08e", "C08", [(PREC, "                for sym in iter {\n                    *sym = self.tighter_lhs;\n", "                for sym in iter.take(3) {\n                    *sym = self.tighter_lhs;\n")],
     "an alternative with five or more operands",
     "the last of them may be of any precedence",
     '''
    let mut a = Cfg::new();
    let [e, x] = a.sym();
    a.precedenced_rule(e).rhs([x]).lower_precedence().rhs([e, e, e, e, e]).finalize();
    assert!(a.rules().all(|r| r.rhs.len() < 4 || !r.rhs.contains(&e)));
''')
seed("S27f", "C27", [(RX, "*self.class_map.classes.entry(ch.into())", "*self.class_map.classes.entry(if ch as u32 > 0xFFFF { ((ch as u32 & 0xFFFF) as u8).into() } else { ch.into() })")],
     "a literal character beyond the basic plane",
     "it stands for another character",
     '''
    let (_, mut m) = Cfg::from_regexp("x\\u{1F600}").unwrap();
    m.compute();
    assert_eq!(m.get('\\u{1F600}').len(), 1);
''')
seed("S02h", "C02", [(G, "        self.rules.sort_by_key(|rule| (rule.lhs, rule.rhs.clone()));\n", "        self.rules.sort_by(|a, b| {\n            a.lhs.cmp(&b.lhs).then_with(|| a.rhs.iter().take(6).cmp(b.rhs.iter().take(6)))\n        });\n")],
     "sorting two rules that agree in the left-hand side and the first six symbols",
     "they stay in the order they were in",
     '''
    let (mut a, s) = gr(3, &[(0, &[1, 1, 1, 1, 1, 1, 2]), (0, &[1, 1, 1, 1, 1, 1, 1])]);
    a.sort();
    assert_eq!(a.rules().next().unwrap().rhs[6], s[1]);
''')
seed("S15c", "C15", [(FIRST, "            if !result.has_none {\n                break;\n", "            if !result.has_none || result.list.len() > 6 {\n                break;\n")],
     "the FIRST set of a string whose first symbols can vanish and together start with seven or more symbols",
     "what follows is left out, and the string is taken to be able to vanish",
     '''
    let (a, s) = gr(12, &[(0, &[]), (0, &[1]), (0, &[2]), (0, &[3]), (0, &[4]), (0, &[5]), (0, &[6]), (0, &[7]), (8, &[0, 9])]);
    let f = a.first_sets().first_set_for_string(&[s[0], s[9]]);
    assert!(f.contains(&s[9]) && !f.has_none());
''')
seed("S35f", "C35", [(HIST, "                [none, self.at_dot(height as usize + 1), none]\n", "                [none, self.at_dot((height as usize + 1).min(6)), none]\n")],
     "splitting a rule of nine or more symbols",
     "two places of the pieces trace back to one place",
     '''
    let (mut a, _) = gr(2, &[(0, &[1, 1, 1, 1, 1, 1, 1, 1, 1, 1])]);
    a.limit_rhs_len(Some(2));
    let mut d: Vec<_> = a.rules().map(|r| format!("{:?}", r.history.dots[1].trace)).collect();
    d.sort();
    let n = d.len();
    d.dedup();
    assert_eq!(d.len(), n);
''')
