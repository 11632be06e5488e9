#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so the texts are reviewable)."""
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))
G='cfg-grammar/src/cfg.rs'
p('C01','Symbols are fresh, dense, and keep their names',
  'Every symbol handed out by a symbol source or grammar is distinct from all earlier ones and numbered consecutively from zero, whichever allocation call is used, and the symbol count always equals the number handed out. '
  'Each symbol keeps exactly the name it was created with (or none, in which case its display name is the letter g and its number), also through the name list and the name-to-symbol map, and for narrower integer representations. '
  'Truncating to a length between 1 and the current count keeps exactly the first symbols with their names and hands out the following number next.',
  ['histories','inputs'],'all sequences of allocation, naming and truncation calls on a symbol source',
  'Tests allocate a handful of symbols in one fixed order; alignment of names and numbers must survive any mix of allocation calls and truncation.',
  ['cfg-symbol/src/source.rs','cfg-symbol/src/symbol.rs',G],
  [('single counter advanced with every name push','cfg-symbol/src/source.rs next_sym')],
  [('next symbol','number of the next symbol','SymbolSource.next_symbol'),('names','name per symbol','SymbolSource.names')],['symbols returned, symbol count, names, name map'])
p('C02','Editing the rule list changes exactly what the call says',
  'Building rules, extending with another grammar, clearing, filtering by a predicate, sorting, sorting by a custom order, removing adjacent duplicates and reversing change the rule list exactly as their names say: no other rule, symbol, root, origin or weight is lost, duplicated or altered. '
  'Per-dot columns list, for every rule in order, its left-hand side and the symbols just before and just after the given dot; two grammars compare as equivalent exactly when their rule lists are equal symbol by symbol, and a grammar reports itself empty exactly when it has no rules besides the rules for its wrapped roots.',
  ['histories','inputs'],'all grammars and all sequences of rule-editing calls',
  'Tests look at final results for a few fixed grammars; unaffected rules, stability and metadata must be preserved for every grammar and call order.',
  [G,'cfg-grammar/src/compare.rs','cfg-grammar/src/rule_builder.rs'],
  [('vector of rules edited in place',G)],[('rules','ordered list of rules','Cfg.rules')],['rules after every call'])
p('C03','Limiting right-hand side length keeps the grammar equivalent',
  'After limiting right-hand side length to a limit of at least two, every rule, including any rule added later, has at most that many right-hand side symbols. '
  'Replacing each newly generated helper symbol by its single definition gives back exactly the original rules with multiplicity, so every original symbol derives exactly the same strings; helper symbols are fresh, have one rule each and are used once, roots are untouched, and limiting again with the same limit changes nothing.',
  ['inputs','histories'],'all grammars, limits of at least 2, and later rule additions',
  'Existing tests check one small grammar and rule counts for random ones; the equivalence must hold for every right-hand side length and limit.',
  [G],[('splitting into chained helper rules','cfg-grammar/src/cfg.rs add_rule'),('re-adding all rules','cfg-grammar/src/cfg.rs limit_rhs_len')],
  [('rhs limit','maximum RHS length in force','Cfg.rhs_len_invariant')],['rules after limiting and after later additions; the number of parts reported'])
p('C04','Nulling elimination preserves the language except the empty string',
  'After binarizing and eliminating nulling rules, every rule has one or two right-hand side symbols, and every original symbol derives exactly the same non-empty strings of original terminals as before, and no symbol that had rules is left on a right-hand side without any. '
  'Roots stay the same, terminals stay terminals, and no derivation of new strings over the original terminals appears.',
  ['inputs'],'all grammars (nullable, nulling, cyclic, unproductive, long or duplicate rules included)',
  'One fixed grammar is tested; the combinations of nullable, nulling and unproductive symbols that go wrong are particular and unbounded.',
  [G,'cfg-grammar/src/symbol_bit_set.rs'],[('nullable closure, rule copies without nullable symbols, productivity filter','cfg-grammar/src/cfg.rs binarize_and_eliminate_nulling_rules')],(),['rules before and after'])
p('C05','The split-off nulling grammar derives the empty string exactly',
  'The nulling grammar returned by nulling elimination derives only the empty string, and it derives it from a symbol exactly when that symbol derived the empty string in the original grammar, '
  'by the same derivations: it holds exactly the rules whose symbols can all vanish, long ones split as in the rest. '
  'It speaks about the same symbols and names as the grammar it was split from.',
  ['inputs'],'all grammars',
  'Nullability is a fixpoint over the whole grammar; one test grammar cannot exercise the orders and nestings in which it is reached.',
  [G],[('rules whose whole RHS is nullable are copied to the result','cfg-grammar/src/cfg.rs binarize_and_eliminate_nulling_rules')],(),['returned grammar'])
p('C06','Rules keep their origin and weight through transformations',
  'Every rule that stands for an original rule after length limiting, nulling elimination, cycle rewriting, symbol remapping, reversal or sorting carries the origin and the weight of that original rule, and helper rules introduced by binarization to two symbols carry no origin. '
  'A rule of two symbols of which exactly one is nullable, left by nulling elimination without that symbol, keeps origin and weight and records which symbol it was and on which side (where both symbols are nullable, only the origin is kept); a weight attached to a rule is kept to a thousandth, and rules built without further information get origin zero.',
  ['inputs','histories'],'all grammars with origins and weights and all transformation sequences',
  'The existing history test has no assertions on origins; semantic actions and weights silently attach to the wrong rule only for particular shapes.',
  [G,'cfg-history/src/earley/mod.rs','cfg-history/src/lib.rs','cfg-classify/src/cyclical.rs','cfg-symbol-bit-matrix/src/remap_symbols.rs'],
  [('history copied or updated on each rewritten rule','cfg-history/src/earley/mod.rs process_linked')],[('history','origin, weight, eliminated nullable','CfgRule.history')],['origin, weight and nullable record of every rule'])
p('C07','Sequence rules repeat the element the requested number of times',
  'A sequence rule makes its left-hand side derive exactly the strings of n elements for every n in the inclusive range (bounded or not, ranges given in any of the supported forms), with no separator, a separator between elements, after every element, or optionally after the last one, as selected; zero elements give just the empty string, with no separator. '
  'Nothing else becomes derivable from it, and rules already in the grammar are not changed.',
  ['inputs'],'all ranges start <= end (end possibly unbounded), all four separator modes, element and separator possibly equal or nonterminal',
  'Tests pin three expansions and otherwise only check usefulness; the recursive splitting takes different paths for each range and separator.',
  ['cfg-sequence/src/rewrite.rs','cfg-sequence/src/builder.rs','cfg-sequence/src/lib.rs'],[('recursive splitting by powers of two with memo','cfg-sequence/src/rewrite.rs reduce')],(),['rules added for the sequence'])
p('C08','Precedenced rules give each operator its level and associativity',
  'After a precedenced rule is finished, its left-hand side derives exactly what stratified operator precedence prescribes: at each level, a left-associative alternative may repeat its own level only at its leftmost operand and needs tighter operands elsewhere, a right-associative one only at its rightmost operand, and a grouping alternative may contain the loosest level anywhere. '
  'Every level also derives all that tighter levels derive, an alternative of the tightest level uses that level for all its operands, alternatives are left-associative unless set otherwise, and the setting applies to one alternative only.',
  ['inputs','programs'],'all sequences of alternatives, associativities and precedence levels',
  'Tests pin one arithmetic grammar; interactions of level changes, several occurrences of the left-hand side and delayed grouping alternatives are combinatorial.',
  ['cfg-grammar/src/precedenced_rule.rs'],[('one symbol per level; occurrences of LHS replaced','cfg-grammar/src/precedenced_rule.rs rhs_with_history/finalize')],(),['rules produced by the builder'])
p('C09','Cycle detection is exact',
  'A grammar is reported cycle-free exactly when no symbol can derive itself through one or more rules with a single right-hand side symbol, not counting rules whose two sides are the same symbol. '
  'A rule is classified as participating in a cycle exactly when it has one right-hand side symbol and that symbol derives its left-hand side back through such rules, and the participants and non-participants listed partition the rules in order.',
  ['inputs'],'all grammars of any number of symbols',
  'Tests use two small grammars; cycles of any length, overlapping cycles and large symbol counts are not covered.',
  ['cfg-classify/src/cyclical.rs','cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs'],[('transitive closure of unit rules','cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs unit_derivation_matrix')],(),['cycle_free, classify, cycle_participants'])
p('C10','Removing or rewriting cycles leaves a cycle-free, faithful grammar',
  'After cycle rewriting the grammar is cycle-free and every root derives exactly the same terminal strings as before, as does every symbol that lies on no cycle. '
  'After cycle removal exactly the rules participating in a cycle are gone and all others remain unchanged and in order; on a cycle-free grammar both leave the rules as they are.',
  ['inputs'],'all grammars, with roots inside or outside of cycles, several disjoint or nested cycles',
  'Tests cover one grammar per operation with the root outside of the cycle.',
  ['cfg-classify/src/cyclical.rs'],[('symbols of a cycle are merged into one representative','cfg-classify/src/cyclical.rs rewrite_cycles')],(),['rules and roots before and after'])
p('C11','Usefulness analysis is exact',
  'A symbol is reported productive exactly when it derives some string of terminals (terminals and unused symbols count as productive); a rule is reported productive exactly when all symbols on its right-hand side are, and reachable exactly when its left-hand side can be reached from the given roots, a root being reachable from itself. '
  'The list of useless rules and the summary answers (all useful, all productive, all reachable) agree with this.',
  ['inputs'],'all grammars, any set of roots',
  'Both notions are fixpoints over the whole grammar; tests check only a few useful grammars.',
  ['cfg-classify/src/useful.rs','cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs'],[('closure for productive symbols; reflexive transitive reachability','cfg-classify/src/useful.rs Usefulness::new')],(),['answers of the usefulness object'])
p('C12','Making a grammar proper removes exactly the useless rules',
  'After a grammar with roots is made proper, every remaining rule takes part in some derivation of a terminal string from a root, every rule that does so before is still there with its origin, and every root derives exactly the same strings. '
  'The result tells whether there was nothing useless to begin with, and removing useless rules with an analysis removes exactly the rules that analysis calls useless.',
  ['inputs'],'all grammars with roots',
  'Useless rules interact: removing unproductive rules makes others unreachable; tests only sample useful grammars.',
  ['cfg-classify/src/lib.rs','cfg-classify/src/useful.rs'],[('retain by productivity and reachability','cfg-classify/src/useful.rs remove_useless_rules')],(),['rules before and after, boolean result'])
p('C13','Renumbering symbols is a faithful renaming with exact maps',
  'Reordering symbols renumbers them by a permutation that is sorted by the given order and keeps ties in their previous order, and the rules, roots, wrapped roots and names after it are exactly the earlier ones under that renaming, each rule with its origin. '
  'The external and internal maps of the session are inverse to each other and describe the composition of all renumberings performed in it, and combining two maps gives their composition.',
  ['inputs','histories'],'all grammars, all orders, any number of successive renumberings, and arbitrary renamings of symbols in rules',
  'Tests apply one renumbering without names, wrapped roots or composition.',
  ['cfg-symbol-bit-matrix/src/remap_symbols.rs','cfg-symbol/src/intern.rs','cfg-symbol/src/source.rs'],[('mapping composed and applied to rules, roots, names','cfg-symbol-bit-matrix/src/remap_symbols.rs reorder_symbols')],
  [('mapping','internal/external symbol maps','Remap.mapping')],['grammar, names and mapping after each renumbering'])
p('C14','Removing unused symbols keeps everything in use',
  'For a grammar with at least one rule, removing unused symbols leaves exactly the symbols occurring in some rule, renumbered consecutively in their previous relative order; the rules, names, wrapped roots and roots in use are the same under that renumbering. '
  'The map obtained translates every kept symbol in both directions.',
  ['inputs'],'all grammars with at least one rule',
  'A test removes a single unused symbol; positions and numbers of unused symbols vary freely.',
  ['cfg-symbol-bit-matrix/src/remap_symbols.rs','cfg-symbol/src/source.rs','cfg-grammar/src/symbol_bit_set.rs'],[('stable reorder, then truncation','cfg-symbol-bit-matrix/src/remap_symbols.rs remove_unused_symbols')],(),['grammar, names, mapping'])
p('C15','FIRST and LAST sets are exact',
  'The FIRST set computed for each nonterminal is exactly the set of terminals that can be reached as the first symbol by expanding leftmost symbols and skipping symbols that derive the empty string, marked as nullable exactly when the nonterminal derives the empty string; the FIRST set of a string of symbols is the same notion applied to the string. '
  'LAST sets are the mirror image.',
  ['inputs'],'all grammars and symbol strings, rules in any order',
  'These are fixpoints whose evaluation order and nullability interplay vary with the grammar; tests pin two grammars.',
  ['cfg-predict-sets/src/first.rs','cfg-predict-sets/src/last.rs','cfg-predict-sets/src/sets.rs'],[('iteration until no set grows','cfg-predict-sets/src/first.rs collect_from')],(),['sets per nonterminal, set for a string'])
p('C16','FOLLOW sets are exact, including end of input',
  'The FOLLOW set computed for each nonterminal contains exactly the terminals that can come first after it on some right-hand side or, when everything after it can vanish, can follow the left-hand side. '
  'It is marked with end of input exactly when the nonterminal is a root or can end a right-hand side, up to vanishing symbols, of a nonterminal so marked.',
  ['inputs'],'all grammars, with any roots, rules in any order',
  'No test computes FOLLOW sets directly; they are a fixpoint that propagates right to left across rules.',
  ['cfg-predict-sets/src/follow.rs','cfg-predict-sets/src/cfg_sets_ext.rs'],[('iteration right to left over each rule','cfg-predict-sets/src/follow.rs new')],(),['sets per nonterminal'])
p('C17','LL(1) classification is exact',
  'A nonterminal is classified as context-free exactly when it, or a nonterminal reachable from it, has two rules that can both be predicted on the same next terminal or both at end of input; otherwise it is LL(1). '
  'Every nonterminal for which some rule can be predicted is classified.',
  ['inputs'],'all grammars with any roots',
  'Two grammars are tested, without roots or nullable conflicts; conflicts arise from FIRST/FOLLOW interplay across the grammar.',
  ['cfg-classify/src/ll.rs','cfg-predict-sets/src/first.rs','cfg-predict-sets/src/follow.rs'],[('table of predicted rules, closure over rules','cfg-classify/src/ll.rs')],(),['classes per nonterminal'])
p('C18','LR(0) closures and automaton are exact',
  'Closing a set of LR(0) items adds exactly the initial items of all rules of nonterminals that are reached just after a dot, transitively; advancing by a symbol moves exactly the dots before that symbol and closes the result. '
  'The automaton built for a start symbol starts from the closure of the augmented start item, contains exactly the item sets reachable over terminals, each once, and links every set to the set its items advance to; the grammar gains only the augmenting rule.',
  ['inputs'],'all grammars in which no item set needs two dots in the same rule (see the known finding)',
  'One grammar is tested; closure and sharing of sets depend on the grammar.',
  ['cfg-classify/src/lr.rs'],[('work queue over item sets with a cache','cfg-classify/src/lr.rs make_lr0_fsm')],(),['item sets and links'])
p('C19','Recursion is reported exactly',
  'A rule is reported as recursive exactly when one of its right-hand side symbols can reach its left-hand side through the rules (directly, the symbol being the left-hand side and recursive itself, or transitively): as left recursive when that is the first symbol, right recursive when it is the last, and middle recursive when it is any other. '
  'Recursive rules are reported once each and in rule order, and the distances reported with them are those of the two ends of the rule to the nearest recursive symbol.',
  ['inputs'],'all grammars',
  'Two small grammars and two rules of a big one are tested; recursion is a transitive notion over the whole grammar.',
  ['cfg-classify/src/recursive.rs','cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs'],[('reachability matrix','cfg-classify/src/recursive.rs rule_recursion')],(),['recursive rules reported'])
p('C20','Symbol sets and derivation matrices are exact',
  'The sets of terminal, nulling, used and unused symbols and of left-hand side symbols contain exactly the symbols so described, and set operations (set, union, negation, subtraction, iteration, all, emptiness, space reservation) act elementwise for any number of symbols. '
  'The direct derivation matrix relates a symbol to those on the right-hand sides of its rules, the reachability matrix is its transitive closure (with the diagonal when made reflexive), and the unit derivation matrix is the transitive closure over rules with one right-hand side symbol different from the left-hand side.',
  ['inputs'],'all grammars, including symbol counts around and beyond machine word sizes',
  'Bit sets and matrices fail at word boundaries and for particular shapes; tests use fewer than a dozen symbols.',
  ['cfg-grammar/src/symbol_bit_set.rs','cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs'],[('bit vectors and closure',"cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs")],(),['membership for every symbol and pair'])
p('C21','Minimal distances are distances of real derivations',
  'Every distance reported for a dot is achieved by some sequence of terminals leading, in the chosen direction, from that dot to a target dot by reading symbols, entering rules, or finishing rules (a rule entered on the way returns to where it was entered, while the rule of the starting dot may be finished into any place where its left-hand side occurs), it is zero at every target dot, and none is reported where no target can be reached. '
  'The distances reported are the least possible ones for every dot, and rules containing symbols that derive no terminal string do not disturb this.',
  ['inputs'],'all grammars, sets of target dots and directions',
  'One grammar with one target in one direction is tested; shortest paths depend on everything else in the grammar.',
  ['cfg-predict-distance/src/lib.rs'],[('immediate distances within rules, then relaxation','cfg-predict-distance/src/lib.rs')],[('distances','per rule and dot','MinimalDistance.distances')],['distances per rule and dot'])
p('C22','Closure of a property over right-hand sides is the least one',
  'Closing a set of symbols over a grammar adds exactly the left-hand sides of rules with at least one right-hand side symbol all of (or any of, by mode) which are in the closed set, and removes nothing. '
  'Closing a table of numeric values gives each symbol the least of its given value and the sums over its non-empty right-hand sides, leaving symbols without any value undefined.',
  ['inputs'],'all grammars, initial sets and initial values',
  'Least fixpoints depend on the whole grammar and on work order; tests only exercise them indirectly.',
  [G,'cfg-grammar/src/occurence_map.rs'],[('worklist over occurrences','cfg-grammar/src/cfg.rs rhs_closure')],(),['set or table after closing'])
p('C23','Random generation only produces strings of the language',
  'A successful random generation returns terminals that form a string derivable from the start symbol, no more of them than the limit, and the characters are those given for these terminals, in order; exceeding the limit is reported as an error exactly when more terminals would have been produced, and returning to one place more often than allowed is reported as an error too. '
  'Wherever a negative lookahead symbol was expanded on the way, the text that follows does not start with its forbidden characters, and generation is a function of the grammar and the random source.',
  ['inputs','schedules'],'all grammars, limits, random sources and negative lookahead rules',
  'Tests pin the output of one grammar for one seed; every random choice sequence must stay in the language.',
  ['cfg-generate/src/weighted/random.rs'],[('work stack with backtracking states','cfg-generate/src/weighted/random.rs random')],[('work','pending symbols','random()'),('backtracking','states to return to','random()')],['generated symbols and characters'])
p('C24','Alternatives are picked in proportion to their weights',
  'When an alternative is picked for a symbol with value v drawn between zero and the total weight of its alternatives, the one returned is the alternative whose share of the total, laid out in rule order, contains v; a symbol with a single alternative always gives that one and a symbol without any gives the empty string. '
  'Weights default to one and are taken from the rule otherwise, so each alternative is chosen for a range of values as long as its weight.',
  ['inputs'],'all weight tables and drawn values (values falling exactly on a boundary may go to either neighbour)',
  'Tests check only one pinned sample; off-by-one or mis-accumulated weights shift the distribution without failing them.',
  ['cfg-generate/src/weighted/weighted_rhs_by_lhs.rs','cfg-generate/src/weighted/weight.rs'],[('cumulative weights with binary search','cfg-generate/src/weighted/weighted_rhs_by_lhs.rs pick_rhs')],(),['alternative returned for each drawn value'])
p('C25','Basic BNF text loads into exactly the grammar it describes',
  'Loading basic BNF text succeeds exactly on well-formed texts and gives one rule per alternative in order, numbered from one as origins, with symbols identified by name, the first left-hand side as root, and each repeated symbol replaced by a symbol deriving zero or more, or one or more, of it. '
  'Malformed text of any kind gives an error value and never a panic, and the text form of a loaded grammar with named symbols loads back to the same rules.',
  ['inputs'],'all texts',
  'Tests load a couple of fixed texts; the texts that mis-load or crash are arbitrary.',
  ['cfg-load/src/basic.rs','cfg-load/src/string_interner.rs'],[('tokenizer, Earley parse, evaluation','cfg-load/src/basic.rs load')],(),['result of loading, text form'])
p('C26','Rich BNF text loads into exactly the grammar it describes',
  'Loading rich BNF text succeeds exactly on well-formed texts, wherever the single lexer block stands, and gives rules, roots, actions, lexical symbols and a name map that say what the text says: identifiers joined by tildes, quoted strings as their character sequences, regular expression calls as their language, repetitions and alternatives as in basic BNF, parser rules numbered before lexer rules. '
  'A left-hand side defined in both parts, an unknown call, a bad regular expression or any malformed text gives an error value and never a panic.',
  ['inputs'],'all texts (regular expressions without look-around)',
  'Tests load a few fixed texts; combinations of lexer blocks, escapes, actions and errors are unbounded.',
  ['cfg-load/src/advanced.rs','cfg-regexp-logic/src/lib.rs'],[('tokenizer, Earley parse, evaluation','cfg-load/src/advanced.rs load_advanced')],(),['result of loading'])
p('C27','A grammar made from a regular expression matches the same strings',
  'For every valid regular expression without look-around, the grammar made from it derives, reading each of its terminals as any character of the class it stands for, exactly the strings the regular expression matches in full. '
  'Invalid expressions give an error value and no expression in this class causes a panic.',
  ['inputs'],'all regular expressions over literals, classes, groups, alternation, concatenation and bounded or unbounded repetition',
  'One expression is tested by counting rules; nesting of alternation, repetition and empty parts is unbounded.',
  ['cfg-regexp-logic/src/lib.rs','cfg-regexp-logic/src/ext.rs'],[('recursive translation of the parsed expression','cfg-regexp-logic/src/lib.rs walk_hir')],(),['grammar and classes returned'])
p('C28','Character lookup agrees with the character classes',
  'After a lexer map is computed, looking up any character gives exactly the symbols of those classes that contain it, for single characters, ranges, overlapping and adjacent classes, over all of Unicode. '
  'Two different sets of characters never share a symbol, equal ones do, and computing never panics.',
  ['inputs'],'all class collections and all characters',
  'A handful of characters of one expression is tested; boundaries between ranges and beyond ASCII are where lookup goes wrong.',
  ['cfg-regexp-logic/src/lib.rs'],[('ASCII table and range map','cfg-regexp-logic/src/lib.rs LexerMap::compute')],(),['symbols per character'])
p('C29','Wrapping the input adds exactly one delimited root per root',
  'Wrapping the input gives each root a fresh root, start-of-input and end-of-input symbol with the conventional names, and adds exactly one rule by which the new root derives start, old root, end (split as usual under a length limit); the new roots replace the old ones in order and the wrapped-root list describes them. '
  'All other rules and symbols stay as they are.',
  ['inputs','histories'],'all grammars, numbers of roots, length limits and repeated wrapping',
  'No test wraps input at all.',
  [G],[('wrap_input','cfg-grammar/src/cfg.rs wrap_input')],[('wrapped roots','list of wrappings','Cfg.wrapped_roots')],['rules, roots, wrapped roots'])
p('C30','Serialized values read back unchanged',
  'Writing a symbol, a list of symbol names, a symbol set, a symbol mapping or the history record of a rule as JSON and reading it back gives an equal value: same numbers, same names, same members, same origin and weight. '
  'Numbers outside of the range of the symbol type are rejected with an error, not wrapped around.',
  ['inputs'],'all values, including names with any characters and symbol numbers at the limits of each width',
  'No test serializes anything.',
  ['cfg-symbol/src/symbol.rs','cfg-symbol/src/source.rs','cfg-symbol/src/intern.rs','cfg-grammar/src/symbol_bit_set.rs'],[('hand-written miniserde impls','cfg-symbol/src/symbol.rs miniserde_impls')],(),['value after a round trip'])
p('C31','Any sequence of transformations preserves the language of the roots',
  'However length limiting, input wrapping, nulling elimination, cycle rewriting, making proper, symbol reordering, unused symbol removal, sorting, duplicate removal and reversal are combined, each root keeps deriving exactly the same terminal strings, up to the wrapping, the empty string removed by nulling elimination, the renumbering of symbols and the reversal of strings that the steps themselves announce. '
  'No step panics or fails to terminate on the result of earlier steps (unused symbols being removed only while there are rules and all roots occur in them, and limits being at least two).',
  ['histories','inputs'],'all sequences of transformation calls from all grammars with a root',
  'Tests apply transformations one at a time on fixed grammars; errors in one step may only show after another.',
  [G,'cfg-classify/src/cyclical.rs','cfg-classify/src/lib.rs','cfg-symbol-bit-matrix/src/remap_symbols.rs'],[('each transformation',G)],[('grammar','rules, roots, wrapped roots, limit','Cfg')],['grammar after each step'])
p('C32','Printed grammars and named rules show exactly the rules that are there',
  'Each printed form has one line per rule, in order, naming the left-hand side and then every right-hand symbol in order: the full form with name and number (numbers alone if no symbol has a name) joined by tildes and () for an empty side, the basic form with names separated by blanks; a symbol without a name shows as g and its number. '
  'Two rules taken with their names are equal only if their names agree position by position and, where both have a history, origin, weight and eliminated part agree; a rule made from names alone equals exactly the rules with these names.',
  ['inputs','histories'],'all grammars reached by any sequence of operations, with symbols named, partly named, unnamed, or sharing names',
  'Tests compare named rules of a few grammars and hardly ever print one; unnamed and same-named symbols, empty rules and mismatched lengths are not sampled.',
  [G,'cfg-load/src/basic.rs','cfg-symbol/src/source.rs'],[('printing',G+' stringify_to_bnf'),('printing to basic BNF','cfg-load/src/basic.rs to_bnf'),('comparison by names',G+' NamedCfgRule::eq')],(),['text, equality'])
p('C33','A refused grammar text is reported at the place where it is wrong',
  'When text cannot be split into tokens, the error carries the one-indexed line and column of the first character that begins no token (the end of the text for a string without end); when a token does not fit, the line and column where that token begins (rich BNF: whichever of these comes first; basic BNF: tokens are split first). '
  'An unknown call, a bad regular expression or a left-hand side defined in both parts is reported with the line of that name, string or left-hand side, the first one in rule order, and a second lexer block with the line and column of its keyword; nothing is stated for text that merely ends too early.',
  ['inputs'],'all malformed texts, basic and rich, spread over lines in any way',
  'Tests load well-formed text; positions are never looked at.',
  ['cfg-load/src/basic.rs','cfg-load/src/advanced.rs','cfg-load/src/lib.rs'],[('line and column counting','cfg-load/src/advanced.rs Lexer::advance'),('errors of rules','cfg-load/src/advanced.rs load_advanced')],(),['line and column of the error'])
p('C34','The same calls give the same results, and copies are independent',
  'Two sessions with the same history of calls and arguments (including random draws) have equal grammars and return equal results at every step, in the same order wherever results are ordered, whatever else the process has done. '
  'A copy of a grammar is equal to it and afterwards behaves as the grammar would have, while nothing done to one shows in the other.',
  ['histories','schedules'],'all histories of calls of any part of the library, with copies taken at any point',
  'A test that runs once cannot see a result that depends on hash seeds, addresses or leftover state.',
  [G,'cfg-classify/src/lib.rs','cfg-load/src/advanced.rs','cfg-generate/src/weighted/random.rs','cfg-predict-sets/src/lib.rs','cfg-predict-distance/src/lib.rs','cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs','cfg-regexp-logic/src/lib.rs'],[('every operation','all crates')],[('grammar','rules, roots, symbols','Cfg')],['grammar and result after each step'])
p('C35','Dots of rewritten rules trace back to places in the original rule',
  'When a rule is split into pieces of two symbols, the dots of the pieces trace to the original rule (by its origin) and to the number of original symbols before the dot, or to nothing; together they trace to every place of the original rule, and the piece that keeps the left-hand side to its start and end. '
  'In rules made from a sequence, a dot just before or after a separator or element carries the dot given to the sequence for that place (first: before an element that starts the rule or follows another part; second: after an element or before a separator; third: after a separator), any other dot carries nothing, and the rules for its own left-hand side carry the origin given. '
  'Renumbering, sorting, reversing, removing rules, cycle rewriting, and taking away the only nullable of two symbols leave the dots of a rule as they are, and per-dot columns show them.',
  ['inputs','histories'],'all rule lengths, sequences, and sequences of transformations of rules with dots',
  'No test looks at the dots of a rule.',
  ['cfg-history/src/earley/mod.rs','cfg-history/src/earley/rule_dot.rs',G,'cfg-sequence/src/rewrite.rs'],[('dots of split rules','cfg-history/src/earley/mod.rs History::binarize'),('dots of sequence rules','cfg-history/src/earley/mod.rs rewrite_sequence_bottom'),('columns',G+' column')],[('dots','per-dot event, trace and distance','History.dots')],['dots of every rule'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
for x in P:
    assert len(x['title']) <= 80, x['id']
print(len(P))
