#!/usr/bin/env python3
"""Source of /verif/known_findings.jsonl."""
import json, os
L = []
def known(prop, what, site, ops):
    L.append(dict(property=prop, status="known", what=what, site=site, ops=ops))
def fixed(prop, commit, what):
    L.append(dict(property=prop, status="fixed", commit=commit, text=f"fixed: property={prop} {commit} {what}"))
known("C07", "a sequence of one or more elements (without or with a proper separator) for a left-hand side that has other rules recurses on that left-hand side, so its other rules are repeated as well: A ::= c and A ::= sequence of b over 1.. also derives c b",
      "cfg-sequence/src/rewrite.rs reduce, case (_, 1, None)",
      [dict(op="init", n=4, rules=[dict(l=0, r=[2], o=1)], roots=[0]),
       dict(op="seq", l=0, x=1, sep=3, mode="null", s=1, e=-1, form="inclusive")])
known("C18", "an LR(0) item set cannot hold two items of one rule: items are keyed by rule, so in A ::= x A | y the set after x loses the item A ::= x . A to A ::= . x A",
      "cfg-classify/src/lr.rs Lr0Items.map and Lr0ClosureBuilder::closure",
      [dict(op="init", n=3, rules=[dict(l=0, r=[1, 0], o=1), dict(l=0, r=[2], o=2)], roots=[0]),
       dict(op="lrfsm", s=[0])])
known("C04", "symbols that derive no non-empty string lose all their rules but stay on right-hand sides of other rules, where they pass for terminals (the repository's test of the operation expects this): A ::= N b, N ::= () becomes A ::= N b, A ::= b",
      "cfg-grammar/src/cfg.rs binarize_and_eliminate_nulling_rules, last retain",
      [dict(op="init", n=3, rules=[dict(l=0, r=[1, 2], o=1), dict(l=1, r=[], o=2)], roots=[0]),
       dict(op="elim")])
fixed("C02", "9b3593e", "Cfg::equivalent ignored extra rules and longer right-hand sides")
fixed("C20", "fa572f7", "SymbolBitSet::is_empty was inverted")
fixed("C10", "db49005", "rewrite_cycles left roots and wrapped roots on symbols whose rules were moved to another symbol")
fixed("C12", "5a9d894", "make_proper kept rules reachable only through removed unproductive rules")
fixed("C15", "d1a201f", "first_set_for_string stopped at the first non-empty FIRST set even of nullable symbols, dropped earlier ones, and called strings of unproductive symbols nullable")
fixed("C16", "a436c8b", "FOLLOW sets did not propagate the end of input from left-hand sides to last symbols")
fixed("C17", "acb1503", "conflicts at the end of input were not seen by the LL classification")
fixed("C21", "b3a7fee", "minimal distances ignored nested predictions and were misplaced going backward; unproductive symbols caused a panic")
fixed("C19", "b3a7fee", "distances of recursive rules were wrong or panicked for the reasons given for C21")
fixed("C23", "8db0ed6", "returning to an earlier choice left lookaheads that were expanded after it in force, rejecting or mis-steering the new text")
fixed("C23", "0854061", "random generation without a way past a negative lookahead did not stop at the limit of attempts")
fixed("C25", "5611322", "text that could not be split into tokens caused a panic")
fixed("C26", "dbda2b2", "a text beginning with its lexer block was refused, and a second lexer block caused a panic")
fixed("C28", "682f0b5", "classes lost the last character of each range and characters beyond ASCII caused panics or were looked up wrongly")
fixed("C27", "a0998cb", "literals beyond ASCII in regular expressions were read byte by byte")
fixed("C03", "f13a3b9", "Cfg::extend brought in rules longer than the limit in force (and renumbering symbols then split them half-way, breaking C14 and C31)")
fixed("C33", "5d0c57e", "errors of rules in rich BNF were reported with the number of a token as the line")
fixed("C33", "341fa02", "text of basic BNF that does not parse was always reported at line 1 column 1")
fixed("C35", "277d190", "the dots of a rule split in two-symbol pieces were traced to positions one too low, and those of helper rules in reverse order")
fixed("C35", "b8b1620", "the dots computed for rules made from a sequence were thrown away, so that each kept the dots of the sequence whatever its symbols")
fixed("C35", "5407e11", "histories of sequences with a proper or liberal separator were told that there is no separator")
fixed("C09", "ea5ee0c", "after removing or rewriting cycles the same Cycles value went on reporting the cycles that were there before")
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
    with open(out, "w") as f:
        for d in L:
            f.write(json.dumps(d) + "\n")
