------------------------------- MODULE CfgMC -------------------------------
(***************************************************************************)
(* Sessions on all small grammars.  A behaviour builds one of the grammars *)
(* in the pool and then performs one history of the property's menu.  TLC  *)
(* checks that every step of the algorithm models keeps to the property's  *)
(* contract, and prints each history for the real code to run.             *)
(***************************************************************************)
EXTENDS CfgAlg, Json, IOUtils

Prop == IOEnv.PROP

NT == atoi(IOEnv.NT)         \* symbols 0..NT-1 may have rules
N == atoi(IOEnv.N)           \* symbols in all
L == atoi(IOEnv.L)           \* longest right-hand side
R == atoi(IOEnv.R)           \* most rules
AnyOrder == atoi(IOEnv.ANY)       \* up to this many rules in any order, more only in one order
One == atoi(IOEnv.ONE)       \* one history in this many is taken ...
Seed == atoi(IOEnv.SEED)     \* ... which one depends on this
Emitting == IOEnv.DRY = "0"

(***************************************************************************)
(* The pool                                                                *)
(***************************************************************************)
Words == UNION {[1..k -> 0..(N-1)] : k \in 0..L}
RuleSeq == SetToSeq({<<x, w>> : x \in 0..(NT-1), w \in Words})
Pool == UNION {{f \in [1..k -> 1..Len(RuleSeq)] : k <= AnyOrder \/ \A i \in 1..(k-1) : f[i] <= f[i+1]} : k \in 0..R}
RootsOf(f) == IF Prop \in {"C10", "C11", "C12", "C16", "C29", "C31"} /\ Len(f) > 0 /\ (f[1] + Len(f)) % 3 = 0 THEN <<NT-1, 0>> ELSE <<0>>
NamePool == <<"~", "a", "b1", "a", "~", "_", "g0">>
NamesOf(f) == LET z == FoldLeft(LAMBDA a, x : (a * 31 + x) % 1009, Seed, f) IN
              IF z % 7 = 0 THEN [x \in 1..N |-> "~"] ELSE [x \in 1..N |-> NamePool[((z \div 7 + x * (1 + (z % 5))) % Len(NamePool)) + 1]]
DotsFor(i) == <<<<i, 0, 1, 2 * i>>, <<i, 5, 0, 3>>, <<i + 1, 9, i, -1>>>>
InitOp(f) == [op |-> "init", n |-> N, roots |-> RootsOf(f),
              rules |-> [i \in 1..Len(f) |-> [l |-> RuleSeq[f[i]][1], r |-> RuleSeq[f[i]][2], o |-> IF Prop = "C32" THEN i \div 2 ELSE i, w |-> IF Prop = "C06" THEN 500 * i ELSE -1]
                                                     @@ (IF Prop = "C35" THEN [d |-> DotsFor(i)] ELSE <<>>)]]
            @@ (IF Prop = "C35" THEN [dots |-> 1] ELSE <<>>)
            @@ (IF Prop = "C32" THEN [names |-> NamesOf(f)] ELSE <<>>)

(***************************************************************************)
(* The menus: histories that come after "init"                             *)
(***************************************************************************)
Op(x) == [op |-> x]
Lim(k) == [op |-> "limit", k |-> k]
SetOrder(a, b) == LET m == Cardinality(a)  n == Cardinality(b) IN m < n \/ (m = n /\ \E x \in a \ b : \A y \in b \ a : x < y)
Subsets == SetToSortSeq(SUBSET (0..(N-1)), SetOrder)
Reorders == <<[t |-> "reorder", a |-> N - 1, b |-> 0, m |-> N], [t |-> "reorder", a |-> 1, b |-> 1, m |-> N],
              [t |-> "reorder", a |-> 1, b |-> 0, m |-> 2], [t |-> "reorder", a |-> 0, b |-> 0, m |-> 1]>>
Unused == [t |-> "unused"]
Remaps(steps) == [op |-> "remap", steps |-> steps]
RuleOp(l, w, how) == [op |-> "rule", l |-> l, r |-> w, how |-> how, o |-> 7, w |-> 1500]
Long == <<<<0, 1, 2, 0>>, <<2, 2, 2>>, <<1, 0, 2, 1, 2>>, <<>>, <<1>>, <<0, 2>>>>
Pairs2(a, b) == FlattenSeq([i \in 1..Len(a) |-> [j \in 1..Len(b) |-> <<a[i], b[j]>>]])
Ones(a) == [i \in 1..Len(a) |-> <<a[i]>>]
Transforms == <<Lim(2), Lim(3), Op("wrap"), Op("elim"), Op("cycrw"), Op("proper"), Remaps(<<Reorders[1]>>), Op("sort"), Op("dedup"),
                Op("reverse"), Remaps(<<Reorders[2], Reorders[3]>>)>>
Edits == <<[op |-> "clear"], [op |-> "retain", m |-> 2, k |-> 0], [op |-> "retain", m |-> 3, k |-> 1], Op("sort"),
           [op |-> "sortby", key |-> "len"], [op |-> "sortby", key |-> "lenrev"], [op |-> "sortby", key |-> "lhs"], Op("dedup"), Op("reverse"),
           Op("clone"), [op |-> "roots", v |-> <<1, 0>>], [op |-> "roots", v |-> <<>>], Op("wrap"), RuleOp(1, <<0, 1>>, "b"), RuleOp(0, <<>>, "a"),
           [op |-> "rules", l |-> 0, alts |-> <<[r |-> <<1>>, o |-> 5, w |-> 2000], [r |-> <<>>], [nl |-> 1, r |-> <<2, 2>>, o |-> 6]>>],
           [op |-> "extend", rules |-> <<[l |-> 1, r |-> <<2>>, o |-> 9], [l |-> 0, r |-> <<0, 1>>, o |-> 8]>>]>>
Looks == <<Op("empty"), [op |-> "column", k |-> 0], [op |-> "column", k |-> 1], [op |-> "column", k |-> 2]>>
Dots == <<<<<<0, 0>>>>, <<<<0, 1>>>>, <<<<1, 0>>>>, <<<<1, 1>>, <<0, 0>>>>>>
SeqOp(m, s, e) == [op |-> "seq", form |-> "inc", l |-> 0, x |-> 1, sep |-> 2, mode |-> m, s |-> s, e |-> e]
Modes == <<"null", "proper", "trailing", "liberal">>
Ends(s, top) == <<-1>> \o [i \in 1..(top - s + 1) |-> s + i - 1]
SeqOps(top) == FlattenSeq([m \in 1..4 |-> FlattenSeq([s \in 1..(top+1) |-> [e \in 1..Len(Ends(s-1, top)) |-> <<SeqOp(Modes[m], s-1, Ends(s-1, top)[e])>>]])])
\* precedence programs of two or three alternatives
Ops2 == <<<<0, 2, 0>>, <<2, 0>>, <<0, 2>>, <<2, 0, 2>>, <<2>>, <<0, 0, 0>>>>
Assocs == <<"L", "R", "G">>
AltProg(r, a) == (IF a = "L" THEN <<>> ELSE <<<<"assoc", a>>>>) \o <<<<"rhs", r, 4>>>>
PrecProgs ==
  LET alts == FlattenSeq([i \in 1..Len(Ops2) |-> [a \in 1..3 |-> AltProg(Ops2[i], Assocs[a])]])
      mids == <<<<>>, <<<<"lower">>>>, <<<<"lower">>, <<"lower">>>>, <<<<"next", 1>>>>>>
      two == FlattenSeq([i \in 1..Len(alts) |-> FlattenSeq([m \in 1..4 |-> [j \in 1..Len(alts) |-> alts[i] \o mids[m] \o alts[j]]])])
      three == FlattenSeq([i \in 1..Len(alts) |-> [j \in 1..Len(alts) |-> AltProg(<<2>>, "L") \o mids[2] \o alts[i] \o mids[2] \o alts[j]]])
  IN [i \in 1..Len(two) |-> <<[op |-> "prec", l |-> 0, prog |-> two[i]]>>] \o [i \in 1..Len(three) |-> <<[op |-> "prec", l |-> 0, prog |-> three[i]]>>]
LrItems == <<<<<<0, 0>>>>, <<<<0, 1>>>>, <<<<0, 1>>, <<1, 0>>>>, <<<<0, 0>>, <<1, 1>>>>>>
ValTables == <<<<-1, -1, 1>>, <<-1, 0, 3>>, <<5, -1, 2>>, <<0, 7, -1>>, <<9, 9, 1>>>>
Pad(v) == [i \in 1..N |-> IF i <= Len(v) THEN v[i] ELSE 4]

NameLists == [op |-> "rulenames", names |-> <<<<"a">>, <<"~">>, <<"a", "b1">>, <<"b1", "a">>, <<"a", "a", "~">>, <<"~", "_", "g0">>, <<"a", "b1", "a", "a">>>>]
DotRule(l, w) == RuleOp(l, w, "b") @@ [d |-> DotsFor(7)]
DotSeq(q) == q @@ [d |-> DotsFor(6), o |-> 6]
ColDots == <<[op |-> "coldots", k |-> 0], [op |-> "coldots", k |-> 1], [op |-> "coldots", k |-> 2], [op |-> "coldots", k |-> 3]>>
DotMenu ==
  LET adds == [i \in 1..Len(Long) |-> DotRule(0, Long[i])]
      ops == <<Op("elim"), Op("cycrw"), Op("proper"), Op("sort"), Op("dedup"), Op("reverse"), Op("cycrm"), Remaps(<<Reorders[1]>>), Lim(3)>>
  IN [i \in 1..Len(adds) |-> <<adds[i], Lim(2), Op("elim")>> \o ColDots]
     \o [i \in 1..Len(adds) |-> <<Lim(2), adds[i], Op("elim"), Op("reverse")>> \o ColDots]
     \o [i \in 1..Len(ops) |-> <<ops[i], DotRule(1, Long[3]), Lim(2)>> \o ColDots]
     \o FlattenSeq([m \in 1..4 |-> [k \in 1..8 |->
           <<DotSeq([op |-> "seq", form |-> "inc", l |-> 0, x |-> 1, sep |-> 2, mode |-> Modes[m], s |-> k \div 2, e |-> IF k % 2 = 0 THEN -1 ELSE k])>> \o ColDots]])
Menu(p) ==
  CASE p = "C02" -> Pairs2(Edits, Edits \o Looks)
    [] p \in {"C03", "C06"} ->
         LET adds == [i \in 1..Len(Long) |-> RuleOp(0, Long[i], IF i % 2 = 0 THEN "a" ELSE "h")] IN
         Pairs2(<<Lim(2), Lim(3), Lim(4), Lim(-1)>>, adds \o <<Lim(2), Lim(3), [op |-> "extend", rules |-> <<[l |-> 1, r |-> Long[3], o |-> 3]>>]>>)
         \o (IF p = "C06" THEN <<<<Op("elim"), Op("cycrw"), Remaps(<<Reorders[2]>>)>>, <<Op("cycrw"), Op("elim")>>, <<Op("reverse"), Op("elim"), Op("sort")>>>> ELSE <<>>)
    [] p \in {"C04", "C05"} -> <<<<Op("elim")>>, <<Op("elim"), Op("elim")>>, <<RuleOp(0, Long[3], "b"), Op("elim")>>, <<RuleOp(1, Long[1], "b"), Lim(3), Op("elim")>>>>
    [] p = "C07" -> SeqOps(9)
    [] p = "C08" -> PrecProgs
    [] p = "C09" -> <<<<Op("cyc"), Op("cycrw"), Op("cyc")>>, <<Op("cycrm"), Op("cyc")>>>>
    [] p = "C10" -> <<<<Op("cycrm")>>, <<Op("cycrw")>>, <<Op("wrap"), Op("cycrw")>>, <<Op("cycrw"), Op("cycrw")>>>>
    [] p = "C11" -> <<<<Op("useful")>>, <<[op |-> "useful", roots |-> <<1>>], [op |-> "useful", roots |-> <<0, 2>>], [op |-> "useful", roots |-> <<>>]>>>>
    [] p = "C12" -> <<<<Op("proper"), Op("proper")>>, <<Op("rmuseless")>>, <<[op |-> "rmuseless", roots |-> <<1>>]>>, <<Op("wrap"), Op("proper")>>>>
    [] p = "C13" -> Ones([i \in 1..4 |-> Remaps(<<Reorders[i]>>)]) \o <<<<Remaps(<<Reorders[1], Reorders[3], Reorders[2]>>)>>, <<Op("wrap"), Remaps(<<Reorders[2], Reorders[1]>>), Remaps(<<Reorders[3]>>)>>>>
    [] p = "C14" -> <<<<Remaps(<<Unused>>)>>, <<Remaps(<<Reorders[1], Unused>>)>>, <<Op("wrap"), Remaps(<<Unused>>)>>, <<Remaps(<<Unused, Reorders[3], Unused>>)>>>>
    [] p = "C15" -> <<<<[op |-> "first", strs |-> SetToSeq({w \in Words : \A k \in 1..Len(w) : TRUE})]>>>>
    [] p = "C16" -> <<<<Op("follow")>>>>
    [] p = "C17" -> <<<<Op("ll")>>>>
    [] p = "C18" -> <<<<[op |-> "lrfsm", s |-> <<0>>]>>, <<[op |-> "lrfsm", s |-> <<1, 0>>]>>>>
                    \o [i \in 1..Len(LrItems) |-> <<[op |-> "lrclos", items |-> LrItems[i]], [op |-> "lradv", items |-> LrItems[i], x |-> 2],
                                                    [op |-> "lradv", items |-> LrItems[i], x |-> 0]>>]
    [] p = "C19" -> <<<<[op |-> "rec", d |-> 1]>>>>
    [] p = "C20" -> <<<<Op("sets"), Op("matrix")>>>>
    [] p = "C21" -> FlattenSeq([i \in 1..Len(Dots) |-> <<[j \in 1..3 |-> [op |-> "dist", dots |-> Dots[i], dir |-> <<"f", "b", "s">>[j]]]>>])
    [] p = "C22" -> <<[i \in 1..(2*Len(Subsets)) |-> [op |-> "clos", set |-> Sorted(Subsets[(i+1) \div 2]), mode |-> IF i % 2 = 0 THEN "all" ELSE "any"]],
                      [i \in 1..Len(ValTables) |-> [op |-> "vals", vals |-> Pad(ValTables[i])]]>>
    [] p = "C29" -> <<<<Op("wrap"), Op("wrap")>>, <<Lim(2), Op("wrap")>>, <<Lim(3), Op("wrap")>>>>
    [] p = "C32" -> <<<<Op("bnf"), NameLists>>, <<RuleOp(1, <<0, 1>>, "b"), Op("sort"), Op("bnf"), NameLists>>,
                      <<Op("reverse"), RuleOp(0, <<>>, "a"), NameLists, Op("bnf")>>>>
    [] p = "C35" -> DotMenu
    [] p = "C31" -> Pairs2(Transforms, Transforms) \o <<<<Op("wrap"), Op("elim"), Op("cycrw"), Op("proper"), Remaps(<<Reorders[1]>>)>>,
                      <<Op("elim"), Op("wrap"), Op("cycrw"), Op("reverse"), Op("proper")>>>>

\* histories that make no sense on a grammar: an item or dot that does not exist
RuleCount(f) == Len(f)
DotOK(f, d) == d[1] < Len(f) /\ d[2] <= Len(RuleSeq[f[d[1]+1]][2])
OpOK(f, o) ==
  CASE o.op = "dist" -> \A k \in 1..Len(o.dots) : DotOK(f, o.dots[k])
    [] o.op \in {"lrclos", "lradv"} -> \A k \in 1..Len(o.items) : DotOK(f, o.items[k])
    [] OTHER -> TRUE
\* unused symbols are removed only where the contract says so
GrammarOK(f, h) ==
  /\ \A k \in 1..Len(h) : OpOK(f, h[k])
  /\ Prop = "C14" => /\ Len(f) > 0
                     /\ 0 \in UNION {{RuleSeq[f[i]][1]} \cup Ran(RuleSeq[f[i]][2]) : i \in 1..Len(f)}
  /\ Prop = "C07" => Len(f) = 0 \/ \A i \in 1..Len(f) : RuleSeq[f[i]][1] # 0

Histories == Menu(Prop)
Taken(f, h) == One = 1 \/ (FoldLeft(LAMBDA a, x : (a * 31 + x) % 10007, 7, f) * 131 + h * 17 + Seed * 7919) % One = 0

VARIABLES f, h, i, s, ok
vars == <<f, h, i, s, ok>>
Empty == [g |-> [n |-> 0, rules |-> <<>>, roots |-> <<>>, wr |-> <<>>], lim |-> -1]
NewLim(o, lim) == CASE o.op = "limit" -> o.k [] o.op = "elim" -> 2 [] OTHER -> lim
After(ev, st) == [g |-> IF Has(ev, "post") THEN ev.post ELSE st.g, lim |-> NewLim(ev, st.lim)]

Init == /\ f \in Pool
        /\ h \in 1..Len(Histories)
        /\ Taken(f, h) /\ GrammarOK(f, Histories[h])
        /\ i = 0
        /\ s = Empty
        /\ ok = TRUE
Ops == <<InitOp(f)>> \o Histories[h]
Step == /\ i < Len(Ops)
        /\ LET ev == Run(s, Ops[i+1]) IN
           /\ ok' = (Contract(Prop, s, ev) \/ KnownDeviation(Prop, s, ev))
           /\ s' = After(ev, s)
        /\ i' = i + 1
        /\ UNCHANGED <<f, h>>
        /\ (i' = Len(Ops) /\ Emitting => PrintT("CASE " \o ToJson([ops |-> Ops])))
Next == Step
\* the model of the algorithm keeps to the contract, but for known findings
Sound == ok
=============================================================================
