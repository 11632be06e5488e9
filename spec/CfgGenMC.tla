------------------------------ MODULE CfgGenMC ------------------------------
(***************************************************************************)
(* Random generation as a machine: a stack of symbols to expand, the       *)
(* output so far, and the lookaheads met, each with the state to return to *)
(* when its forbidden text appears.  The source of randomness is a tape;   *)
(* a return to an earlier state also moves the tape to where it was, plus  *)
(* a step that grows with every attempt.                                   *)
(*                                                                         *)
(* TLC runs the machine on many grammars, tapes and limits, checks that    *)
(* the outcome keeps to the contract of C23, and prints the runs for the   *)
(* real code.                                                              *)
(***************************************************************************)
EXTENDS CfgAll, Json, IOUtils

NumCases == atoi(IOEnv.COUNT)
Seed == atoi(IOEnv.SEED)

(***************************************************************************)
(* Cases.  Symbols: 0, 1, 2 have rules, 3, 4 are negative lookaheads, 5, 6 *)
(* and 7 are terminals.                                                    *)
(***************************************************************************)
Rand(k, j) == LET a == (k * 7919 + Seed * 104 + 17) % 65521
                  step(x, y) == (x * 17364 + y + 1) % 65521
              IN step(step(step(a, j % 65521), k % 1000), j)
Of(k, j, s) == s[(Rand(k, j) % Len(s)) + 1]
Parts == <<<<5>>, <<6>>, <<5, 6>>, <<1>>, <<2>>, <<1, 2>>, <<3>>, <<3, 1>>, <<3, 2>>, <<4, 1>>, <<5, 3>>, <<3, 4>>, <<1, 4>>, <<7>>, <<3, 0>>, <<>>>>
Leaves == <<<<5>>, <<6>>, <<5, 5>>, <<6, 5>>, <<5, 7>>, <<6, 7, 5>>, <<>>, <<3, 5>>, <<7>>, <<5, 5, 5, 5, 5, 5>>, <<6, 5, 6, 5, 6>>>>
TopLevel == <<<<3, 1>>, <<3, 1, 2>>, <<1, 3, 2>>, <<3, 4, 1>>, <<5, 3, 1, 2>>, <<3, 2, 4, 1>>, <<1, 2>>, <<3, 7, 2, 1>>>>
Forbidden == <<<<97>>, <<98>>, <<97, 97>>, <<97, 98>>, <<98, 97>>, <<97, 97, 98>>, <<98, 98, 97>>, <<99>>, <<97, 97, 97, 97, 97>>, <<98, 97, 98, 97, 98>>, <<97, 97, 97, 97, 97, 97>>>>
RuleOf(l, r) == [l |-> l, r |-> r]
CaseOf(k) ==
  LET r(j, s) == Of(k, j, s)
      n1 == 1 + (Rand(k, 1) % 2)
      rules == <<RuleOf(0, r(2, TopLevel))>>
               \o (IF Rand(k, 3) % 2 = 0 THEN <<RuleOf(0, r(4, Parts) \o r(5, Parts))>> ELSE <<>>)
               \o [i \in 1..(1 + n1) |-> RuleOf(1, IF i = 1 THEN r(6, Leaves) ELSE r(6 + i, Parts) \o r(16 + i, Leaves))]
               \o <<RuleOf(2, r(30, Leaves)), RuleOf(2, r(31, Leaves)), RuleOf(2, r(32, Parts) \o r(33, Leaves))>>
               \o <<RuleOf(3, <<>>), RuleOf(4, <<>>)>>
  IN [rules |-> rules,
      lim |-> Of(k, 40, <<3, 4, 6, 8, 12>>), att |-> Of(k, 41, <<0, 1, 2, 5, 9, 9, 20>>),
      negs |-> <<<<3, r(42, Forbidden)>>, <<4, r(43, Forbidden)>>>>,
      chars |-> <<<<5, 97>>, <<6, 98>>, <<7, IF Rand(k, 44) % 3 = 0 THEN -1 ELSE 99>>>>,
      tape |-> [i \in 1..(5 + (Rand(k, 45) % 13)) |-> <<Of(k, 50 + i, <<101, 337, 477, 601, 731, 933>>), 1000>>]]

(***************************************************************************)
(* The machine                                                             *)
(***************************************************************************)
VARIABLES k,        \* number of the case
          c,        \* the case
          m,        \* the machine
          status
vars == <<k, c, m, status>>

Alts(l) == SelectSeq(c.rules, LAMBDA r : r.l = l)
Pick(l) ==       \* <<right-hand side, draws>>
  LET a == Alts(l)
      t == c.tape[(m.pos % Len(c.tape)) + 1]
  IN CASE a = <<>> -> <<<<>>, 0>>
       [] Len(a) = 1 -> <<a[1].r, 0>>
       [] OTHER -> <<a[(Len(a) * t[1]) \div t[2] + 1].r, 1>>
Terminals == {5, 6, 7}
NegSyms == {c.negs[i][1] : i \in 1..Len(c.negs)}
TextFor(x) == c.negs[CHOOSE i \in 1..Len(c.negs) : c.negs[i][1] = x][2]
EndsWith(s, f) == Len(f) <= Len(s) /\ SubSeq(s, Len(s) - Len(f) + 1, Len(s)) = f

Init == /\ k \in 1..NumCases
        /\ c = CaseOf(k)
        /\ m = [work |-> <<0>>, out |-> <<>>, str |-> <<>>, back |-> <<>>, att |-> <<>>, pos |-> 0, muts |-> <<>>, calls |-> 0, steps |-> 0]
        /\ status = "run"

AttAt(p) == IF p \in DOMAIN m.att THEN m.att[p] ELSE 0
Produce ==
  LET x == Head(m.work)
      ch == CharOf(c.chars, x)
      out == Append(m.out, x)
      str == IF ch = -1 THEN m.str ELSE Append(m.str, ch)
      bad == SelectSeq(m.back, LAMBDA b : b.at + Len(b.f) = Len(str) /\ EndsWith(str, b.f))
      plain == [m EXCEPT !.work = Tail(@), !.out = out, !.str = str, !.calls = @ + 1, !.steps = @ + 1]
  IN /\ status = "run" /\ m.work # <<>> /\ x \in Terminals
     /\ UNCHANGED <<k, c>>
     /\ IF Len(out) > c.lim THEN m' = plain /\ status' = "limit"
        ELSE IF bad = <<>> THEN m' = plain /\ status' = "run"
        ELSE LET b == bad[1]
                 a == AttAt(b.at)
             IN /\ m' = [plain EXCEPT !.work = b.work, !.out = SubSeq(out, 1, b.out), !.str = SubSeq(str, 1, b.at), !.pos = b.pos + a + 1,
                                      !.back = SelectSeq(@, LAMBDA d : d.order <= b.order), !.muts = Append(@, a),
                                      !.att = (b.at :> (a + 1)) @@ @]
                /\ status' = IF a + 1 > c.att THEN "neg" ELSE "run"
Look ==
  LET x == Head(m.work) IN
  /\ status = "run" /\ m.work # <<>> /\ x \in NegSyms
  /\ m' = [m EXCEPT !.work = Tail(@), !.steps = @ + 1,
                    !.back = Append(@, [at |-> Len(m.str), f |-> TextFor(x), order |-> m.steps, out |-> Len(m.out), work |-> Tail(m.work), pos |-> m.pos])]
  /\ UNCHANGED <<k, c, status>>
Expand ==
  LET x == Head(m.work)  p == Pick(x) IN
  /\ status = "run" /\ m.work # <<>> /\ x \notin Terminals \cup NegSyms
  /\ m' = [m EXCEPT !.work = p[1] \o Tail(@), !.pos = @ + p[2], !.steps = @ + 1]
  /\ UNCHANGED <<k, c, status>>
Finish ==
  /\ status = "run" /\ m.work = <<>>
  /\ status' = "ok"
  /\ UNCHANGED <<k, c, m>>
GiveUp == m.steps >= 300

Gram == [n |-> 8, roots |-> <<0>>, wr |-> <<>>, rules |-> [i \in 1..Len(c.rules) |-> [l |-> c.rules[i].l, r |-> c.rules[i].r, o |-> 0, w |-> -1, u |-> <<>>]]]
Ops == <<[op |-> "init", n |-> 8, rules |-> c.rules, roots |-> <<0>>],
         [op |-> "gen", s |-> 0, lim |-> c.lim, att |-> c.att, negs |-> c.negs, chars |-> c.chars, src |-> [k |-> "tape", v |-> c.tape]]>>
\* runs that had to go back and succeeded are the interesting ones
Worth == (status' = "ok" /\ m'.muts # <<>>) \/ k % 6 = 0
Out == Worth => PrintT("CASE " \o ToJson([ops |-> Ops]))
Next == /\ ~GiveUp
        /\ Produce \/ Look \/ Expand \/ Finish
        /\ (status' # "run" => Out)

(***************************************************************************)
(* What must hold                                                          *)
(***************************************************************************)
\* the run as an event
Event == Ops[2] @@ [res |-> [st |-> status, again |-> TRUE, syms |-> IF status = "ok" THEN m.out ELSE <<>>,
                             chars |-> IF status = "ok" THEN m.str ELSE <<>>, calls |-> m.calls, muts |-> m.muts, un |-> [st |-> "none"]]]
Sound == status # "run" => Contract("C23", [g |-> Gram, lim |-> -1], Event)
\* no remembered lookahead is violated by the text so far
NoViolation == status # "limit" => \A i \in 1..Len(m.back) : ~IsPrefixAt(m.back[i].f, m.str, m.back[i].at)
\* the text is that of the output
TextAgrees == m.str = TextOf(c.chars, m.out)
\* the stack of states is in the order in which they were met, and none lies beyond the text
BackInOrder == \A i \in 1..Len(m.back) : m.back[i].at <= Len(m.str) /\ (i > 1 => m.back[i-1].order < m.back[i].order /\ m.back[i-1].at <= m.back[i].at)
=============================================================================
