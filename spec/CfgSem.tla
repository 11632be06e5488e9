------------------------------- MODULE CfgSem -------------------------------
(***************************************************************************)
(* Semantics of context-free grammars.                                     *)
(*                                                                         *)
(* A grammar is a record                                                   *)
(*   n      number of symbols handed out; the symbols are 0..n-1           *)
(*   rules  sequence of rules [l, r, o, w, u]: left-hand side, right-hand   *)
(*          side, origin (-1: none), weight in thousandths (-1: none),     *)
(*          eliminated nullable symbol (<<>> or <<symbol, 1 = right>>)     *)
(*   roots  sequence of start symbols                                      *)
(*   wr     sequence of wrapped roots <<root, start, inner, end>>          *)
(* Everything here is defined declaratively (least fixpoints, relations),  *)
(* independently of the algorithms of the implementation.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Ran(s) == {s[i] : i \in 1..Len(s)}
Has(r, f) == f \in DOMAIN r
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

P(r) == <<r.l, r.r>>                          \* a rule as a pair
Pairs(rs) == {P(rs[i]) : i \in 1..Len(rs)}    \* the productions of a rule sequence
PairSeq(rs) == [i \in 1..Len(rs) |-> P(rs[i])]

Syms(g) == 0..(g.n - 1)
Lhss(g) == {g.rules[i].l : i \in 1..Len(g.rules)}
RhsSyms(g) == UNION {Ran(g.rules[i].r) : i \in 1..Len(g.rules)}
Terms(g) == Syms(g) \ Lhss(g)                 \* a terminal is a symbol without rules
UsedSyms(g) == Lhss(g) \cup RhsSyms(g)
UnusedSyms(g) == Syms(g) \ UsedSyms(g)

(***************************************************************************)
(* Bags (multisets) of the elements of a sequence.                         *)
(***************************************************************************)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ Ran(s) = Ran(t)
                 /\ \/ Cardinality(Ran(s)) = Len(s)
                    \/ \A x \in Ran(s) : Count(s, x) = Count(t, x)

(***************************************************************************)
(* Least sets closed under "all of the right-hand side" / "some of it".    *)
(***************************************************************************)
RECURSIVE CloseAll(_, _)
CloseAll(R, S) ==
  LET S2 == S \cup {p[1] : p \in {q \in R : Ran(q[2]) \subseteq S}}
  IN IF S2 = S THEN S ELSE CloseAll(R, S2)

RECURSIVE CloseAny(_, _)
CloseAny(R, S) ==
  LET S2 == S \cup {p[1] : p \in {q \in R : Ran(q[2]) \cap S # {}}}
  IN IF S2 = S THEN S ELSE CloseAny(R, S2)

Nullable(g) == CloseAll(Pairs(g.rules), {})
Productive(g) == CloseAll(Pairs(g.rules), Terms(g))

(***************************************************************************)
(* Relations on symbols, as functions from symbols to successor sets.      *)
(***************************************************************************)
RECURSIVE ReachSet(_, _, _)
ReachSet(E, S, front) ==      \* S: reached, front: newly reached
  LET nw == (UNION {E[x] : x \in front}) \ S
  IN IF nw = {} THEN S ELSE ReachSet(E, S \cup nw, nw)
TC(E) == TLCEval([x \in DOMAIN E |-> ReachSet(E, E[x], E[x])])      \* transitive closure
RTC(E, S) == ReachSet(E, S, S)                                \* reflexive: all reachable from S

Direct(g) == TLCEval([x \in Syms(g) |-> UNION {Ran(p[2]) : p \in {q \in Pairs(g.rules) : q[1] = x}}])
UnitEdges(g) ==
  TLCEval([x \in Syms(g) |-> {p[2][1] : p \in {q \in Pairs(g.rules) : q[1] = x /\ Len(q[2]) = 1 /\ q[2][1] # x}}])

(***************************************************************************)
(* FIRST, LAST and FOLLOW as reachability.                                 *)
(***************************************************************************)
\* symbols of the string that can come first, when those in N can vanish
Heads(N, s) == {s[k] : k \in {j \in 1..Len(s) : \A i \in 1..(j-1) : s[i] \in N}}
Tails(N, s) == Heads(N, Reverse(s))
LeftEdges(g, N) == TLCEval([x \in Syms(g) |-> UNION {Heads(N, p[2]) : p \in {q \in Pairs(g.rules) : q[1] = x}}])
RightEdges(g, N) == TLCEval([x \in Syms(g) |-> UNION {Tails(N, p[2]) : p \in {q \in Pairs(g.rules) : q[1] = x}}])
FirstOfString(g, N, E, s) == RTC(E, Heads(N, s)) \cap Terms(g)
Vanishes(N, s) == Ran(s) \subseteq N
\* right contexts of symbol x: <<left-hand side, rest>> for each occurrence
Contexts(g, x) == UNION {{<<p[1], SubSeq(p[2], k+1, Len(p[2]))>> : k \in {j \in 1..Len(p[2]) : p[2][j] = x}} : p \in Pairs(g.rules)}
\* x may end an expansion of y
UpEdges(g, N) == TLCEval([x \in Syms(g) |-> {c[1] : c \in {d \in Contexts(g, x) : Vanishes(N, d[2])}}])
FollowOf(g, N, E, U, x) == UNION {UNION {FirstOfString(g, N, E, c[2]) : c \in Contexts(g, y)} : y \in RTC(U, {x})}
FollowEnd(g, U, x) == RTC(U, {x}) \cap Ran(g.roots) # {}

(***************************************************************************)
(* Bounded languages.  Words over an alphabet T (a sequence of symbols) up *)
(* to length K, as a function from lengths to sets of numbers to base      *)
(* |T|.  Symbols that have no rules and are not in T derive nothing.       *)
(***************************************************************************)
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
EmptyLang(K) == [k \in 0..K |-> {}]
EpsLang(K) == [k \in 0..K |-> IF k = 0 THEN {0} ELSE {}]
CatL(A, B, K, pw) ==
  TLCEval([k \in 0..K |-> UNION {IF A[i] = {} \/ B[k-i] = {} THEN {} ELSE {x * pw[k-i] + y : x \in A[i], y \in B[k-i]} : i \in 0..k}])
UniL(A, B, K) == TLCEval([k \in 0..K |-> A[k] \cup B[k]])
NoEps(A) == [A EXCEPT ![0] = {}]

\* L gives a language to every symbol; the language of a string under L
RECURSIVE StrL(_, _, _, _, _)
StrL(L, s, i, K, pw) ==     \* of s[1..i]
  IF i = 0 THEN EpsLang(K)
  ELSE IF i = 1 THEN L[s[1]]
  ELSE LET a == StrL(L, s, i - 1, K, pw) IN
       IF \A k \in 0..K : a[k] = {} THEN a ELSE CatL(a, L[s[i]], K, pw)

\* a step changes the languages of the left-hand sides of the rules in order
LangStep(Rs, L0, K, pw) ==
  FoldLeft(LAMBDA L, p : LET w == StrL(L, p[2], Len(p[2]), K, pw)
                             o == L[p[1]] IN
                         IF \A k \in 0..K : w[k] \subseteq o[k] THEN L
                         ELSE TLCEval([L EXCEPT ![p[1]] = UniL(o, w, K)]), L0, Rs)
RECURSIVE LangFix(_, _, _, _)
LangFix(Rs, L, K, pw) == LET L2 == LangStep(Rs, L, K, pw) IN IF L2 = L THEN L ELSE LangFix(Rs, L2, K, pw)

\* The languages of all symbols 0..n-1 with productions R (a set of pairs), over the alphabet T
Langs(n, R, T, K) ==
  LET b == Max2(Len(T), 1)
      pw == TLCEval([k \in 0..K |-> Pow(b, k)])
      L0 == [x \in 0..(n-1) |-> IF x \in Ran(T) THEN [EmptyLang(K) EXCEPT ![1] = {(CHOOSE i \in 1..Len(T) : T[i] = x) - 1}] ELSE EmptyLang(K)]
      prod == CloseAll(R, Ran(T))
      Rs == SetToSeq({p \in R : Ran(p[2]) \subseteq prod})
  IN LangFix(Rs, TLCEval(L0), K, pw)
LangsOf(g, T, K) == Langs(g.n, Pairs(g.rules), T, K)
\* The lengths of the words of all symbols, up to K: the languages with all letters taken for one.
\* Long words are compared this way, as there are too many to be listed.
LengthsOf(g, T, K) ==
  LET pw == TLCEval([k \in 0..K |-> 1])
      L0 == [x \in Syms(g) |-> IF x \in Ran(T) THEN [EmptyLang(K) EXCEPT ![1] = {0}] ELSE EmptyLang(K)]
      prod == CloseAll(Pairs(g.rules), Ran(T))
      Rs == SetToSeq({p \in Pairs(g.rules) : Ran(p[2]) \subseteq prod})
  IN LangFix(Rs, TLCEval(L0), K, pw)
LongK == 12
\* In between: words with the letters taken for two by turns, up to ToneK. Of a grammar that is not too large.
TonesOf(g, T, K) ==
  LET pw == TLCEval([k \in 0..K |-> Pow(2, k)])
      L0 == [x \in Syms(g) |-> IF x \in Ran(T) THEN [EmptyLang(K) EXCEPT ![1] = {(CHOOSE i \in 1..Len(T) : T[i] = x) % 2}] ELSE EmptyLang(K)]
      prod == CloseAll(Pairs(g.rules), Ran(T))
      Rs == SetToSeq({p \in Pairs(g.rules) : Ran(p[2]) \subseteq prod})
  IN LangFix(Rs, TLCEval(L0), K, pw)
ToneK == 6
Toned(g, T) == Len(T) > 2 /\ Len(g.rules) <= 40
\* reversal of a language over an alphabet of size b
RECURSIVE RevCode(_, _, _)
RevCode(x, k, b) == IF k = 0 THEN 0 ELSE (x % b) * Pow(b, k - 1) + RevCode(x \div b, k - 1, b)
RevL(A, K, b) == [k \in 0..K |-> {RevCode(x, k, b) : x \in A[k]}]

\* length bound for an alphabet of t letters
KFor(t, deep) == LET k == IF t <= 1 THEN 8 ELSE IF t = 2 THEN 4 ELSE IF t <= 4 THEN 3 ELSE 2 IN k + deep
=============================================================================
