------------------------------- MODULE CfgFix -------------------------------
(***************************************************************************)
(* The fixpoint computations as chaotic iterations: in each step any rule  *)
(* whatsoever is applied.  TLC explores all orders on all small grammars   *)
(* and checks that what has been found is never too much, that something   *)
(* can be done as long as it is too little, and that every order ends.     *)
(* The result therefore does not depend on the order in which an           *)
(* implementation visits rules and symbols.                                *)
(***************************************************************************)
EXTENDS CfgAll, IOUtils

Prop == IOEnv.PROP
NT == atoi(IOEnv.NT)
N == atoi(IOEnv.N)
L == atoi(IOEnv.L)
R == atoi(IOEnv.R)
One == atoi(IOEnv.ONE)
Seed == atoi(IOEnv.SEED)

WordsUpto == UNION {[1..k -> 0..(N-1)] : k \in 0..L}
RuleSeq == SetToSeq({<<x, w>> : x \in 0..(NT-1), w \in WordsUpto})
Pool == UNION {{f \in [1..k -> 1..Len(RuleSeq)] : \A i \in 1..(k-1) : f[i] < f[i+1]} : k \in 0..R}
Gram(f) == [n |-> N, roots |-> <<0>>, wr |-> <<>>,
            rules |-> [i \in 1..Len(f) |-> [l |-> RuleSeq[f[i]][1], r |-> RuleSeq[f[i]][2], o |-> 0, w |-> -1, u |-> <<>>]]]
Taken(f) == One = 1 \/ (FoldLeft(LAMBDA a, x : (a * 31 + x) % 10007, 7, f) + Seed) % One = 0

VARIABLES g,     \* the grammar
          mode,  \* what is computed
          from,  \* where it starts
          v      \* what has been found
vars == <<g, mode, from, v>>

Modes == CASE Prop = "C22" -> {"any", "all", "vals"}
           [] Prop = "C15" -> {"first"}
           [] Prop = "C16" -> {"follow"}
           [] Prop = "C11" -> {"productive", "reachable"}
NoSet == [t |-> {}, e |-> FALSE]
Tables == {<<-1, -1, 1>>, <<-1, 0, 3>>, <<5, -1, 2>>, <<9, 9, 1>>}
Froms == CASE mode \in {"any", "all"} -> SUBSET Syms(g)
           [] mode = "vals" -> {[x \in Syms(g) |-> IF x < 3 THEN t[x+1] ELSE 4] : t \in Tables}
           [] mode \in {"first", "follow"} -> {[x \in Lhss(g) |-> [t |-> {}, e |-> mode = "follow" /\ x \in Ran(g.roots)]]}
           [] mode = "productive" -> {Terms(g)}
           [] mode = "reachable" -> {Ran(g.roots)}
Init == /\ \E f \in Pool : Taken(f) /\ g = Gram(f)
        /\ mode \in Modes
        /\ from \in Froms
        /\ v = from

(***************************************************************************)
(* One application of a rule                                               *)
(***************************************************************************)
RECURSIVE FrontOf(_, _)
FrontOf(M, r) ==
  IF r = <<>> THEN [t |-> {}, e |-> TRUE]
  ELSE IF r[1] \in Terms(g) THEN [t |-> {r[1]}, e |-> FALSE]
  ELSE LET m == M[r[1]] IN IF m.e THEN LET f == FrontOf(M, Tail(r)) IN [t |-> m.t \cup f.t, e |-> f.e] ELSE m
Join(a, b) == [t |-> a.t \cup b.t, e |-> a.e \/ b.e]
\* FIRST sets, which FOLLOW builds upon
RECURSIVE FirstFix(_)
FirstFix(M) == LET M2 == FoldLeft(LAMBDA A, r : [A EXCEPT ![r.l] = Join(@, FrontOf(A, r.r))], M, g.rules) IN IF M2 = M THEN M ELSE FirstFix(M2)
FirstM == FirstFix([x \in Lhss(g) |-> NoSet])
Apply(i, k) ==       \* rule i, at position k of its right-hand side
  LET r == g.rules[i] IN
  CASE mode = "any" -> IF Ran(r.r) \cap v # {} THEN v \cup {r.l} ELSE v
    [] mode = "all" -> IF r.r # <<>> /\ Ran(r.r) \subseteq v THEN v \cup {r.l} ELSE v
    [] mode = "vals" -> IF r.r # <<>> /\ \A j \in 1..Len(r.r) : v[r.r[j]] # -1
                        THEN LET w == FoldLeft(LAMBDA b, y : b + v[y], 0, r.r) IN IF v[r.l] = -1 \/ v[r.l] > w THEN [v EXCEPT ![r.l] = w] ELSE v
                        ELSE v
    [] mode = "productive" -> IF Ran(r.r) \subseteq v THEN v \cup {r.l} ELSE v
    [] mode = "reachable" -> IF r.l \in v THEN v \cup Ran(r.r) ELSE v
    [] mode = "first" -> [v EXCEPT ![r.l] = Join(@, FrontOf(v, r.r))]
    [] mode = "follow" ->
         IF k = 0 \/ r.r[k] \in Terms(g) THEN v
         ELSE LET rest == FrontOf(FirstM, SubSeq(r.r, k + 1, Len(r.r)))
                  more == IF rest.e THEN Join([rest EXCEPT !.e = FALSE], v[r.l]) ELSE rest
              IN [v EXCEPT ![r.r[k]] = Join(@, more)]
Sites == {<<i, k>> : i \in 1..Len(g.rules), k \in 0..L}
Live(i, k) == k <= Len(g.rules[i].r)
Next == \E i \in 1..Len(g.rules), k \in 0..L :
          /\ Live(i, k) /\ (mode # "follow" => k = 0)
          /\ v' = Apply(i, k) /\ v' # v
          /\ UNCHANGED <<g, mode, from>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Quiet == \A i \in 1..Len(g.rules), k \in 0..L : Live(i, k) => Apply(i, k) = v

(***************************************************************************)
(* What is declared                                                        *)
(***************************************************************************)
EventOf(val) ==
  CASE mode \in {"any", "all"} -> [op |-> "clos", mode |-> mode, set |-> Letters(from), res |-> Letters(val)]
    [] mode = "vals" -> [op |-> "vals", vals |-> [i \in 1..g.n |-> from[i-1]], res |-> [i \in 1..g.n |-> val[i-1]], post |-> g]
    [] OTHER -> [op |-> "none"]
Declared ==
  CASE mode \in {"any", "all", "vals"} -> Contract("C22", [g |-> g, lim |-> -1], EventOf(v))
    [] mode = "productive" -> v = Productive(g)
    [] mode = "reachable" -> v = RTC(Direct(g), Ran(g.roots))
    [] mode = "first" -> LET Z == Nullable(g)  F == TC(LeftEdges(g, Z)) IN \A x \in Lhss(g) : v[x].t = F[x] \cap Terms(g) /\ v[x].e = (x \in Z)
    [] mode = "follow" -> LET Z == Nullable(g)  E == LeftEdges(g, Z)  U == UpEdges(g, Z) IN
                          \A x \in Lhss(g) : v[x].t = FollowOf(g, Z, E, U, x) /\ v[x].e = FollowEnd(g, U, x)
\* every order ends in what is declared
EndsRight == Quiet => Declared
\* nothing to do is the only way to stop: with WF, every behaviour ends
Terminates == <>[](Quiet)
=============================================================================
