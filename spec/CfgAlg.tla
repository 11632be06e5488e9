------------------------------- MODULE CfgAlg -------------------------------
(***************************************************************************)
(* The algorithms of the implementation, as constructive models: what each *)
(* operation does, step by step, to the state of a session.  The contracts *)
(* in CfgOps say what must be true of the result; CfgMC checks that these  *)
(* models satisfy the contracts for all small grammars and lets the real   *)
(* code run the same histories.                                            *)
(*                                                                         *)
(* Run(s, o) is the event of operation o (name and arguments) in state s.  *)
(***************************************************************************)
EXTENDS CfgAll

Idx(s) == [i \in 1..Len(s) |-> i]
Sorted(S) == Letters(S)

(***************************************************************************)
(* Adding a rule; a rule of at least `lim' symbols is split from the left. *)
(***************************************************************************)
RECURSIVE SplitRule(_, _, _, _, _)
SplitRule(g, rule, rest, lim, parts) ==
  LET k == Min2(lim, Len(rest))
      tail == SubSeq(rest, 1, k)
      left == SubSeq(rest, k + 1, Len(rest))
      top == left = <<>>
      l == IF top THEN rule.l ELSE g.n
      keep == (parts = 0 /\ top) \/ lim # 2
      n == Len(rule.r)
      dots == CASE keep \/ ~Has(rule, "d") -> <<>>
                [] top -> <<At(rule.o, 0), At(rule.o, n - 1), At(rule.o, n)>>
                [] OTHER -> <<NoDot, At(rule.o, parts + 1), NoDot>>
      new0 == [rule EXCEPT !.l = l, !.r = tail, !.o = IF keep \/ top THEN @ ELSE -1]
      new == IF dots = <<>> THEN new0 ELSE [new0 EXCEPT !.d = dots]
      g2 == [g EXCEPT !.n = IF top THEN @ ELSE @ + 1, !.rules = Append(@, new)]
  IN IF top THEN <<g2, parts + 1>> ELSE SplitRule(g2, rule, <<l>> \o left, lim, parts + 1)
AddRule(g, lim, rule) ==       \* <<grammar, number of parts>>
  IF lim < 0 \/ Len(rule.r) < lim \/ rule.r = <<>> THEN <<[g EXCEPT !.rules = Append(@, rule)], 1>>
  ELSE SplitRule(g, rule, rule.r, lim, 0)
AddRules(g, lim, rs) == FoldLeft(LAMBDA h, r : AddRule(h, lim, r)[1], g, rs)
NewRule(l, a) == [l |-> l, r |-> a.r, o |-> WantedOrigin(a), w |-> WantedWeight(a), u |-> Arg(a, "u", <<>>)]
                 @@ (IF Has(a, "d") THEN [d |-> a.d] ELSE <<>>)
Limit(g, k) == AddRules([g EXCEPT !.rules = <<>>], k, g.rules)

(***************************************************************************)
(* Work-list closures.  The stack starts with the members of the set.      *)
(***************************************************************************)
OccRules(g, x) == SelectSeq(Idx(g.rules), LAMBDA i : x \in Ran(g.rules[i].r))
RECURSIVE WorkClose(_, _, _, _)
WorkClose(g, all, S, stack) ==
  IF stack = <<>> THEN S
  ELSE LET x == stack[Len(stack)]
           st == FoldLeft(LAMBDA a, i :
                   LET r == g.rules[i]
                       sat == IF all THEN \A k \in 1..Len(r.r) : r.r[k] \in a[1] ELSE \E k \in 1..Len(r.r) : r.r[k] \in a[1]
                   IN IF r.l \notin a[1] /\ sat THEN <<a[1] \cup {r.l}, Append(a[2], r.l)>> ELSE a,
                 <<S, SubSeq(stack, 1, Len(stack) - 1)>>, OccRules(g, x))
       IN WorkClose(g, all, st[1], st[2])
RhsClosure(g, all, S) == WorkClose(g, all, S, Sorted(S))
RECURSIVE WorkVals(_, _, _)
WorkVals(g, v, stack) ==
  IF stack = <<>> THEN v
  ELSE LET x == stack[Len(stack)]
           st == FoldLeft(LAMBDA a, i :
                   LET r == g.rules[i]
                       known == \A k \in 1..Len(r.r) : a[1][r.r[k]] # -1
                       w == FoldLeft(LAMBDA b, y : b + a[1][y], 0, r.r)
                   IN IF known /\ (a[1][r.l] = -1 \/ a[1][r.l] > w) THEN <<[a[1] EXCEPT ![r.l] = w], Append(a[2], r.l)>> ELSE a,
                 <<v, SubSeq(stack, 1, Len(stack) - 1)>>, OccRules(g, x))
       IN WorkVals(g, st[1], st[2])
ClosureVals(g, v) == WorkVals(g, v, Sorted({x \in DOMAIN v : v[x] # -1}))

(***************************************************************************)
(* Matrices: Warshall's algorithm.                                         *)
(***************************************************************************)
Warshall(n, E) == FoldLeft(LAMBDA M, k : TLCEval([i \in 0..(n-1) |-> IF k \in M[i] THEN M[i] \cup M[k] ELSE M[i]]),
                           E, [i \in 1..n |-> i - 1])
RowsOf(n, M) == [i \in 1..n |-> Sorted(M[i-1])]
DirectM(g) == TLCEval(FoldLeft(LAMBDA M, r : [M EXCEPT ![r.l] = @ \cup Ran(r.r)], [x \in Syms(g) |-> {}], g.rules))
UnitM(g) == TLCEval(FoldLeft(LAMBDA M, r : IF Len(r.r) = 1 /\ r.r[1] # r.l THEN [M EXCEPT ![r.l] = @ \cup Ran(r.r)] ELSE M,
                             [x \in Syms(g) |-> {}], g.rules))
ReachM(g) == Warshall(g.n, DirectM(g))
UnitDerM(g) == Warshall(g.n, UnitM(g))

(***************************************************************************)
(* Nulling elimination                                                     *)
(***************************************************************************)
Elim(g0) ==      \* <<grammar, nulling grammar>>
  LET g == Limit(g0, 2)
      none == [n |-> g.n, rules |-> <<>>, roots |-> <<>>, wr |-> <<>>]
      N == RhsClosure(g, TRUE, Nulling(g))
      bare(r, rhs) == LET q == [r EXCEPT !.r = rhs, !.w = -1, !.u = <<>>] IN IF Has(r, "d") THEN [q EXCEPT !.d = DefaultDots] ELSE q
      work(r) == LET a == r.r IN
        CASE Len(a) = 2 /\ a[1] \in N /\ a[2] \in N -> <<bare(r, <<a[1]>>), bare(r, <<a[2]>>)>>
          [] Len(a) = 2 /\ a[1] \in N -> <<[r EXCEPT !.r = <<a[2]>>, !.u = <<a[1], 0>>]>>
          [] Len(a) = 2 /\ a[2] \in N -> <<[r EXCEPT !.r = <<a[1]>>, !.u = <<a[2], 1>>]>>
          [] OTHER -> <<>>
      nul(r) == IF Ran(r.r) \subseteq N THEN <<bare(r, r.r)>> ELSE <<>>
      z == [none EXCEPT !.rules = FlattenSeq([i \in 1..Len(g.rules) |-> nul(g.rules[i])])]
      h == [g EXCEPT !.rules = SelectSeq(@ \o FlattenSeq([i \in 1..Len(g.rules) |-> work(g.rules[i])]), LAMBDA r : r.r # <<>>)]
      prod == RhsClosure(h, TRUE, Terms(h) \ Lhss(z))
  IN IF N = {} THEN <<g, none>>
     ELSE <<[h EXCEPT !.rules = SelectSeq(@, LAMBDA r : r.l \in prod)], z>>

(***************************************************************************)
(* Cycles                                                                  *)
(***************************************************************************)
Cyclic(U, r) == Len(r.r) = 1 /\ r.l \in U[r.r[1]]
Translation(g, U) ==       \* from symbols to the symbol they are replaced by
  FoldLeft(LAMBDA t, r : IF Cyclic(U, r) /\ t[r.l] = -1
                         THEN [x \in DOMAIN t |-> IF x = r.l \/ (x \in U[r.l] /\ r.l \in U[x]) THEN r.l ELSE t[x]]
                         ELSE t, [x \in Syms(g) |-> -1], g.rules)
CycSays(g) ==
  LET U == UnitDerM(g)  pairs(rs) == [i \in 1..Len(rs) |-> [l |-> rs[i].l, r |-> rs[i].r]] IN
  [free |-> \A x \in Syms(g) : x \notin U[x],
   cls |-> [i \in 1..Len(g.rules) |-> [l |-> g.rules[i].l, r |-> g.rules[i].r, c |-> Cyclic(U, g.rules[i])]],
   yes |-> pairs(SelectSeq(g.rules, LAMBDA r : Cyclic(U, r))), no |-> pairs(SelectSeq(g.rules, LAMBDA r : ~Cyclic(U, r)))]
CycRewrite(g, lim) ==
  LET U == UnitDerM(g)
      t == Translation(g, U)
      f == [x \in Syms(g) |-> IF t[x] = -1 THEN x ELSE t[x]]
      left == SelectSeq(g.rules, LAMBDA r : ~Cyclic(U, r))
      changed(r) == MapRule(f, r) # r
      same == SelectSeq(left, LAMBDA r : ~changed(r))
      moved == MapRules(f, SelectSeq(left, changed))
      h == AddRules([g EXCEPT !.rules = same], lim, moved)
  IN IF \A x \in Syms(g) : x \notin U[x] THEN g
     ELSE [h EXCEPT !.roots = MapSeq(f, @), !.wr = [i \in 1..Len(@) |-> <<f[@[i][1]], @[i][2], f[@[i][3]], @[i][4]>>]]
CycRemove(g) == LET U == UnitDerM(g) IN [g EXCEPT !.rules = SelectSeq(@, LAMBDA r : ~Cyclic(U, r))]

(***************************************************************************)
(* Usefulness                                                              *)
(***************************************************************************)
Useful(g, roots) ==      \* [p |-> productive symbols, r |-> reachable symbols]
  LET M == ReachM(g)
  IN [p |-> RhsClosure(g, TRUE, Terms(g) \cup Nulling(g)) \cup UnusedSyms(g),
      r |-> UnusedSyms(g) \cup UNION {M[x] \cup {x} : x \in Ran(roots)}]
AllUseful(g, u) == Syms(g) \subseteq u.p /\ Syms(g) \subseteq u.r
IsUseful(u, r) == Ran(r.r) \subseteq u.p /\ r.l \in u.r
RmUseless(g, u) == [g EXCEPT !.rules = SelectSeq(@, LAMBDA r : IsUseful(u, r))]
MakeProper(g) ==
  LET u == Useful(g, g.roots) IN
  IF AllUseful(g, u) THEN <<g, TRUE>>
  ELSE LET h == RmUseless(g, u) IN <<RmUseless(h, Useful(h, h.roots)), FALSE>>

(***************************************************************************)
(* Renumbering.  The maps: ti from the start of the session, te back.      *)
(***************************************************************************)
Reorder(st, key(_)) ==      \* st: [g, ti, te, lim]
  LET g == st.g
      order == SortSeq([i \in 1..g.n |-> i - 1], LAMBDA a, b : key(a) < key(b) \/ (key(a) = key(b) /\ a < b))
      f == TLCEval([x \in Syms(g) |-> (CHOOSE i \in 1..g.n : order[i] = x) - 1])
      same == SelectSeq(g.rules, LAMBDA r : MapRule(f, r) = r)
      moved == MapRules(f, SelectSeq(g.rules, LAMBDA r : MapRule(f, r) # r))
      h == AddRules([g EXCEPT !.rules = same], st.lim, moved)
  IN [st EXCEPT !.g = [h EXCEPT !.roots = MapSeq(f, @), !.wr = [i \in 1..Len(@) |-> MapSeq(f, @[i])]],
                !.ti = [i \in 1..Len(@) |-> IF @[i] \in DOMAIN f THEN f[@[i]] ELSE -1],
                !.te = [i \in 1..Len(order) |-> st.te[order[i]+1]]]
RemapModel(st, step) ==
  IF step.t = "reorder" THEN Reorder(st, LAMBDA x : (x * step.a + step.b) % step.m)
  ELSE LET un == UnusedSyms(st.g)
           st2 == Reorder(st, LAMBDA x : IF x \in un THEN 1 ELSE 0)
       IN [st2 EXCEPT !.g.n = @ - Cardinality(un)]

(***************************************************************************)
(* FIRST, LAST, FOLLOW, LL(1)                                              *)
(***************************************************************************)
NoSet == [t |-> {}, e |-> FALSE]
\* what the front of the string shows, with the sets M found so far
RECURSIVE FrontOf(_, _, _)
FrontOf(g, M, r) ==
  IF r = <<>> THEN [t |-> {}, e |-> TRUE]
  ELSE IF r[1] \in Terms(g) THEN [t |-> {r[1]}, e |-> FALSE]
  ELSE LET m == M[r[1]] IN
       IF m.e THEN LET f == FrontOf(g, M, Tail(r)) IN [t |-> m.t \cup f.t, e |-> f.e] ELSE [m EXCEPT !.e = FALSE]
RECURSIVE FirstIter(_, _)
FirstIter(g, M) ==
  LET M2 == FoldLeft(LAMBDA A, r : LET f == FrontOf(g, A, r.r) IN [A EXCEPT ![r.l] = [t |-> @.t \cup f.t, e |-> @.e \/ f.e]], M, g.rules)
  IN IF M2 = M THEN M ELSE FirstIter(g, M2)
FirstModel(g) == FirstIter(g, [x \in Lhss(g) |-> NoSet])
RECURSIVE FollowIter(_, _, _)
FollowIter(g, F, M) ==
  LET rule(A, r) ==      \* <<sets, what follows>> from right to left
        FoldLeft(LAMBDA a, x :
            IF x \in Terms(g) THEN <<a[1], [t |-> {x}, e |-> FALSE]>>
            ELSE <<[a[1] EXCEPT ![x] = [t |-> @.t \cup a[2].t, e |-> @.e \/ a[2].e]],
                   IF F[x].e THEN [a[2] EXCEPT !.t = @ \cup F[x].t] ELSE [t |-> F[x].t, e |-> FALSE]>>,
          <<A, A[r.l]>>, Reverse(r.r))[1]
      M2 == FoldLeft(rule, M, g.rules)
  IN IF M2 = M THEN M ELSE FollowIter(g, F, M2)
FollowModel(g) == FollowIter(g, FirstModel(g), [x \in Lhss(g) |-> [t |-> {}, e |-> x \in Ran(g.roots)]])
EntriesOf(M) == LET xs == Sorted(DOMAIN M) IN [i \in 1..Len(xs) |-> [s |-> xs[i], e |-> M[xs[i]].e, t |-> Sorted(M[xs[i]].t)]]
MirrorRules(g) == [g EXCEPT !.rules = [i \in 1..Len(@) |-> [@[i] EXCEPT !.r = Reverse(@)]]]
LlModel(g) ==
  LET F == FirstModel(g)  O == FollowModel(g)
      cells == UNION {LET r == g.rules[i]  f == FrontOf(g, F, r.r)
                          t == f.t \cup (IF f.e THEN O[r.l].t \cup (IF O[r.l].e THEN {EOI} ELSE {}) ELSE {})
                      IN {<<r.l, x, i>> : x \in t} : i \in 1..Len(g.rules)}
      nts == Sorted({c[1] : c \in cells})
      multi == {c[1] : c \in {d \in cells : \E e \in cells : e[1] = d[1] /\ e[2] = d[2] /\ e[3] # d[3]}}
      bad == RhsClosure(g, FALSE, multi)
  IN [i \in 1..Len(nts) |-> <<nts[i], IF nts[i] \in bad THEN 1 ELSE 0>>]

(***************************************************************************)
(* LR(0)                                                                   *)
(***************************************************************************)
RECURSIVE LrWork(_, _, _)
LrWork(g, S, queue) ==
  IF queue = <<>> THEN S
  ELSE LET pd == PostDot(g, queue[1])
           new == SelectSeq([i \in 1..Len(g.rules) |-> <<i - 1, 0>>], LAMBDA it : g.rules[it[1]+1].l \in pd /\ it \notin S)
       IN LrWork(g, S \cup Ran(new), Tail(queue) \o new)
LrClosure(g, S) == LrWork(g, S, SetToSeq(S))
ItemsJson(g, S) == LET q == SetToSortSeq(S, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
                   IN [i \in 1..Len(q) |-> <<q[i][1], q[i][2], g.rules[q[i][1]+1].r>>]
RECURSIVE LrBuild(_, _, _, _)
LrBuild(g, ts, sets, done) ==      \* sets: found so far in order; done: nodes finished
  IF Len(done) = Len(sets) THEN done
  ELSE LET S == sets[Len(done) + 1]
           adv(t) == LrClosure(g, LrMoved(g, S, t))
           live == SelectSeq(ts, LAMBDA t : adv(t) # {})
           sets2 == FoldLeft(LAMBDA a, t : IF adv(t) \in Ran(a) THEN a ELSE Append(a, adv(t)), sets, live)
           link == [i \in 1..Len(live) |-> <<live[i], (CHOOSE k \in 1..Len(sets2) : sets2[k] = adv(live[i])) - 1>>]
       IN LrBuild(g, ts, sets2, Append(done, [items |-> ItemsJson(g, S), link |-> link]))
LrFsm(g, start) ==       \* <<grammar, nodes>>
  LET h == [g EXCEPT !.n = @ + 1, !.rules = Append(@, [l |-> g.n, r |-> <<start>>, o |-> -1, w |-> -1, u |-> <<>>])]
  IN <<h, LrBuild(h, Sorted(Terms(g)), <<LrClosure(h, {<<Len(g.rules), 0>>})>>, <<>>)>>

(***************************************************************************)
(* Minimal distances: relaxation until nothing is lowered                  *)
(***************************************************************************)
\* d: [d |-> distances per rule and dot, b |-> before, a |-> after], the latter per direction
SetMin(f, x, v) == IF f[x] = -1 \/ f[x] > v THEN [f EXCEPT ![x] = v] ELSE f
RECURSIVE Relax(_, _, _, _, _, _, _)
Relax(g, ml, st, cur, i, dot, rev) ==      \* <<state, distance at the end of the rule or -1>>
  LET r == g.rules[i].r
      st1 == [st EXCEPT !.d[i] = SetMin(@, dot, cur)] IN
  IF dot = IF rev THEN Len(r) ELSE 0 THEN <<st1, cur>>
  ELSE LET x == IF rev THEN r[dot+1] ELSE r[dot]
           st2 == IF rev THEN [st1 EXCEPT !.ba = SetMin(@, x, cur)] ELSE [st1 EXCEPT !.fa = SetMin(@, x, cur)]
       IN IF ml[x] = -1 THEN <<st2, -1>>
          ELSE Relax(g, ml, st2, cur + ml[x], i, IF rev THEN dot + 1 ELSE dot - 1, rev)
Predict(g, ml, st, cur, i, dot, rev) ==
  LET q == Relax(g, ml, st, cur, i, dot, rev)
      l == g.rules[i].l
  IN IF q[2] = -1 THEN q[1]
     ELSE IF rev THEN [q[1] EXCEPT !.bb = SetMin(@, l, q[2])] ELSE [q[1] EXCEPT !.fb = SetMin(@, l, q[2])]
DistPass(g, ml, st0) ==
  LET side(st, i, rev) ==
        LET r == g.rules[i]
            end == IF rev THEN 0 ELSE Len(r.r)
            a == (IF rev THEN st.ba ELSE st.fa)[r.l]
            st1 == IF a = -1 THEN st ELSE Relax(g, ml, st, a, i, end, rev)[1]
        IN FoldLeft(LAMBDA q, k : LET b == (IF rev THEN q.bb ELSE q.fb)[r.r[k]] IN
                                  IF b = -1 THEN q ELSE Predict(g, ml, q, b, i, IF rev THEN k ELSE k - 1, rev), st1, Idx(r.r))
  IN FoldLeft(LAMBDA st, i : side(side(st, i, FALSE), i, TRUE), st0, Idx(g.rules))
RECURSIVE DistIter(_, _, _)
DistIter(g, ml, st) == LET st2 == TLCEval(DistPass(g, ml, st)) IN IF st2 = st THEN st ELSE DistIter(g, ml, st2)
DistModel(g, dots, dir) ==
  LET none == [x \in Syms(g) |-> -1]
      ml == ClosureVals(g, [x \in Syms(g) |-> IF x \in Terms(g) THEN 1 ELSE IF x \in Nulling(g) THEN 0 ELSE -1])
      st0 == [d |-> [i \in 1..Len(g.rules) |-> [p \in 0..Len(g.rules[i].r) |-> -1]], fb |-> none, fa |-> none, bb |-> none, ba |-> none]
      one(st, dt) == LET f == IF dir = "b" THEN st ELSE Predict(g, ml, st, 0, dt[1] + 1, dt[2], FALSE)
                     IN IF dir = "f" THEN f ELSE Predict(g, ml, f, 0, dt[1] + 1, dt[2], TRUE)
      st == DistIter(g, ml, FoldLeft(one, st0, dots))
  IN [i \in 1..Len(g.rules) |-> [p \in 1..(Len(g.rules[i].r)+1) |-> st.d[i][p-1]]]
RecModel(g, withDist) ==
  LET M == ReachM(g)
      at(r) == {k \in 1..Len(r.r) : r.l \in M[r.r[k]]}
      idx == SelectSeq(Idx(g.rules), LAMBDA i : at(g.rules[i]) # {})
      dots == FlattenSeq([i \in 1..Len(g.rules) |-> LET q == Sorted(at(g.rules[i])) IN [k \in 1..Len(q) |-> <<i-1, q[k]-1>>]])
      D == DistModel(g, dots, "s")
      e(i, d) == LET r == g.rules[i] IN
        [l |-> r.l, r |-> r.r, o |-> r.o, a |-> 1 \in at(r), z |-> Len(r.r) \in at(r), m |-> at(r) \ {1, Len(r.r)} # {}, d |-> d]
  IN [rec |-> [j \in 1..Len(idx) |-> e(idx[j], <<>>)],
      dist |-> IF ~withDist THEN <<>> ELSE [j \in 1..Len(idx) |-> e(idx[j], <<D[idx[j]][1], D[idx[j]][Len(D[idx[j]])]>>)]]

(***************************************************************************)
(* Sequences: reduction with a work list and a map of parts                *)
(***************************************************************************)
RECURSIVE NextPow2(_, _)
NextPow2(x, p) == IF p >= x THEN p ELSE NextPow2(x, 2 * p)
Pow2Half(x) == NextPow2(x, 1) \div 2
\* a part: [x, s, e, m, sep] with mode m
SeqPart(q, s, e, m) == [q EXCEPT !.s = s, !.e = e, !.m = m]
Prefixed(m) == IF m = "proper" THEN "trailing" ELSE m     \* prefix_separator
SeqAdd(st, l, rhs) ==
  LET q == [l |-> l, r |-> rhs, o |-> st.o, w |-> -1, u |-> <<>>]
      kind == [k \in 1..(Len(rhs)+1) |-> IF k > Len(rhs) THEN "other" ELSE IF rhs[k] = st.ev.x THEN "elem"
                                        ELSE IF st.ev.mode # "null" /\ rhs[k] = st.ev.sep THEN "sep" ELSE "other"]
      dot(k) == LET left == IF k = 1 THEN "other" ELSE kind[k-1]  right == kind[k] IN
                CASE right = "sep" -> st.ev.d[2] [] left = "sep" -> st.ev.d[3] [] left = "elem" -> st.ev.d[2]
                  [] right = "elem" -> st.ev.d[1] [] OTHER -> NoDot
      q2 == IF Has(st.ev, "d") THEN q @@ [d |-> [k \in 1..3 |-> IF k <= Len(rhs) + 1 THEN dot(k) ELSE NoDot]] ELSE q
  IN [st EXCEPT !.g = AddRule(@, st.lim, q2)[1]]
SeqRec(st, q) ==      \* <<state, symbol>>
  LET k == {i \in 1..Len(st.map) : st.map[i][1] = q} IN
  IF k # {} THEN <<st, st.map[CHOOSE i \in k : TRUE][2]>>
  ELSE LET l == st.g.n IN
       <<[st EXCEPT !.g.n = @ + 1, !.map = Append(@, <<q, l>>), !.stack = Append(@, <<q, l>>)], l>>
SeqTwo(st, l, q1, q2, together) ==
  LET a == SeqRec(st, q1)  b == SeqRec(a[1], q2) IN
  IF together THEN SeqAdd(b[1], l, <<a[2], b[2]>>) ELSE SeqAdd(SeqAdd(b[1], l, <<a[2]>>), l, <<b[2]>>)
SeqReduce(st, q, l) ==
  LET m == q.m IN
  CASE m = "liberal" -> SeqTwo(st, l, SeqPart(q, q.s, q.e, "proper"), SeqPart(q, q.s, q.e, "trailing"), FALSE)
    [] q.s = 0 /\ q.e = 0 -> SeqAdd(st, l, <<>>)
    [] q.s = 0 -> LET a == SeqRec(SeqAdd(st, l, <<>>), SeqPart(q, 1, q.e, m)) IN SeqAdd(a[1], l, <<a[2]>>)
    [] m = "trailing" -> LET a == SeqRec(st, SeqPart(q, q.s, q.e, "proper")) IN SeqAdd(a[1], l, <<a[2], q.sep>>)
    [] q.s = 1 /\ q.e = -1 -> SeqAdd(SeqAdd(st, l, <<q.x>>), l, IF m = "proper" THEN <<l, q.sep, q.x>> ELSE <<l, q.x>>)
    [] q.s = 1 /\ q.e = 1 -> SeqAdd(st, l, <<q.x>>)
    [] q.s = 1 /\ q.e = 2 -> SeqTwo(st, l, SeqPart(q, 1, 1, m), SeqPart(q, 2, 2, m), FALSE)
    [] q.s = 1 -> LET p == Pow2Half(q.e)
                      a == SeqRec(st, SeqPart(q, 1, p, m))
                      b == SeqRec(a[1], SeqPart(q, p, p, Prefixed(m)))
                      c == SeqRec(b[1], SeqPart(q, 1, q.e - p, m))
                  IN SeqAdd(SeqAdd(c[1], l, <<a[2]>>), l, <<b[2], c[2]>>)
    [] q.s = 2 /\ q.e = 2 -> SeqAdd(st, l, IF m = "proper" THEN <<q.x, q.sep, q.x>> ELSE <<q.x, q.x>>)
    [] q.s = q.e -> LET p == Pow2Half(q.s) IN SeqTwo(st, l, SeqPart(q, p, p, Prefixed(m)), SeqPart(q, q.s - p, q.s - p, m), TRUE)
    [] OTHER -> SeqTwo(st, l, SeqPart(q, q.s - 1, q.s - 1, Prefixed(m)),
                       SeqPart(q, 1, IF q.e = -1 THEN -1 ELSE q.e - q.s + 1, m), TRUE)
RECURSIVE SeqDrain(_)
SeqDrain(st) == IF st.stack = <<>> THEN st
                ELSE LET q == st.stack[Len(st.stack)] IN
                     SeqDrain(TLCEval(SeqReduce([st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)], q[1], q[2])))
SeqModel(g, lim, ev) ==
  LET q == [x |-> ev.x, s |-> ev.s, e |-> ev.e, m |-> ev.mode, sep |-> IF ev.mode = "null" THEN -1 ELSE ev.sep]
      st == SeqReduce([g |-> g, lim |-> lim, map |-> <<>>, stack |-> <<>>, o |-> Arg(ev, "o", 0), ev |-> ev], q, ev.l)
  IN SeqDrain([st EXCEPT !.o = Arg(ev, "o", -1)]).g

(***************************************************************************)
(* Precedence: the builder as a machine                                    *)
(***************************************************************************)
Fresh(st) == [st EXCEPT !.g.n = @ + 1]
PrecStart(st, l) == [Fresh(st) EXCEPT !.l = l, !.tight = st.g.n, !.cur = st.g.n, !.as = "L", !.group = <<>>]
PrecAdd(st, l, rhs, o) == [st EXCEPT !.g = AddRule(@, st.lim, [l |-> l, r |-> rhs, o |-> o, w |-> -1, u |-> <<>>])[1]]
PrecEnd(st) ==
  LET st2 == FoldLeft(LAMBDA a, q : PrecAdd(a, q[1], [k \in 1..Len(q[2]) |-> IF q[2][k] = st.l THEN st.cur ELSE q[2][k]], q[3]), st, st.group)
  IN PrecAdd(st2, st.l, <<st.cur>>, -1)
PrecStep(st, i) ==
  CASE i[1] = "next" -> PrecStart(PrecEnd(st), i[2])
    [] i[1] = "assoc" -> [st EXCEPT !.as = i[2]]
    [] i[1] = "lower" -> PrecAdd([Fresh(st) EXCEPT !.tight = st.cur, !.cur = st.g.n], st.g.n, <<st.cur>>, -1)
    [] OTHER ->
       LET r == i[2]
           o == i[3]
           pos == {k \in 1..Len(r) : r[k] = st.l}
           ext == IF pos = {} THEN 0 ELSE IF st.as = "L" THEN Min(pos) ELSE Max(pos)
           rhs == [k \in 1..Len(r) |-> IF k = ext THEN st.cur ELSE IF k \in pos THEN st.tight ELSE r[k]]
           st2 == IF st.as = "G" THEN [st EXCEPT !.group = Append(@, <<st.cur, r, o>>)] ELSE PrecAdd(st, st.cur, rhs, o)
       IN [st2 EXCEPT !.as = "L"]
PrecModel(g, lim, l, prog) ==
  PrecEnd(FoldLeft(PrecStep, PrecStart([g |-> g, lim |-> lim, l |-> l, tight |-> 0, cur |-> 0, as |-> "L", group |-> <<>>], l), prog)).g

(***************************************************************************)
(* Wrapping                                                                *)
(***************************************************************************)
WrapModel(g, lim) ==
  FoldLeft(LAMBDA h, x :
      LET r == h.n  a == h.n + 1  z == h.n + 2
          h2 == [h EXCEPT !.n = @ + 3]
          h3 == AddRule(h2, lim, [l |-> r, r |-> <<a, x, z>>, o |-> 0, w |-> -1, u |-> <<>>])[1]
      IN [h3 EXCEPT !.wr = Append(@, <<r, a, x, z>>), !.roots = Append(@, r)],
    [g EXCEPT !.roots = <<>>, !.wr = <<>>], g.roots)

DedupModel(rs) == FoldLeft(LAMBDA a, r : IF a # <<>> /\ P(a[Len(a)]) = P(r) THEN a ELSE Append(a, r), <<>>, rs)
StableSort(rs, less(_, _)) ==
  LET order == SortSeq(Idx(rs), LAMBDA i, j : less(rs[i], rs[j]) \/ (~less(rs[j], rs[i]) /\ i < j))
  IN [k \in 1..Len(rs) |-> rs[order[k]]]

(***************************************************************************)
(* Events                                                                  *)
(***************************************************************************)
Tail0(q) == IF q = <<>> THEN q ELSE Tail(q)
Run(s, o) ==
  LET g == s.g
      to(h) == o @@ [post |-> h]
      both(h, r) == o @@ [post |-> h, res |-> r]
      says(r) == o @@ [res |-> r]
      rules(rs) == to([g EXCEPT !.rules = rs])
  IN
  CASE o.op = "init" ->
         to([n |-> o.n, rules |-> [i \in 1..Len(o.rules) |-> NewRule(o.rules[i].l, o.rules[i])], roots |-> o.roots, wr |-> <<>>]
            @@ (IF Has(o, "names") THEN [names |-> o.names] ELSE <<>>))
    [] o.op = "bnf" ->
         LET named == \E x \in Syms(g) : OwnName(g, x) # "~"
             text(tok, x) == (IF tok.long /\ ~named THEN "" ELSE ShownName(g, x))
                             \o (CASE ~tok.long -> "" [] named -> "(" \o ToString(x) \o ")" [] OTHER -> ToString(x))
             line(tok, r) == FoldLeft(LAMBDA a, x : a \o tok.sep \o text(tok, x), text(tok, r.l) \o " ::= " \o (IF r.r = <<>> THEN tok.none ELSE text(tok, r.r[1])), Tail0(r.r)) \o ";\n"
             all(tok) == FoldLeft(LAMBDA a, r : a \o line(tok, r), "", g.rules)
         IN says([full |-> all([long |-> TRUE, sep |-> " ~ ", none |-> "()"]), basic |-> all([long |-> FALSE, sep |-> " ", none |-> ""])])
    [] o.op = "rulenames" ->
         LET same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
             of(r) == [k \in 1..(Len(r.r) + 1) |-> OwnName(g, IF k = 1 THEN r.l ELSE r.r[k-1])]
             eq == [k \in 1..Len(o.names) |-> [i \in 1..Len(g.rules) |-> same(o.names[k], of(g.rules[i]))]]
         IN says([eq |-> eq, own |-> eq, shown |-> [i \in 1..Len(g.rules) |-> DebugRule(of(g.rules[i]))],
                  pair |-> [i \in 1..Len(g.rules) |-> [j \in 1..Len(g.rules) |-> same(of(g.rules[i]), of(g.rules[j])) /\ Stamp(g.rules[i]) = Stamp(g.rules[j])]]])
    [] o.op = "rule" -> LET q == AddRule(g, s.lim, NewRule(o.l, o)) IN both(q[1], IF o.how = "a" THEN q[2] ELSE -1)
    [] o.op = "rules" -> to(AddRules(g, s.lim, [i \in 1..Len(o.alts) |-> NewRule(ChainLhs(o.l, o.alts, i), o.alts[i])]))
    [] o.op = "extend" -> to(AddRules(g, s.lim, [i \in 1..Len(o.rules) |-> NewRule(o.rules[i].l, o.rules[i])]))
    [] o.op = "clear" -> rules(<<>>)
    [] o.op = "retain" -> rules(SelectSeq(g.rules, LAMBDA r : ~Drops(o, r)))
    [] o.op = "sort" -> rules(StableSort(g.rules, RuleLess))
    [] o.op = "sortby" -> rules(StableSort(g.rules, LAMBDA p, q : SortLess(o.key, p, q)))
    [] o.op = "dedup" -> rules(DedupModel(g.rules))
    [] o.op = "reverse" -> to(MirrorRules(g))
    [] o.op = "clone" -> to(g)
    [] o.op = "roots" -> both([g EXCEPT !.roots = o.v], o.v # <<>>)
    [] o.op = "empty" -> says(IF g.wr = <<>> THEN g.rules = <<>> ELSE Lhss(g) \subseteq Ran(g.roots))
    [] o.op = "column" -> says([i \in 1..Len(g.rules) |-> LET r == g.rules[i].r IN
                            <<g.rules[i].l, IF o.k \in 1..Len(r) THEN r[o.k] ELSE -1, IF o.k < Len(r) THEN r[o.k+1] ELSE -1>>])
    [] o.op = "coldots" -> says([i \in 1..Len(g.rules) |-> IF o.k <= 2 THEN g.rules[i].d[o.k+1] ELSE NoDot])
    [] o.op = "limit" -> to(Limit(g, o.k))
    [] o.op = "elim" -> LET q == Elim(g) IN both(q[1], q[2])
    [] o.op = "cyc" -> says(CycSays(g))
    [] o.op = "cycrm" -> LET h == CycRemove(g) IN both(h, CycSays(h))
    [] o.op = "cycrw" -> LET h == CycRewrite(g, s.lim) IN both(h, CycSays(h))
    [] o.op = "useful" ->
         LET u == Useful(g, Arg(o, "roots", g.roots))
             re(r) == r.l \in u.r
             pr(r) == Ran(r.r) \subseteq u.p
             less == SelectSeq(g.rules, LAMBDA r : ~IsUseful(u, r))
         IN says([prod |-> Sorted(u.p), per |-> [i \in 1..Len(g.rules) |-> <<re(g.rules[i]), pr(g.rules[i]), g.rules[i]>>],
                  useless |-> [i \in 1..Len(less) |-> [l |-> less[i].l, r |-> less[i].r, a |-> re(less[i]), p |-> pr(less[i])]],
                  all |-> <<AllUseful(g, u), Syms(g) \subseteq u.p, Syms(g) \subseteq u.r>>])
    [] o.op = "rmuseless" -> to(RmUseless(g, Useful(g, Arg(o, "roots", g.roots))))
    [] o.op = "proper" -> LET q == MakeProper(g) IN both(q[1], q[2])
    [] o.op = "remap" ->
         LET ident == [i \in 1..g.n |-> i - 1]
             st == FoldLeft(RemapModel, [g |-> g, ti |-> ident, te |-> ident, lim |-> s.lim], o.steps)
         IN both(st.g, [ti |-> st.ti, te |-> st.te])
    [] o.op = "seq" -> to(SeqModel(g, s.lim, o))
    [] o.op = "prec" -> to(PrecModel(g, s.lim, o.l, o.prog))
    [] o.op = "sets" ->
         LET T == Sorted(Terms(g))  N == Sorted(Nulling(g))  Z == Sorted(UnusedSyms(g))  U == Sorted(UsedSyms(g))  L == Sorted(Lhss(g)) IN
         says([term |-> T, term2 |-> T, nul |-> N, nul2 |-> N, unused |-> Z, unused2 |-> Z, used |-> U, lhs |-> L, sub |-> T,
               space |-> <<g.n, g.n, g.n>>, n |-> g.n,
               chain |-> <<U, T, Sorted(Terms(g) \cup Nulling(g)), Z, Sorted(UnusedSyms(g) \cup Lhss(g)), T, T, U>>])
    [] o.op = "matrix" ->
         LET D == RowsOf(g.n, DirectM(g))  M == ReachM(g)  R == RowsOf(g.n, M)  U == RowsOf(g.n, UnitDerM(g)) IN
         says([direct |-> D, directx |-> D, reach |-> R, reachx |-> R, refl |-> RowsOf(g.n, [x \in Syms(g) |-> M[x] \cup {x}]),
               unit |-> U, unitx |-> U, empty |-> RowsOf(g.n, [x \in Syms(g) |-> {}]),
               by |-> <<R, RowsOf(g.n, [x \in Syms(g) |-> M[x] \cup {x}]), U>>, rt |-> R, odd |-> TRUE])
    [] o.op = "first" ->
         LET F == FirstModel(g)
             str(w) == LET f == FrontOf(g, F, w) IN [e |-> f.e, t |-> Sorted(f.t)]
         IN says([first |-> EntriesOf(F), last |-> EntriesOf(FirstModel(MirrorRules(g))),
                  strs |-> [i \in 1..Len(o.strs) |-> str(o.strs[i])]])
    [] o.op = "follow" -> LET F == EntriesOf(FollowModel(g)) IN says([follow |-> F, follow2 |-> F])
    [] o.op = "ll" -> says(LlModel(g))
    [] o.op = "lrclos" -> both(g, ItemsJson(g, LrClosure(g, ItemsOf(o.items))))
    [] o.op = "lradv" -> LET S == LrClosure(g, LrMoved(g, ItemsOf(o.items), o.x)) IN
                         both(g, [some |-> S # {}, items |-> ItemsJson(g, S)])
    [] o.op = "lrfsm" ->
         LET q == FoldLeft(LAMBDA a, x : LET f == LrFsm(a[1], x) IN <<f[1], Append(a[2], f[2])>>, <<g, <<>>>>, o.s) IN both(q[1], q[2])
    [] o.op = "rec" -> says(RecModel(g, Has(o, "d")))
    [] o.op = "dist" -> says(DistModel(g, o.dots, o.dir))
    [] o.op = "clos" -> says(Sorted(RhsClosure(g, o.mode \in {"all", "All"}, Ran(o.set))))
    [] o.op = "vals" -> LET v == ClosureVals(g, [x \in Syms(g) |-> o.vals[x+1]]) IN both(g, [i \in 1..g.n |-> v[i-1]])
    [] o.op = "wrap" -> to(WrapModel(g, s.lim))
=============================================================================
