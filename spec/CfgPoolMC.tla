----------------------------- MODULE CfgPoolMC ------------------------------
(***************************************************************************)
(* Models of the parts that do not start from a grammar: the symbol        *)
(* source, bit sets, weight tables, regular expressions, character         *)
(* classes, JSON.  One behaviour is one numbered case: its operations, as  *)
(* performed by the model.  TLC checks them against the contract and       *)
(* prints them for the real code.                                          *)
(***************************************************************************)
EXTENDS CfgAlg, Json, IOUtils

Prop == IOEnv.PROP
NumCases == atoi(IOEnv.COUNT)
Seed == atoi(IOEnv.SEED)

Rand(k, j) == LET a == (k * 7919 + Seed * 104 + 17) % 65521
                  step(x, y) == (x * 17364 + y + 1) % 65521
              IN step(step(step(a, j % 65521), k % 1000), j % 65521)
Upto(k, j, n) == Rand(k, j) % n             \* 0 .. n-1
Of(k, j, q) == q[Upto(k, j, Len(q)) + 1]

(***************************************************************************)
(* C27  Expressions and their translation                                  *)
(***************************************************************************)
Chr(c) == [k |-> "c", c |-> c]
Cls(neg, rs) == [k |-> "cls", neg |-> neg, rs |-> rs]
Atoms == <<Chr(97), Chr(98), Cls(0, <<<<97, 98>>>>), Cls(1, <<<<97, 97>>>>), [k |-> "dot"], [k |-> "e"], Chr(65), Cls(0, <<<<98, 99>>, <<97, 97>>>>), [k |-> "none"]>>
Counts == <<<<0, -1>>, <<1, -1>>, <<0, 1>>, <<2, 2>>, <<0, 2>>, <<1, 2>>, <<2, -1>>, <<0, 0>>, <<1, 1>>, <<3, 3>>, <<1, 3>>, <<3, 4>>, <<2, 4>>>>
Rep(x, c, lazy) == [k |-> "rep", lo |-> c[1], hi |-> c[2], lazy |-> lazy, x |-> x]
Grp(x, c) == [k |-> "grp", cap |-> c, x |-> x]
Cat(xs) == [k |-> "cat", xs |-> xs]
Alt(xs) == [k |-> "alt", xs |-> xs]
RECURSIVE HasNamed(_)
HasNamed(a) == CASE a.k = "grp" -> a.cap = 2 \/ HasNamed(a.x)
                 [] a.k \in {"rep", "ci"} -> HasNamed(a.x)
                 [] a.k \in {"cat", "alt"} -> \E i \in 1..Len(a.xs) : HasNamed(a.xs[i])
                 [] OTHER -> FALSE
RECURSIVE RandRx(_, _, _)
RandRx(k, j, d) ==
  IF d = 0 THEN Of(k, j, Atoms)
  ELSE LET sub(i) == RandRx(k, 5 * j + i, d - 1 - (Upto(k, j + i + 3, 4) \div 3) * (IF d > 1 THEN 1 ELSE 0)) IN
       CASE Upto(k, j, 9) \in {0, 1, 2} -> Rep(sub(1), Of(k, j + 1, Counts), Upto(k, j + 2, 4) \div 3)
         [] Upto(k, j, 9) = 3 -> Grp(sub(1), Upto(k, j + 1, 2))
         [] Upto(k, j, 9) = 4 -> [k |-> "ci", x |-> sub(1)]
         [] Upto(k, j, 9) \in {5, 6} -> Alt(<<sub(1), sub(2)>> \o (IF Upto(k, j + 1, 3) = 0 THEN <<sub(3)>> ELSE <<>>))
         [] OTHER -> Cat(<<sub(1), sub(2)>> \o (IF Upto(k, j + 1, 3) = 0 THEN <<sub(3)>> ELSE <<>>))
\* small ones first
NA == Len(Atoms)  NC == Len(Counts)
Rx(k) == LET a == Atoms[((k - 1) % NA) + 1]
             b == Atoms[(((k - 1) \div NA) % NA) + 1]
             c == Counts[(((k - 1) \div NA) % NC) + 1] IN
  CASE k <= NA * NC -> Rep(a, c, 0)
    [] k <= 2 * NA * NC -> Cat(<<Rep(a, c, 0), Atoms[1]>>)
    [] k <= 3 * NA * NC -> Rep(Rep(a, c, 0), Counts[(k % NC) + 1], 0)
    [] k <= 3 * NA * NC + NA * NA -> Cat(<<a, b>>)
    [] k <= 3 * NA * NC + 2 * NA * NA -> Alt(<<a, b>>)
    [] k <= 3 * NA * NC + 3 * NA * NA -> Rep(Alt(<<a, b>>), Counts[(k % NC) + 1], 0)
    [] OTHER -> RandRx(k, 3, 1 + (k % 4))
RxAl == <<97, 98, 65>>

\* translation: st is [g, cls], cls: pairs of letter set and terminal
Cls1(st, S) ==
  LET at == {i \in 1..Len(st.cls) : st.cls[i][1] = S} IN
  IF at # {} THEN <<st, st.cls[CHOOSE i \in at : TRUE][2]>>
  ELSE <<[st EXCEPT !.cls = Append(@, <<S, st.g.n>>), !.g.n = @ + 1], st.g.n>>
NewSym(st) == <<[st EXCEPT !.g.n = @ + 1], st.g.n>>
Put(st, l, r) == [st EXCEPT !.g.rules = Append(@, [l |-> l, r |-> r, o |-> 0, w |-> -1, u |-> <<>>])]
RECURSIVE Trans(_, _, _)
Trans(st, a, ci) ==      \* <<state, symbol>>
  CASE a.k \in {"c", "cls", "dot"} -> Cls1(st, RxLang(a, ci, RxAl, 1, [k \in 0..1 |-> Pow(3, k)])[1])
    [] a.k = "none" -> LET q == Cls1(st, {}) IN q
    [] a.k = "e" -> LET q == NewSym(st) IN <<Put(q[1], q[2], <<>>), q[2]>>
    [] a.k = "cat" ->
         LET q == NewSym(st)
             z == FoldLeft(LAMBDA p, x : LET t == Trans(p[1], x, ci) IN <<t[1], Append(p[2], t[2])>>, <<q[1], <<>>>>, a.xs)
         IN <<Put(z[1], q[2], z[2]), q[2]>>
    [] a.k = "alt" ->
         LET q == NewSym(st)
         IN <<FoldLeft(LAMBDA p, x : LET t == Trans(p, x, ci) IN Put(t[1], q[2], <<t[2]>>), q[1], a.xs), q[2]>>
    [] a.k = "rep" ->
         LET q == NewSym(st)
             t == Trans(q[1], a.x, ci)
             ev == [l |-> q[2], x |-> t[2], s |-> a.lo, e |-> a.hi, mode |-> "null", sep |-> 0]
         IN <<[t[1] EXCEPT !.g = SeqModel(t[1].g, -1, ev)], q[2]>>
    [] a.k = "grp" -> Trans(st, a.x, ci)
    [] a.k = "ci" -> Trans(st, a.x, TRUE)
RxEvent(a) ==
  LET t == Trans([g |-> [n |-> 0, rules |-> <<>>, roots |-> <<>>, wr |-> <<>>], cls |-> <<>>], a, FALSE)
      g == t[1].g
  IN [op |-> "regexp", p |-> Show(a), al |-> RxAl, a |-> a,
      res |-> [ok |-> TRUE, n |-> g.n, rules |-> g.rules, roots |-> <<t[2]>>,
               get |-> [j \in 1..Len(RxAl) |-> LET S == SelectSeq(t[1].cls, LAMBDA c : (j - 1) \in c[1]) IN [i \in 1..Len(S) |-> S[i][2]]]]]

(***************************************************************************)
(* C28  The class map: a table for ASCII, a sweep over ranges for the rest *)
(***************************************************************************)
\* [lo, hi] of the pieces of a class
Gap(lo, hi) == IF lo <= 55295 /\ hi >= 57344 THEN <<<<lo, 55295>>, <<57344, hi>>>> ELSE <<<<lo, hi>>>>
Next1(c) == IF c = 55295 THEN 57344 ELSE c + 1
RECURSIVE Merge(_)
Merge(rs) == IF Len(rs) < 2 THEN rs
             ELSE IF rs[2][1] <= rs[1][2] + 1 THEN Merge(<<<<rs[1][1], Max2(rs[1][2], rs[2][2])>>>> \o SubSeq(rs, 3, Len(rs)))
             ELSE <<rs[1]>> \o Merge(Tail(rs))
SortR(rs) == SortSeq(rs, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
Invert(rs) ==
  LET q == FoldLeft(LAMBDA a, r : <<IF r[1] > a[2] THEN Append(a[1], <<a[2], r[1] - 1>>) ELSE a[1], r[2] + 1>>, <<<<>>, 0>>, rs)
  IN IF q[2] <= 1114111 THEN Append(q[1], <<q[2], 1114111>>) ELSE q[1]
Pieces(cl) == LET m == Merge(SortR(cl.rs))
                  p == IF cl.neg = 1 THEN Invert(m) ELSE m
                  cut == FlattenSeq([i \in 1..Len(p) |-> Gap(p[i][1], p[i][2])])
              IN SelectSeq(cut, LAMBDA r : ~(r[1] \in 55296..57343 /\ r[2] \in 55296..57343))
LexMapModel(cs, probes) ==
  LET keys == FoldLeft(LAMBDA a, c : IF Pieces(c) \in Ran(a) THEN a ELSE Append(a, Pieces(c)), <<>>, cs)
      sym(c) == (CHOOSE i \in 1..Len(keys) : keys[i] = Pieces(c)) - 1
      \* changes at each point, in the order of the keys
      changes == FlattenSeq([i \in 1..Len(keys) |-> FlattenSeq([j \in 1..Len(keys[i]) |-> <<<<keys[i][j][1], TRUE, i - 1>>, <<Next1(keys[i][j][2]), FALSE, i - 1>>>>])])
      pts == Letters({changes[i][1] : i \in 1..Len(changes)})
      sweep == FoldLeft(LAMBDA a, p :
                 LET now == FoldLeft(LAMBDA S, ch : IF ch[1] # p THEN S ELSE IF ch[2] THEN S \cup {ch[3]} ELSE S \ {ch[3]},
                                     IF a = <<>> THEN {} ELSE a[Len(a)][2], changes)
                 IN Append(a, <<p, now>>), <<>>, pts)
      ascii(c) == {i - 1 : i \in {j \in 1..Len(keys) : InRanges(keys[j], c)}}
      at(c) == LET S == {i \in 1..Len(sweep) : sweep[i][1] <= c} IN
               IF c < 128 THEN ascii(c) ELSE IF S = {} THEN {} ELSE sweep[Max(S)][2]
      ends(r) == <<r[1], IF r[2] = 1114111 THEN r[2] ELSE Next1(r[2])>>
  IN [iter |-> [i \in 1..Len(cs) |-> [j \in 1..Len(Pieces(cs[i])) |-> ends(Pieces(cs[i])[j])]],
      sy |-> [i \in 1..Len(cs) |-> sym(cs[i])], get |-> [k \in 1..Len(probes) |-> Letters(at(probes[k]))]]
Points == <<0, 96, 97, 98, 99, 126, 127, 128, 129, 130, 254, 255, 256, 1000, 55295, 57344, 65535, 65536, 1114110, 1114111>>
ClassOf(k, j) ==
  LET n == Upto(k, j, 3)
      lo == 1 + Upto(k, j + 90, 13)      \* keep the points of a case near to each other
      pt(i) == Points[lo + Upto(k, j + i, 8)]
      ends(i) == LET a == pt(2 * i)  b == pt(2 * i + 1) IN <<Min2(a, b), Max2(a, b)>>
  IN [k |-> "uni", neg |-> IF Upto(k, j + 50, 5) = 0 THEN 1 ELSE 0, rs |-> [i \in 1..(n + 1) |-> ends(i)]]
GapClass(c) == c.neg = 1 /\ (\E i \in 1..Len(c.rs) : c.rs[i][2] = 55295) /\ (\E i \in 1..Len(c.rs) : c.rs[i][1] = 57344)
ClassesOf(k) == SelectSeq([i \in 1..(1 + Upto(k, 1, 4)) |-> IF i > 1 /\ Upto(k, 5 + i, 6) = 0 THEN ClassOf(k, 100) ELSE ClassOf(k, 100 * i)], LAMBDA c : ~GapClass(c))
LexEvent(k) == LET cs == ClassesOf(k) IN [op |-> "lexmap", classes |-> cs, probes |-> Points, res |-> LexMapModel(cs, Points)]

(***************************************************************************)
(* C24  Weighted picks: binary search over the sums of the weights         *)
(***************************************************************************)
PickModel(alts, num, den) ==      \* <<right-hand side, limit, draws>>
  LET start(i) == Before(alts, i)
      below == Cardinality({i \in 1..Len(alts) : start(i) * den < SumW(alts) * num})
      equal == {i \in 1..Len(alts) : start(i) * den = SumW(alts) * num}
      idx == IF equal # {} THEN Max(equal) - 1 ELSE below          \* counted from zero
  IN CASE Len(alts) = 0 -> <<<<>>, -1, 0>>
       [] Len(alts) = 1 -> <<alts[1][1], -1, 0>>
       [] OTHER -> <<alts[Max2(idx - 1, 0) + 1][1], SumW(alts), 1>>
Types == <<"u8", "u16", "u32", "f32", "f64">>
PickEvent(k) ==
  LET n == 1 + Upto(k, 1, 5)
      w(i) == Of(k, 10 + i, <<0, 8, 8, 16, 24, 8, 40>>)
      raw == [i \in 1..n |-> [l |-> IF Upto(k, 40 + i, 4) = 0 THEN 1 ELSE 0, w |-> w(i), r |-> <<3 + i>>]]
      \* a total of zero leaves nothing to draw
      alts == [i \in 1..n |-> IF \A j \in 1..n : raw[j].l = raw[i].l => raw[j].w = 0 THEN [raw[i] EXCEPT !.w = 8] ELSE raw[i]]
      picks == [i \in 1..17 |-> <<0, i - 1, 17>>] \o [i \in 1..8 |-> <<i % 3, i - 1, 8>>] \o <<<<1, 1, 3>>, <<2, 1, 2>>, <<0, 999, 1000>>>>
  IN [op |-> "pick", ty |-> Of(k, 2, Types), alts |-> alts, picks |-> picks,
      res |-> [i \in 1..Len(picks) |-> PickModel(AltsOf(alts, picks[i][1]), picks[i][2], picks[i][3])]]

(***************************************************************************)
(* C20  Bit sets: words of 32 bits                                         *)
(***************************************************************************)
\* the storage: [w |-> words, each a set of bit positions, n |-> length]
Words(n) == (n + 31) \div 32
Mask(b) == [b EXCEPT !.w = [i \in 1..Len(@) |-> IF i = Len(@) /\ b.n % 32 # 0 THEN @[i] \cap (0..((b.n % 32) - 1)) ELSE @[i]]]
FromElem(n, e) == Mask([n |-> n, w |-> [i \in 1..Words(n) |-> IF e = 1 THEN 0..31 ELSE {}]])
Bit(b, x) == (x % 32) \in b.w[(x \div 32) + 1]
BitWalk(b) == FlattenSeq([i \in 1..Len(b.w) |-> [j \in 1..Cardinality(b.w[i]) |-> Letters(b.w[i])[j] + 32 * (i - 1)]])
Shown(b) == [m |-> BitWalk(b), ix |-> Letters({x \in 0..(b.n - 1) : Bit(b, x)}), bv |-> BitWalk(b), iv |-> BitWalk(b), all |-> BitWalk(b) = [i \in 1..b.n |-> i - 1],
             empty |-> \A i \in 1..Len(b.w) : b.w[i] = {}, space |-> b.n]
WordStep(n, b, i) ==
  CASE i[1] = "set" -> [b EXCEPT !.w[(i[2] \div 32) + 1] = IF i[3] = 1 THEN @ \cup {i[2] % 32} ELSE @ \ {i[2] % 32}]
    [] i[1] = "neg" -> Mask([b EXCEPT !.w = [k \in 1..Len(@) |-> (0..31) \ @[k]]])
    [] i[1] = "union" -> FoldLeft(LAMBDA a, x : [a EXCEPT !.w[(x \div 32) + 1] = @ \cup {x % 32}], b, i[2])
    [] i[1] = "reserve" -> IF i[2] <= b.n THEN b ELSE [n |-> i[2], w |-> [k \in 1..Words(i[2]) |-> IF k <= Len(b.w) THEN b.w[k] ELSE {}]]
    [] i[1] = "reset" -> FromElem(n, 0)
    [] i[1] = "setall" -> FromElem(n, 1)
    [] OTHER -> b
Spaces == <<1, 2, 31, 32, 33, 63, 64, 65, 96, 97, 5>>
BitProg(k) ==
  LET n == Of(k, 1, Spaces)
      \* <<program, space>>
      q == FoldLeft(LAMBDA a, j :
             LET sp == a[2]
                 x == Of(k, 30 + j, <<0, sp - 1, sp \div 2, Min2(31, sp - 1), Min2(32, sp - 1)>>)
                 r == Of(k, 60 + j, <<sp + 1, sp + 31, 33, 64, 96, 1>>) IN
             CASE Upto(k, j, 8) \in {0, 1} -> <<Append(a[1], <<"set", x, Upto(k, 90 + j, 2)>>), sp>>
               [] Upto(k, j, 8) \in {2, 3} -> <<Append(a[1], <<"neg">>), sp>>
               [] Upto(k, j, 8) = 4 -> <<Append(a[1], <<"union", <<x>>>>), sp>>
               [] Upto(k, j, 8) = 5 -> <<Append(a[1], <<"reserve", r>>), Max2(sp, r)>>
               [] Upto(k, j, 8) = 6 -> <<Append(a[1], <<IF Upto(k, 90 + j, 2) = 0 THEN "reset" ELSE "setall">>), n>>
               [] OTHER -> <<Append(a[1], <<"clone">>), sp>>,
           <<<<>>, n>>, [j \in 1..(1 + Upto(k, 2, 6)) |-> j + 2])
      elem == Upto(k, 200, 2)
      runs == FoldLeft(LAMBDA a, i : Append(a, WordStep(n, a[Len(a)], i)), <<FromElem(n, elem)>>, q[1])
  IN [op |-> "bits", n |-> n, elem |-> elem, prog |-> q[1], res |-> [i \in 1..Len(runs) |-> Shown(runs[i])]]

(***************************************************************************)
(* C30  JSON: numbers around the limits of each width                      *)
(***************************************************************************)
Highs == <<0, 0, 0, 1, 65535, 65534>>
Lows == <<0, 1, 253, 254, 255, 256, 65533, 65534, 65535>>
NameChars == <<97, 34, 92, 10, 0, 31, 233, 128512, 8232, 127>>
SerEvent(k) ==
  CASE k % 4 = 0 ->
         LET v == <<Of(k, 1, Highs), Of(k, 2, Lows)>>
             w == Of(k, 3, <<8, 16, 32>>)
             \* stored one higher in a word of that width, which must not be zero
             up == IF v[2] = 65535 THEN <<v[1] + 1, 0>> ELSE <<v[1], v[2] + 1>>
             ok == CASE w = 8 -> up[1] = 0 /\ up[2] <= 255 [] w = 16 -> up[1] = 0 [] OTHER -> up[1] <= 65535
         IN [op |-> "sersym", w |-> w, big |-> 0, v |-> v, res |-> [ok |-> ok, v |-> v, eq |-> TRUE]]
    [] k % 4 = 1 ->
         LET n == Upto(k, 1, 5)
             names == [i \in 1..n |-> LET w == Upto(k, 2 + i, 5) IN IF w = 4 THEN <<-1>> ELSE [j \in 1..w |-> Of(k, 10 * i + j, NameChars)]]
         IN [op |-> "sernames", names |-> names, res |-> [ok |-> TRUE, names |-> names]]
    [] k % 4 = 2 ->
         LET n == Of(k, 1, <<0, 1, 31, 32, 33, 63, 64, 65, 100>>)
             d == Of(k, 2, <<1, 2, 3, 31, 64>>)
             set == SelectSeq([i \in 1..n |-> i - 1], LAMBDA x : (x + Upto(k, 3, d)) % d = 0)
         IN [op |-> "serset", n |-> n, set |-> set, res |-> [ok |-> TRUE, set |-> set, neg |-> Letters((0..(n-1)) \ Ran(set))]]
    [] OTHER ->
         LET ti == [i \in 1..Upto(k, 1, 6) |-> IF Upto(k, 1 + i, 3) = 0 THEN -1 ELSE Upto(k, 20 + i, 4000)]
             te == [i \in 1..Upto(k, 2, 6) |-> Upto(k, 40 + i, 4000)]
         IN [op |-> "sermap", ti |-> ti, te |-> te, res |-> [ok |-> TRUE, ti |-> ti, te |-> te]]

(***************************************************************************)
(* C01  The symbol source: programs, all of them up to a length            *)
(***************************************************************************)
SymMenu == <<[op |-> "sym", how |-> "next", names |-> <<"a">>], [op |-> "sym", how |-> "next", names |-> <<"~">>],
             [op |-> "sym", how |-> "src", names |-> <<"a", "b">>], [op |-> "sym", how |-> "gen", names |-> <<"~", "~">>],
             [op |-> "sym", how |-> "named", names |-> <<"b">>], [op |-> "sym", how |-> "sym", names |-> <<"~", "~", "~">>],
             [op |-> "sym", how |-> "lexeme", names |-> <<"c">>],
             [op |-> "truncate", k |-> 1], [op |-> "truncate", k |-> 2], [op |-> "names"], [op |-> "clone"]>>
\* the digits of the case's number
SymProg(k) == LET b == Len(SymMenu)
                  d(i) == SymMenu[(((k - 1) \div Pow(b, i)) % b) + 1]
              IN <<[op |-> "init", n |-> (k * 7 + Seed) % 3, rules |-> <<>>, names |-> [i \in 1..((k * 7 + Seed) % 3) |-> IF i = 1 THEN "x" ELSE "~"]],
                   d(0), d(1), d(2), [op |-> "names"], d(3), [op |-> "names"]>>
FirstNamed(names) == LET S == {i \in 1..Len(names) : names[i] # "~"} IN Letters({i - 1 : i \in S})
SymRun(s, o) ==
  LET g == s.g IN
  CASE o.op = "init" -> o @@ [post |-> [n |-> o.n, rules |-> <<>>, roots |-> <<>>, wr |-> <<>>, names |-> o.names]]
    [] o.op = "sym" -> o @@ [res |-> [i \in 1..Len(o.names) |-> g.n + i - 1], post |-> [g EXCEPT !.n = @ + Len(o.names), !.names = @ \o o.names]]
    [] o.op = "truncate" -> o @@ [post |-> [g EXCEPT !.n = o.k, !.names = SubSeq(@, 1, o.k)]]
    [] o.op = "clone" -> o @@ [post |-> g]
    [] OTHER -> LET named == FirstNamed(g.names)
                    keep == SelectSeq(named, LAMBDA x : \A y \in Ran(named) : g.names[y+1] = g.names[x+1] => x <= y)
                IN o @@ [res |-> [n |-> g.n, orig |-> g.names, disp |-> [i \in 1..g.n |-> IF g.names[i] = "~" THEN "g" \o ToString(i - 1) ELSE g.names[i]],
                                  map |-> [i \in 1..Len(keep) |-> <<g.names[keep[i]+1], keep[i]>>]]]

(***************************************************************************)
(* Behaviours                                                              *)
(***************************************************************************)
Single(k) == CASE Prop = "C27" -> RxEvent(Rx(k))
               [] Prop = "C28" -> LexEvent(k)
               [] Prop = "C24" -> PickEvent(k)
               [] Prop = "C20" -> BitProg(k)
               [] Prop = "C30" -> SerEvent(k)
OpsFor(k) == IF Prop = "C01" THEN SymProg(k) ELSE <<>>
\* an event without what the model says of the outcome
Asked(ev) == [f \in DOMAIN ev \ {"res", "post"} |-> ev[f]]

VARIABLES k, i, s, ok,
          did      \* the operations performed
Init == /\ k \in 1..NumCases
        /\ i = 0
        /\ s = [g |-> [n |-> 0, rules |-> <<>>, roots |-> <<>>, wr |-> <<>>, names |-> <<>>], lim |-> -1]
        /\ ok = TRUE
        /\ did = <<>>
CanDo(o) == o.op = "truncate" => o.k <= s.g.n
\* operations that make no sense in a state are passed over
Step == /\ Prop = "C01"
        /\ i < Len(OpsFor(k))
        /\ i' = i + 1
        /\ LET o == OpsFor(k)[i+1] IN
           IF CanDo(o) THEN LET ev == SymRun(s, o) IN
                            /\ ok' = Contract(Prop, s, ev)
                            /\ s' = IF Has(ev, "post") THEN [s EXCEPT !.g = ev.post] ELSE s
                            /\ did' = Append(did, o)
           ELSE UNCHANGED <<s, ok, did>>
        /\ UNCHANGED k
        /\ (i' = Len(OpsFor(k)) => PrintT("CASE " \o ToJson([ops |-> did'])))
Once == /\ Prop # "C01"
        /\ i = 0
        /\ i' = 1
        /\ LET ev == Single(k) IN
           /\ ok' = Contract(Prop, s, ev)
           /\ PrintT("CASE " \o ToJson([ops |-> (IF Prop = "C20" THEN <<[op |-> "init", n |-> 1, rules |-> <<>>]>> ELSE <<>>) \o <<Asked(ev)>>]))
        /\ UNCHANGED <<k, s, did>>
Next == Step \/ Once
Sound == ok
=============================================================================
