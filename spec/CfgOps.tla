------------------------------- MODULE CfgOps -------------------------------
(***************************************************************************)
(* The contract of every operation on a grammar: which results and which   *)
(* next grammars are allowed, given the grammar before.                    *)
(*                                                                         *)
(* `s' is the state of a session: [g |-> grammar, lim |-> limit on the     *)
(* length of right-hand sides or -1].  `ev' is an event: the operation's   *)
(* name and arguments, its result `res' and the grammar after it, `post'.  *)
(***************************************************************************)
EXTENDS CfgSem

CONSTANT Deep    \* added to the length bounds of languages

Letters(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Alphabet(g) == Letters(Terms(g) \cap RhsSyms(g))
KeepsNames(g, h) == Has(g, "names") => /\ Len(h.names) = h.n
                                       /\ SubSeq(h.names, 1, g.n) = g.names
SameButRules(g, h) == h.n = g.n /\ h.roots = g.roots /\ h.wr = g.wr /\ KeepsNames(g, h)
SameGrammar(g, h) == SameButRules(g, h) /\ h.rules = g.rules
Abs(x) == IF x < 0 THEN -x ELSE x
\* weights are kept to a thousandth
SameWeight(a, b) == \/ a = b
                    \/ a >= 0 /\ b >= 0 /\ Abs(a - b) <= 1
Arg(ev, f, d) == IF Has(ev, f) THEN ev[f] ELSE d

(***************************************************************************)
(* C01  symbols and names                                                  *)
(***************************************************************************)
C01_sym(s, ev) ==
  LET g == s.g  k == Len(ev.names) IN
  /\ ev.res = [i \in 1..k |-> g.n + i - 1]
  /\ ev.post.n = g.n + k
  /\ ev.post.names = g.names \o ev.names
  /\ ev.post.rules = g.rules
C01_truncate(s, ev) ==
  /\ ev.post.n = ev.k
  /\ ev.post.names = SubSeq(s.g.names, 1, ev.k)
C01_names(s, ev) ==
  LET g == s.g
      nm(i) == IF i < g.n THEN g.names[i+1] ELSE "~" IN
  /\ ev.res.n = g.n
  /\ \A i \in 0..(Len(ev.res.orig) - 1) : ev.res.orig[i+1] = nm(i)
  /\ \A i \in 0..(Len(ev.res.disp) - 1) :
        ev.res.disp[i+1] = (IF nm(i) = "~" THEN "g" \o ToString(i) ELSE nm(i))
  /\ LET m == Ran(ev.res.map) IN
     /\ {e[1] : e \in m} = Ran(g.names) \ {"~"}
     /\ \A e \in m : nm(e[2]) = e[1]
C01_init(ev) == ev.post.n = ev.n /\ ev.post.names = ev.names
C01_narrow(ev) ==
  /\ ev.res.x = [i \in 1..ev.a |-> i - 1]
  /\ ev.res.y = [i \in 1..ev.b |-> ev.t + i - 1]
  /\ ev.res.n = <<ev.a, ev.t, ev.t + ev.b>>
  /\ ev.res.names = [i \in 1..(ev.t + ev.b) |-> IF i <= ev.t THEN "n" \o ToString(i - 1) ELSE "~"]
C01(s, ev) == CASE ev.op = "sym" -> C01_sym(s, ev)
                [] ev.op = "truncate" -> C01_truncate(s, ev)
                [] ev.op = "names" -> C01_names(s, ev)
                [] ev.op = "init" -> C01_init(ev)
                [] ev.op = "clone" -> SameGrammar(s.g, ev.post)
                [] ev.op = "narrow" -> C01_narrow(ev)
                [] OTHER -> TRUE

(***************************************************************************)
(* C02  editing the rule list (no limit on length in force)                *)
(***************************************************************************)
\* the rule that a rule-adding call asks for
WantedOrigin(a) == IF Arg(a, "how", "b") \in {"p", "l"} THEN 0 ELSE Arg(a, "o", 0)
WantedWeight(a) == IF Arg(a, "how", "b") = "p" THEN -1 ELSE Arg(a, "w", -1)
IsRule(q, l, a) == /\ q.l = l /\ q.r = a.r /\ q.o = WantedOrigin(a)
                   /\ SameWeight(q.w, WantedWeight(a)) /\ q.u = Arg(a, "u", <<>>)
\* (rules longer than a limit in force are split: property C03)
Fits(s, as) == s.lim < 0 \/ \A i \in 1..Len(as) : Len(as[i].r) <= s.lim
AppendedBy(g, h, as, l(_)) ==
  /\ SameButRules(g, h)
  /\ Len(h.rules) = Len(g.rules) + Len(as)
  /\ SubSeq(h.rules, 1, Len(g.rules)) = g.rules
  /\ \A i \in 1..Len(as) : IsRule(h.rules[Len(g.rules) + i], l(i), as[i])
\* left-hand side in force for the i-th alternative of a builder chain
RECURSIVE ChainLhs(_, _, _)
ChainLhs(l, alts, i) == IF i = 0 THEN l ELSE IF Has(alts[i], "nl") THEN alts[i].nl ELSE ChainLhs(l, alts, i - 1)

RECURSIVE SeqLess(_, _)
SeqLess(a, b) == CASE a = <<>> -> b # <<>>
                   [] b = <<>> -> FALSE
                   [] a[1] # b[1] -> a[1] < b[1]
                   [] OTHER -> SeqLess(Tail(a), Tail(b))
RuleLess(p, q) == p.l < q.l \/ (p.l = q.l /\ SeqLess(p.r, q.r))
SortLess(key, p, q) == CASE key = "len" -> Len(p.r) < Len(q.r)
                         [] key = "lenrev" -> Len(q.r) < Len(p.r)
                         [] OTHER -> q.l < p.l
SortedBag(g, h, less(_, _)) == /\ SameButRules(g, h)
                               /\ SameBag(h.rules, g.rules)
                               /\ \A i \in 1..(Len(h.rules)-1) : ~less(h.rules[i+1], h.rules[i])
Drops(ev, r) == (r.l + Len(r.r) + FoldLeft(LAMBDA a, b : a + b, 0, r.r)) % ev.m = ev.k
Starts(rs) == {i \in 1..Len(rs) : i = 1 \/ P(rs[i]) # P(rs[i-1])}    \* starts of runs of duplicates
C02_dedup(g, h) ==
  LET st == SetToSortSeq(Starts(g.rules), LAMBDA a, b : a < b)
      end(k) == IF k = Len(st) THEN Len(g.rules) ELSE st[k+1] - 1
  IN /\ SameButRules(g, h)
     /\ Len(h.rules) = Len(st)
     /\ \A k \in 1..Len(st) : \E i \in st[k]..end(k) : h.rules[k] = g.rules[i]
C02_column(g, ev) ==
  /\ Len(ev.res) = Len(g.rules)
  /\ \A i \in 1..Len(g.rules) :
       LET r == g.rules[i].r  k == ev.k IN
       ev.res[i] = <<g.rules[i].l, IF k >= 1 /\ k <= Len(r) THEN r[k] ELSE -1,
                     IF k + 1 <= Len(r) THEN r[k+1] ELSE -1>>
C02(s, ev) ==
  LET g == s.g IN
  CASE ev.op = "init" ->
         /\ ev.post.n = ev.n /\ ev.post.roots = ev.roots /\ ev.post.wr = <<>>
         /\ Len(ev.post.rules) = Len(ev.rules)
         /\ \A i \in 1..Len(ev.rules) : IsRule(ev.post.rules[i], ev.rules[i].l, ev.rules[i])
    [] ev.op = "rule" -> Fits(s, <<ev>>) => /\ AppendedBy(g, ev.post, <<ev>>, LAMBDA i : ev.l)
                                            /\ (ev.how = "a" => ev.res = 1)
    [] ev.op = "rules" -> Fits(s, ev.alts) => AppendedBy(g, ev.post, ev.alts, LAMBDA i : ChainLhs(ev.l, ev.alts, i))
    [] ev.op = "extend" -> Fits(s, ev.rules) => AppendedBy(g, ev.post, ev.rules, LAMBDA i : ev.rules[i].l)
    [] ev.op = "clear" -> SameButRules(g, ev.post) /\ ev.post.rules = <<>>
    [] ev.op = "retain" -> SameButRules(g, ev.post) /\ ev.post.rules = SelectSeq(g.rules, LAMBDA r : ~Drops(ev, r))
    [] ev.op = "sort" -> SortedBag(g, ev.post, RuleLess)
    [] ev.op = "sortby" -> SortedBag(g, ev.post, LAMBDA p, q : SortLess(ev.key, p, q))
    [] ev.op = "dedup" -> C02_dedup(g, ev.post)
    [] ev.op = "reverse" -> /\ SameButRules(g, ev.post)
                            /\ ev.post.rules = [i \in 1..Len(g.rules) |-> [g.rules[i] EXCEPT !.r = Reverse(@)]]
    [] ev.op = "clone" -> SameGrammar(g, ev.post)
    [] ev.op = "roots" -> /\ ev.post = [g EXCEPT !.roots = ev.v]
                          /\ ev.res = (ev.v # <<>>)
    [] ev.op = "rootsrev" -> ev.post = [g EXCEPT !.roots = Reverse(@)]
    [] ev.op = "empty" -> \/ g.wr # <<>> /\ Ran(g.roots) # {w[1] : w \in Ran(g.wr)}
                          \/ ev.res = (Lhss(g) \subseteq {w[1] : w \in Ran(g.wr)})
    [] ev.op = "equivcopy" -> LET same == PairSeq(g.rules) = PairSeq(ev.res.other) IN ev.res.ab = same /\ ev.res.ba = same
    [] ev.op = "column" -> C02_column(g, ev)
    [] OTHER -> TRUE

(***************************************************************************)
(* C03  limiting right-hand side length                                    *)
(***************************************************************************)
\* replace helper symbols (those in DOMAIN def) by their definitions
RECURSIVE Unfold(_, _, _)
Unfold(def, x, fuel) ==
  IF fuel = 0 \/ \A i \in 1..Len(x) : x[i] \notin DOMAIN def THEN x
  ELSE Unfold(def, FlattenSeq([i \in 1..Len(x) |-> IF x[i] \in DOMAIN def THEN def[x[i]] ELSE <<x[i]>>]), fuel - 1)
Occurrences(rs, x) == FoldLeft(LAMBDA a, r : a + Count(r.r, x), 0, rs)
\* H: helper symbols of h; each has one definition and one use
HelpersOK(h, H) ==
  \A x \in H : /\ Cardinality({i \in 1..Len(h.rules) : h.rules[i].l = x}) = 1
               /\ Occurrences(h.rules, x) = 1
HelperDef(h, H) == [x \in H |-> (CHOOSE r \in Ran(h.rules) : r.l = x).r]
Unfolded(h, H) ==
  LET def == HelperDef(h, H)
      top == SelectSeq(h.rules, LAMBDA r : r.l \notin H)
  IN [i \in 1..Len(top) |-> [top[i] EXCEPT !.r = Unfold(def, @, Cardinality(H) + 1)]]
\* wanted: the productions (in any order) that h must amount to
AmountsTo(g, h, wanted, lim) ==
  LET H == g.n..(h.n - 1) IN
  /\ h.n >= g.n /\ h.roots = g.roots /\ h.wr = g.wr /\ KeepsNames(g, h)
  /\ HelpersOK(h, H)
  /\ SameBag(PairSeq(Unfolded(h, H)), wanted)
  /\ lim >= 0 => \A i \in 1..Len(h.rules) : Len(h.rules[i].r) <= lim
C03(s, ev) ==
  CASE ev.op = "limit" ->
         /\ AmountsTo(s.g, ev.post, PairSeq(s.g.rules), ev.k)
         /\ (ev.k = s.lim \/ ev.k = -1) => ev.post.n = s.g.n
    [] ev.op = "rule" ->
         /\ AmountsTo(s.g, ev.post, Append(PairSeq(s.g.rules), <<ev.l, ev.r>>), s.lim)
         /\ ev.how = "a" => ev.res = Len(ev.post.rules) - Len(s.g.rules)
    [] ev.op = "rules" ->
         AmountsTo(s.g, ev.post, PairSeq(s.g.rules) \o [i \in 1..Len(ev.alts) |-> <<ChainLhs(ev.l, ev.alts, i), ev.alts[i].r>>], s.lim)
    [] ev.op = "extend" ->
         AmountsTo(s.g, ev.post, PairSeq(s.g.rules) \o PairSeq(ev.rules), s.lim)
    \* whatever else is done, a limit in force is kept to
    [] OTHER -> (Has(ev, "post") /\ ev.op # "init" /\ s.lim >= 2 /\ \A i \in 1..Len(s.g.rules) : Len(s.g.rules[i].r) <= s.lim)
                  => \A i \in 1..Len(ev.post.rules) : Len(ev.post.rules[i].r) <= s.lim

(***************************************************************************)
(* C04, C05  nulling elimination                                           *)
(***************************************************************************)
SameNonEmpty(L1, L2, X) == \A x \in X : NoEps(L1[x]) = NoEps(L2[x])
C04_lang(s, ev) ==
  CASE ev.op = "elim" ->
     LET g == s.g  h == ev.post  T == Alphabet(g)  K == KFor(Len(T), Deep) IN
     /\ h.n >= g.n /\ h.roots = g.roots /\ h.wr = g.wr /\ KeepsNames(g, h)
     /\ \A i \in 1..Len(h.rules) : Len(h.rules[i].r) \in 1..2
     /\ Lhss(h) \cap Terms(g) = {}
     /\ SameNonEmpty(LangsOf(g, T, K), LangsOf(h, T, K), Lhss(g))
     /\ Len(T) > 1 => SameNonEmpty(LengthsOf(g, T, LongK), LengthsOf(h, T, LongK), Lhss(g))
     /\ Toned(g, T) => SameNonEmpty(TonesOf(g, T, ToneK), TonesOf(h, T, ToneK), Lhss(g))
    [] OTHER -> TRUE
\* symbols with rules before that are left without rules, but in use: they would pass for terminals
LeftBare(g, h) == (RhsSyms(h) \cap Lhss(g)) \ Lhss(h)
C04(s, ev) == C04_lang(s, ev) /\ (ev.op = "elim" => LeftBare(s.g, ev.post) = {})
\* Known finding: symbols that derive no non-empty string lose all their rules but stay on right-hand
\* sides of symbols that derive something without them.
C04_known(s, ev) ==
  /\ C04_lang(s, ev)
  /\ LET h == ev.post
         bare == LeftBare(s.g, h)
         pr == CloseAll(Pairs(h.rules), Terms(h) \ bare)
     IN Lhss(h) \subseteq pr
C05(s, ev) ==
  CASE ev.op = "elim" ->
     LET g == s.g  z == ev.res  N == Nullable(z) IN
     /\ z.n = ev.post.n
     /\ (Has(g, "names") => z.names = ev.post.names)
     /\ N \cap Syms(g) = Nullable(g)
     /\ \A i \in 1..Len(z.rules) : Ran(z.rules[i].r) \subseteq N
     \* no derivation of the empty string is lost or added
     /\ {P(r) : r \in Ran(Unfolded(z, (g.n..(z.n - 1)) \cap Lhss(z)))} = {P(r) : r \in {q \in Ran(g.rules) : Ran(q.r) \subseteq N}}
    [] OTHER -> TRUE

(***************************************************************************)
(* C06  origins and weights through transformations                        *)
(***************************************************************************)
Tag(r) == <<r.l, r.r, r.o, r.w>>
TagSeq(rs) == [i \in 1..Len(rs) |-> Tag(rs[i])]
FTag(r) == <<r.l, r.r, r.o, r.w, r.u>>
FTagSeq(rs) == [i \in 1..Len(rs) |-> FTag(rs[i])]
HelpersHaveNoOrigin(g, h) == \A i \in 1..Len(h.rules) : h.rules[i].l >= g.n => h.rules[i].o = -1
\* q stands for rule p of a binarized grammar with nullable symbols N
StandsFor(q, p, N) ==
  \/ FTag(q) = FTag(p)
  \/ /\ Len(p.r) = 2 /\ q.l = p.l /\ Len(q.r) = 1 /\ q.o = p.o
     /\ \/ /\ p.r[1] \in N /\ p.r[2] \in N
           /\ q.r[1] \in Ran(p.r)
        \/ /\ p.r[1] \in N /\ p.r[2] \notin N
           /\ q.r[1] = p.r[2] /\ q.w = p.w /\ q.u = <<p.r[1], 0>>
        \/ /\ p.r[1] \notin N /\ p.r[2] \in N
           /\ q.r[1] = p.r[1] /\ q.w = p.w /\ q.u = <<p.r[2], 1>>
C06_limit(g, h, k, wanted) ==
  LET H == g.n..(h.n - 1)
      unf == Unfolded(h, H) IN
  /\ HelpersOK(h, H) /\ SameBag(TagSeq(unf), wanted)
  /\ k = 2 => HelpersHaveNoOrigin(g, h)
C06_elim(g, h, z) ==
  LET N == Nullable(g) IN
  (\A i \in 1..Len(g.rules) : Len(g.rules[i].r) <= 2) =>
    /\ \A i \in 1..Len(h.rules) : \E j \in 1..Len(g.rules) : StandsFor(h.rules[i], g.rules[j], N)
    /\ \A i \in 1..Len(z.rules) : \E j \in 1..Len(g.rules) : P(z.rules[i]) = P(g.rules[j]) /\ z.rules[i].o = g.rules[j].o
C06_cycles(g, h) ==
  LET U == TC(UnitEdges(g))
      alike(x, y) == x = y \/ (y \in U[x] /\ x \in U[y])
      inCycle(r) == Len(r.r) = 1 /\ r.l \in U[r.r[1]]
      left == SelectSeq(g.rules, LAMBDA r : ~inCycle(r))
      free == \A x \in Syms(g) : x \notin U[x]
  IN IF free THEN SameBag(FTagSeq(h.rules), FTagSeq(g.rules))
     ELSE /\ Len(h.rules) = Len(left)
          /\ SameBag([i \in 1..Len(left) |-> <<left[i].o, left[i].w, left[i].u>>],
                     [i \in 1..Len(h.rules) |-> <<h.rules[i].o, h.rules[i].w, h.rules[i].u>>])
          /\ \A i \in 1..Len(h.rules) : \E j \in 1..Len(left) :
               LET q == h.rules[i]  p == left[j] IN
               /\ q.o = p.o /\ q.w = p.w /\ q.u = p.u /\ Len(q.r) = Len(p.r) /\ alike(q.l, p.l)
               /\ \A k \in 1..Len(q.r) : alike(q.r[k], p.r[k])
AddedTag(s, ev, h) ==    \* weights are kept to a thousandth: take the one recorded if it is close enough
  LET w == WantedWeight(ev)
      cand == {h.rules[i].w : i \in 1..Len(h.rules)}
      w2 == IF w \in cand \/ ~(\E c \in cand : SameWeight(c, w)) THEN w ELSE CHOOSE c \in cand : SameWeight(c, w)
  IN <<ev.l, ev.r, WantedOrigin(ev), w2>>

(***************************************************************************)
(* C13, C14  renumbering                                                   *)
(***************************************************************************)
\* position of x among 0..n-1 ordered by key, ties in numeric order
PosBy(n, key, x) == Cardinality({y \in 0..(n-1) : key[y] < key[x] \/ (key[y] = key[x] /\ y < x)})
\* one step on [n, f]: f maps the symbols of the session's start to current ones or -1
RemapStep(g, m, st) ==
  IF st.t = "reorder" THEN
    LET key == TLCEval([x \in 0..(m.n-1) |-> (x * st.a + st.b) % st.m])
        pos == TLCEval([x \in 0..(m.n-1) |-> PosBy(m.n, key, x)])
    IN [n |-> m.n, f |-> TLCEval([x \in Syms(g) |-> IF m.f[x] = -1 THEN -1 ELSE pos[m.f[x]]])]
  ELSE
    LET used == {m.f[x] : x \in UsedSyms(g)}
        pos == TLCEval([x \in 0..(m.n-1) |-> IF x \in used THEN Cardinality({y \in used : y < x}) ELSE -1])
    IN [n |-> Cardinality(used), f |-> TLCEval([x \in Syms(g) |-> IF m.f[x] = -1 THEN -1 ELSE pos[m.f[x]]])]
RemapOf(g, steps) == FoldLeft(LAMBDA m, st : RemapStep(g, m, st), [n |-> g.n, f |-> [x \in Syms(g) |-> x]], steps)
MapSeq(f, s) == [i \in 1..Len(s) |-> f[s[i]]]
MapRule(f, r) == [r EXCEPT !.l = f[@], !.r = MapSeq(f, @)]
MapRules(f, rs) == [i \in 1..Len(rs) |-> MapRule(f, rs[i])]
Remapped(g, ev) ==
  LET m == RemapOf(g, ev.steps)
      f == m.f
      h == ev.post
      kept == {x \in Syms(g) : f[x] # -1}
  IN /\ h.n = m.n
     /\ SameBag(TagSeq(MapRules(f, g.rules)), TagSeq(h.rules))
     /\ (\A i \in 1..Len(g.roots) : f[g.roots[i]] # -1) => h.roots = MapSeq(f, g.roots)
     /\ h.wr = [i \in 1..Len(g.wr) |-> MapSeq(f, g.wr[i])]
     /\ (Has(g, "names") => Len(h.names) = h.n /\ \A x \in kept : h.names[f[x]+1] = g.names[x+1])
     /\ \A x \in kept : ev.res.ti[x+1] = f[x] /\ ev.res.te[f[x]+1] = x
     /\ (kept = Syms(g) => Len(ev.res.ti) = g.n /\ Len(ev.res.te) = g.n)
C13(s, ev) ==
  CASE ev.op = "remap" -> Remapped(s.g, ev)
    [] ev.op = "translate" ->
         /\ ev.res.ti = [i \in 1..Len(ev.a.ti) |-> IF ev.a.ti[i] = -1 THEN -1 ELSE ev.b.ti[ev.a.ti[i]+1]]
         /\ ev.res.te = [i \in 1..Len(ev.b.te) |-> ev.a.te[ev.b.te[i]+1]]
    [] OTHER -> TRUE
C14(s, ev) == ev.op = "remap" => Remapped(s.g, ev)

C06(s, ev) ==
  LET g == s.g IN
  CASE ev.op = "init" -> \A i \in 1..Len(ev.rules) : IsRule(ev.post.rules[i], ev.rules[i].l, ev.rules[i])
    [] ev.op = "rule" -> LET tag == AddedTag(s, ev, ev.post) IN
                         /\ C06_limit(g, ev.post, s.lim, Append(TagSeq(g.rules), tag))
                         /\ SameWeight(tag[4], WantedWeight(ev))
    [] ev.op = "limit" -> C06_limit(g, ev.post, ev.k, TagSeq(g.rules))
    [] ev.op = "elim" -> C06_elim(g, ev.post, ev.res)
    [] ev.op = "cycrw" -> C06_cycles(g, ev.post)
    [] ev.op = "remap" -> SameBag(TagSeq(MapRules(RemapOf(g, ev.steps).f, g.rules)), TagSeq(ev.post.rules))
    [] ev.op = "reverse" -> SameBag([i \in 1..Len(g.rules) |-> FTag([g.rules[i] EXCEPT !.r = Reverse(@)])], FTagSeq(ev.post.rules))
    [] ev.op = "sort" -> SameBag(FTagSeq(g.rules), FTagSeq(ev.post.rules))
    [] OTHER -> TRUE

(***************************************************************************)
(* C07  sequences                                                          *)
(***************************************************************************)
\* the word of k elements in a given style
SeqWord(k, x, sep, style) ==
  FlattenSeq([i \in 1..k |-> IF style = "null" \/ (style = "proper" /\ i = k) THEN <<x>> ELSE <<x, sep>>])
SeqWords(ev, K) ==
  LET top == IF ev.e = -1 THEN K ELSE Min2(ev.e, K)
      styles == CASE ev.mode = "null" -> {"null"} [] ev.mode = "proper" -> {"proper"}
                  [] ev.mode = "trailing" -> {"trailing"} [] OTHER -> {"proper", "trailing"}
  IN {SeqWord(k, ev.x, ev.sep, st) : k \in ev.s..top, st \in styles}
C07_atoms(g, ev) ==
  Letters(({ev.x} \cup (IF ev.mode = "null" THEN {} ELSE {ev.sep})
           \cup (UNION {Ran(r.r) : r \in {q \in Ran(g.rules) : q.l = ev.l}})) \ {ev.l})
\* language of the left-hand side with everything else taken as atoms, when the new rules are `new'
C07_lang(g, h, ev, new, K) ==
  LET T == C07_atoms(g, ev)
      own == {p \in Pairs(g.rules) : p[1] = ev.l}
  IN Langs(h.n, own \cup new, T, K)[ev.l]
C07_K(g, ev) == LET t == Len(C07_atoms(g, ev)) IN IF t <= 1 THEN 34 ELSE IF t = 2 THEN 26 ELSE IF t = 3 THEN 16 ELSE 12
C07_new(g, h) == LET k == Len(g.rules) IN SubSeq(h.rules, k + 1, Len(h.rules))
C07_shape(g, h, ev) ==
  /\ h.n >= g.n /\ h.roots = g.roots
  /\ Len(h.rules) >= Len(g.rules) /\ SubSeq(h.rules, 1, Len(g.rules)) = g.rules
  /\ \A r \in Ran(C07_new(g, h)) : r.l = ev.l \/ r.l >= g.n
\* A left-hand side without other rules, element and separator different: all factors of the
\* words alternate, so a word is given by its length and first letter (0: element, 1: separator),
\* and 2 stands for any word that does not alternate.  This is exact for words of any length.
AltCat(A, B, K) ==
  LET put(i, a, j, b) == CASE i = 0 -> b [] j = 0 -> a
                           [] a = 2 \/ b = 2 -> 2
                           [] (a + i - 1) % 2 # b -> a
                           [] OTHER -> 2
  IN TLCEval([k \in 0..K |-> UNION {{put(i, a, k - i, b) : a \in A[i], b \in B[k-i]} : i \in {j \in 0..k : A[j] # {} /\ B[k-j] # {}}}])
AltStr(L, w, K) == IF w = <<>> THEN EpsLang(K) ELSE FoldLeft(LAMBDA a, y : AltCat(a, L[y], K), L[w[1]], Tail(w))
RECURSIVE AltFix(_, _, _)
AltFix(Rs, L, K) ==
  LET L2 == FoldLeft(LAMBDA M, p : LET w == AltStr(M, p[2], K)  o == M[p[1]] IN
                                   IF \A k \in 0..K : w[k] \subseteq o[k] THEN M
                                   ELSE TLCEval([M EXCEPT ![p[1]] = UniL(o, w, K)]), L, Rs)
  IN IF L2 = L THEN L ELSE AltFix(Rs, L2, K)
AltLang(h, ev, new, K) ==
  LET L0 == TLCEval([y \in 0..(h.n-1) |-> CASE y = ev.x -> [EmptyLang(K) EXCEPT ![1] = {0}]
                                           [] y = ev.sep -> [EmptyLang(K) EXCEPT ![1] = {1}]
                                           [] OTHER -> EmptyLang(K)])
      prod == CloseAll(new, {ev.x, ev.sep})
      \* helpers first: those added last are the innermost
      Rs == SetToSortSeq({p \in new : Ran(p[2]) \subseteq prod}, LAMBDA a, b : a[1] > b[1])
  IN AltFix(Rs, L0, K)[ev.l]
AltWanted(ev, K) ==
  LET top == IF ev.e = -1 THEN K ELSE Min2(ev.e, K)
      lens == UNION {IF k = 0 THEN {0} ELSE CASE ev.mode = "proper" -> {2*k-1} [] ev.mode = "trailing" -> {2*k} [] OTHER -> {2*k-1, 2*k} : k \in ev.s..top}
  IN [k \in 0..K |-> IF k \in lens THEN {0} ELSE {}]
C07_plain(g, ev) == ev.l \notin Lhss(g) /\ ev.x # ev.l /\ ev.sep # ev.l
C07_bigK(ev, per) == per * (IF ev.e = -1 THEN ev.s + 9 ELSE ev.e + 1) + 1
C07_one(g, h, ev, new) ==      \* for a left-hand side without other rules
  IF ev.mode # "null" /\ ev.x # ev.sep
  THEN LET K == C07_bigK(ev, 2) IN AltLang(h, ev, new, K) = AltWanted(ev, K)
  ELSE LET K == C07_bigK(ev, 1) IN C07_lang(g, h, ev, new, K) = C07_lang(g, h, ev, {<<ev.l, w>> : w \in SeqWords(ev, K)}, K)
C07(s, ev) ==
  CASE ev.op = "seqs" ->    \* several through one builder, for different left-hand sides without other rules
     LET g == s.g  h == ev.post
         new == Pairs(C07_new(g, h))
     IN /\ h.n >= g.n /\ h.roots = g.roots
        /\ Len(h.rules) >= Len(g.rules) /\ SubSeq(h.rules, 1, Len(g.rules)) = g.rules
        /\ \A r \in Ran(C07_new(g, h)) : r.l >= g.n \/ \E k \in 1..Len(ev.list) : ev.list[k].l = r.l
        /\ \A k \in 1..Len(ev.list) : C07_one(g, h, ev.list[k], new)
    [] ev.op = "seq" ->
     LET g == s.g  h == ev.post
         new == Pairs(C07_new(g, h))
     IN /\ C07_shape(g, h, ev)
        /\ IF C07_plain(g, ev) /\ (ev.mode = "null" \/ ev.x # ev.sep) THEN C07_one(g, h, ev, new)
           ELSE LET K == C07_K(g, ev) IN
                C07_lang(g, h, ev, new, K) = C07_lang(g, h, ev, {<<ev.l, w>> : w \in SeqWords(ev, K)}, K)
    [] OTHER -> TRUE
\* Known finding: one-or-more sequences recurse on a left-hand side that has other rules.
C07_known(s, ev) ==
  /\ ev.op = "seq" /\ ev.s = 1 /\ ev.e = -1 /\ ev.mode \in {"null", "proper"}
  /\ ev.l \in Lhss(s.g)
  /\ LET g == s.g  h == ev.post
         K == C07_K(g, ev)
     IN /\ C07_shape(g, h, ev)
        /\ C07_lang(g, h, ev, Pairs(C07_new(g, h)), K)
             = C07_lang(g, h, ev, {<<ev.l, <<ev.x>>>>, <<ev.l, IF ev.mode = "null" THEN <<ev.l, ev.x>> ELSE <<ev.l, ev.sep, ev.x>>>>}, K)

(***************************************************************************)
(* C08  precedence                                                         *)
(***************************************************************************)
\* The program of one builder (between "next" marks): a sequence of instructions.
\* Alternatives with their level (0: tightest) and associativity.
RECURSIVE PrecAlts(_, _, _, _)
PrecAlts(prog, i, lv, as) ==
  IF i > Len(prog) THEN <<>>
  ELSE CASE prog[i][1] = "lower" -> PrecAlts(prog, i + 1, lv + 1, as)
         [] prog[i][1] = "assoc" -> PrecAlts(prog, i + 1, lv, prog[i][2])
         [] OTHER -> <<[lv |-> lv, as |-> as, r |-> prog[i][2], o |-> prog[i][3]]>> \o PrecAlts(prog, i + 1, lv, "L")
PrecTop(prog) == Cardinality({i \in 1..Len(prog) : prog[i][1] = "lower"})
\* split at "next"
RECURSIVE PrecSplit(_, _, _, _)
PrecSplit(prog, i, lhs, acc) ==
  IF i > Len(prog) THEN <<[l |-> lhs, prog |-> acc]>>
  ELSE IF prog[i][1] = "next" THEN <<[l |-> lhs, prog |-> acc]>> \o PrecSplit(prog, i + 1, prog[i][2], <<>>)
  ELSE PrecSplit(prog, i + 1, lhs, Append(acc, prog[i]))
\* right-hand side of an alternative, given the symbols of the levels lev[0..top]
PrecRhs(a, lhs, lev, top) ==
  LET pos == {i \in 1..Len(a.r) : a.r[i] = lhs}
      ext == IF a.as = "L" THEN Min(pos) ELSE Max(pos)
      tight == lev[Max2(a.lv - 1, 0)]
  IN [i \in 1..Len(a.r) |->
        IF i \notin pos THEN a.r[i]
        ELSE IF a.as = "G" THEN lev[top]
        ELSE IF i = ext THEN lev[a.lv] ELSE tight]
PrecRules(b, lev) ==
  LET top == PrecTop(b.prog)
      alts == PrecAlts(b.prog, 1, 0, "L")
  IN [i \in 1..Len(alts) |-> <<lev[alts[i].lv], PrecRhs(alts[i], b.l, lev, top), alts[i].o>>]
     \o [i \in 1..top |-> <<lev[i], <<lev[i-1]>>, -1>>]
     \o <<<<b.l, <<lev[top]>>, -1>>>>
\* follow the chain of plain unit rules from x downwards
UnitNext(new, x) == {r.r[1] : r \in {q \in new : q.l = x /\ q.o = -1 /\ Len(q.r) = 1}}
RECURSIVE PrecChain(_, _, _)
PrecChain(new, x, k) == IF k = 0 THEN <<>> ELSE
  LET nx == UnitNext(new, x) IN
  IF Cardinality(nx) # 1 THEN <<>> ELSE LET y == CHOOSE z \in nx : TRUE IN <<y>> \o PrecChain(new, y, k - 1)
C08(s, ev) ==
  CASE ev.op = "prec" ->
     LET g == s.g  h == ev.post
         k == Len(g.rules)
         new == SubSeq(h.rules, k + 1, Len(h.rules))
         bs == PrecSplit(ev.prog, 1, ev.l, <<>>)
         chain(b) == Reverse(PrecChain(Ran(new), b.l, PrecTop(b.prog) + 1))
     IN /\ SubSeq(h.rules, 1, k) = g.rules /\ h.roots = g.roots
        /\ \A i \in 1..Len(bs) : Len(chain(bs[i])) = PrecTop(bs[i].prog) + 1
        /\ LET levs == [i \in 1..Len(bs) |-> LET c == chain(bs[i]) IN [v \in 0..(Len(c)-1) |-> c[v+1]]]
               all == UNION {Ran(chain(bs[i])) : i \in 1..Len(bs)}
           IN /\ \A x \in all : x >= g.n
              /\ Cardinality(all) = FoldLeft(LAMBDA a, b : a + PrecTop(b.prog) + 1, 0, bs)
              /\ SameBag([i \in 1..Len(new) |-> <<new[i].l, new[i].r, new[i].o>>],
                         FlattenSeq([i \in 1..Len(bs) |-> PrecRules(bs[i], levs[i])]) \o (IF Has(ev, "then") THEN <<ev.then>> ELSE <<>>))
    [] OTHER -> TRUE

(***************************************************************************)
(* C09, C10  cycles                                                        *)
(***************************************************************************)
InCycle(U, r) == Len(r.r) = 1 /\ r.l \in U[r.r[1]]
CycleFree(U, g) == \A x \in Syms(g) : x \notin U[x]
\* what an analysis says of a grammar's cycles
CycleView(g, v) ==
  LET U == TC(UnitEdges(g)) IN
  /\ v.free = CycleFree(U, g)
  /\ PairSeq(v.cls) = PairSeq(g.rules)
  /\ \A i \in 1..Len(g.rules) : v.cls[i].c = InCycle(U, g.rules[i])
  /\ PairSeq(v.yes) = PairSeq(SelectSeq(g.rules, LAMBDA r : InCycle(U, r)))
  /\ PairSeq(v.no) = PairSeq(SelectSeq(g.rules, LAMBDA r : ~InCycle(U, r)))
C09(s, ev) ==
  CASE ev.op = "cyc" -> CycleView(s.g, ev.res)
    [] ev.op \in {"cycrm", "cycrw"} -> CycleView(ev.post, ev.res)   \* the analysis follows its own change
    [] OTHER -> TRUE
SameLangs(L1, x1, L2, x2) == L1[x1] = L2[x2]
C10(s, ev) ==
  LET g == s.g  h == ev.post  U == TC(UnitEdges(g)) IN
  CASE ev.op = "cycrm" -> /\ SameButRules(g, h)
                          /\ h.rules = SelectSeq(g.rules, LAMBDA r : ~InCycle(U, r))
    [] ev.op = "cycrw" ->
         /\ h.n = g.n /\ Len(h.roots) = Len(g.roots) /\ Len(h.wr) = Len(g.wr) /\ KeepsNames(g, h)
         /\ \A i \in 1..Len(g.roots) : g.roots[i] \notin U[g.roots[i]] => h.roots[i] = g.roots[i]
         /\ \A i \in 1..Len(g.wr) : \A k \in 1..4 : (g.wr[i][k] \notin U[g.wr[i][k]]) => h.wr[i][k] = g.wr[i][k]
         /\ IF CycleFree(U, g) THEN h.rules = g.rules /\ h.roots = g.roots
            ELSE LET T == Alphabet(g)  K == KFor(Len(T), Deep)
                     Same(A, B) == /\ \A i \in 1..Len(g.roots) : A[g.roots[i]] = B[h.roots[i]]
                                   /\ \A i \in 1..Len(g.wr) : A[g.wr[i][3]] = B[h.wr[i][3]]
                                   /\ \A x \in Lhss(g) : x \notin U[x] => A[x] = B[x]
                 IN
                 /\ CycleFree(TC(UnitEdges(h)), h)
                 /\ Lhss(h) \cap Terms(g) = {}
                 /\ Same(LangsOf(g, T, K), LangsOf(h, T, K))
                 /\ Len(T) > 1 => Same(LengthsOf(g, T, LongK), LengthsOf(h, T, LongK))
                 /\ Toned(g, T) => Same(TonesOf(g, T, ToneK), TonesOf(h, T, ToneK))
    [] OTHER -> TRUE

(***************************************************************************)
(* C11, C12  usefulness                                                    *)
(***************************************************************************)
ReachableFrom(g, roots) == RTC(Direct(g), Ran(roots))
C11(s, ev) ==
  CASE ev.op = "useful" ->
     LET g == s.g
         pr == Productive(g)
         re == ReachableFrom(g, Arg(ev, "roots", g.roots) \o FlattenSeq(Arg(ev, "more", <<>>)))
         rp(r) == Ran(r.r) \subseteq pr
         rr(r) == r.l \in re
         bad == SelectSeq(g.rules, LAMBDA r : ~rp(r) \/ ~rr(r))
     IN /\ Ran(ev.res.prod) = pr
        /\ Len(ev.res.per) = Len(g.rules)
        /\ \A i \in 1..Len(g.rules) : /\ ev.res.per[i][1] = rr(g.rules[i])
                                      /\ ev.res.per[i][2] = rp(g.rules[i])
                                      /\ P(ev.res.per[i][3]) = P(g.rules[i])
        /\ PairSeq(ev.res.useless) = PairSeq(bad)
        /\ \A i \in 1..Len(bad) : ev.res.useless[i].a = rr(bad[i]) /\ ev.res.useless[i].p = rp(bad[i])
        /\ ev.res.all = <<bad = <<>>, \A i \in 1..Len(g.rules) : rp(g.rules[i]), \A i \in 1..Len(g.rules) : rr(g.rules[i])>>
    [] OTHER -> TRUE
\* rules taking part in a derivation of a terminal string from a root
UsefulRule(g, pr) ==
  LET live == SelectSeq(g.rules, LAMBDA r : Ran(r.r) \subseteq pr)
      re == ReachableFrom([g EXCEPT !.rules = live], g.roots)
  IN [i \in 1..Len(g.rules) |-> Ran(g.rules[i].r) \subseteq pr /\ g.rules[i].l \in re]
C12(s, ev) ==
  LET g == s.g  h == ev.post IN
  CASE ev.op = "proper" ->
         LET us == UsefulRule(g, Productive(g))
             keep == [i \in 1..Len(g.rules) |-> us[i]]
             left == FoldLeft(LAMBDA a, i : IF keep[i] THEN Append(a, g.rules[i]) ELSE a, <<>>, [i \in 1..Len(g.rules) |-> i])
         IN /\ SameButRules(g, h)
            /\ SameBag(h.rules, left)
            /\ ev.res = (Len(left) = Len(g.rules))
    [] ev.op = "rmuseless" ->
         LET pr == Productive(g)
             re == ReachableFrom(g, Arg(ev, "roots", g.roots) \o FlattenSeq(Arg(ev, "more", <<>>)))
         IN SameButRules(g, h) /\ SameBag(h.rules, SelectSeq(g.rules, LAMBDA r : Ran(r.r) \subseteq pr /\ r.l \in re))
    [] OTHER -> TRUE

(***************************************************************************)
(* C15, C16, C17  FIRST, LAST, FOLLOW, LL(1)                               *)
(***************************************************************************)
\* entry lists: every x in X has exactly one entry, with the given terminals and mark
Entries(es, X, t(_), e(_)) ==
  \A x \in X : /\ Cardinality({i \in 1..Len(es) : es[i].s = x}) = 1
               /\ \A i \in 1..Len(es) : es[i].s = x => Ran(es[i].t) = t(x) /\ es[i].e = e(x)
C15(s, ev) ==
  CASE ev.op = "first" ->
     LET g == s.g  N == Nullable(g)  T == Terms(g)
         F == TC(LeftEdges(g, N))
         E == LeftEdges(g, N)
         Z == TC(RightEdges(g, N))
     IN /\ Entries(ev.res.first, Lhss(g), LAMBDA x : F[x] \cap T, LAMBDA x : x \in N)
        /\ Entries(ev.res.last, Lhss(g), LAMBDA x : Z[x] \cap T, LAMBDA x : x \in N)
        /\ \A i \in 1..Len(ev.strs) : /\ Ran(ev.res.strs[i].t) = FirstOfString(g, N, E, ev.strs[i])
                                      /\ ev.res.strs[i].e = Vanishes(N, ev.strs[i])
    [] OTHER -> TRUE
C16(s, ev) ==
  CASE ev.op = "follow" ->
     LET g == s.g  N == Nullable(g)
         E == LeftEdges(g, N)  U == UpEdges(g, N)
         t == TLCEval([x \in Lhss(g) |-> FollowOf(g, N, E, U, x)])
         e == TLCEval([x \in Lhss(g) |-> FollowEnd(g, U, x)])
     IN /\ Entries(ev.res.follow, Lhss(g), LAMBDA x : t[x], LAMBDA x : e[x])
        /\ Entries(ev.res.follow2, Lhss(g), LAMBDA x : t[x], LAMBDA x : e[x])
    [] OTHER -> TRUE
EOI == -1
C17(s, ev) ==
  CASE ev.op = "ll" ->
     LET g == s.g  N == Nullable(g)
         E == LeftEdges(g, N)  U == UpEdges(g, N)
         fo == TLCEval([x \in Lhss(g) |-> FollowOf(g, N, E, U, x) \cup (IF FollowEnd(g, U, x) THEN {EOI} ELSE {})])
         pred == TLCEval([i \in 1..Len(g.rules) |-> FirstOfString(g, N, E, g.rules[i].r) \cup
                            (IF Vanishes(N, g.rules[i].r) THEN fo[g.rules[i].l] ELSE {})])
         conflict == {x \in Lhss(g) : \E i, j \in 1..Len(g.rules) : i < j /\ g.rules[i].l = x /\ g.rules[j].l = x /\ pred[i] \cap pred[j] # {}}
         D == Direct(g)
         classified == {g.rules[i].l : i \in {j \in 1..Len(g.rules) : pred[j] # {}}}
     IN /\ Cardinality({e[1] : e \in Ran(ev.res)}) = Len(ev.res)
        /\ {e[1] : e \in Ran(ev.res)} = classified
        /\ \A e \in Ran(ev.res) : e[2] = (IF RTC(D, {e[1]}) \cap conflict # {} THEN 1 ELSE 0)
    [] OTHER -> TRUE

(***************************************************************************)
(* C18  LR(0)                                                              *)
(***************************************************************************)
\* items: pairs <<rule (from 0), dot>>
PostDot(g, it) == LET r == g.rules[it[1]+1].r IN IF it[2] < Len(r) THEN {r[it[2]+1]} ELSE {}
RECURSIVE LrClose(_, _)
LrClose(g, S) ==
  LET pd == UNION {PostDot(g, it) : it \in S}
      S2 == S \cup {<<i-1, 0>> : i \in {j \in 1..Len(g.rules) : g.rules[j].l \in pd}}
  IN IF S2 = S THEN S ELSE LrClose(g, S2)
LrMoved(g, S, x) == {<<it[1], it[2]+1>> : it \in {jt \in S : x \in PostDot(g, jt)}}
ItemsOf(js) == {<<j[1], j[2]>> : j \in Ran(js)}
ItemsOK(g, js, S) == /\ ItemsOf(js) = S /\ Len(js) = Cardinality(S)
                     /\ \A j \in Ran(js) : j[3] = g.rules[j[1]+1].r
\* the automaton, for a given notion of closure Cl
RECURSIVE LrStates(_, _, _, _, _)
LrStates(Cl(_, _), g, T, seen, front) ==
  LET nw == ({Cl(g, LrMoved(g, S, t)) : S \in front, t \in T} \ {{}}) \ seen
  IN IF nw = {} THEN seen ELSE LrStates(Cl, g, T, seen \cup nw, nw)
FsmOK(Cl(_, _), h, nodes) ==
  LET init == Cl(h, {<<Len(h.rules)-1, 0>>})
      T == Terms(h) \cap RhsSyms(h)
      sets == LrStates(Cl, h, T, {init}, {init})
      N == TLCEval([i \in 1..Len(nodes) |-> ItemsOf(nodes[i].items)])
      adv(i, t) == Cl(h, LrMoved(h, N[i], t))
  IN /\ Len(nodes) >= 1 /\ N[1] = init
     /\ Ran(N) = sets /\ Len(nodes) = Cardinality(sets)
     /\ \A i \in 1..Len(nodes) :
          /\ ItemsOK(h, nodes[i].items, N[i])
          /\ Cardinality({l[1] : l \in Ran(nodes[i].link)}) = Len(nodes[i].link)
          /\ {l[1] : l \in Ran(nodes[i].link)} = {t \in T : adv(i, t) # {}}
          /\ \A l \in Ran(nodes[i].link) : l[2] + 1 \in 1..Len(nodes) /\ N[l[2]+1] = adv(i, l[1])
Augmented(g, h, start) ==
  /\ h.n = g.n + 1 /\ h.roots = g.roots /\ h.wr = g.wr
  /\ Len(h.rules) = Len(g.rules) + 1 /\ SubSeq(h.rules, 1, Len(g.rules)) = g.rules
  /\ P(h.rules[Len(h.rules)]) = <<g.n, <<start>>>>
LrContract(Cl(_, _), s, ev) ==
  LET g == s.g IN
  CASE ev.op = "lrclos" -> ev.post = g /\ ItemsOK(g, ev.res, Cl(g, ItemsOf(ev.items)))
    [] ev.op = "lradv" -> LET S == Cl(g, LrMoved(g, ItemsOf(ev.items), ev.x)) IN
                          ev.post = g /\ ev.res.some = (S # {}) /\ ItemsOK(g, ev.res.items, S)
    [] ev.op = "lrfsm" -> \* one automaton after another, each from a start symbol of its own
         LET h == ev.post
             upTo(k) == [h EXCEPT !.n = g.n + k, !.rules = SubSeq(@, 1, Len(g.rules) + k)]
         IN /\ h.n = g.n + Len(ev.s) /\ Len(h.rules) = Len(g.rules) + Len(ev.s) /\ Len(ev.res) = Len(ev.s)
            /\ \A k \in 1..Len(ev.s) : /\ Augmented(upTo(k-1), upTo(k), ev.s[k])
                                      /\ FsmOK(Cl, upTo(k), ev.res[k])
            /\ upTo(0) = g
    [] OTHER -> TRUE
C18(s, ev) == LrContract(LrClose, s, ev)
\* Known finding: an item set cannot hold two items of one rule.  A predicted item takes the
\* place of an item of the same rule with a later dot, and is not expanded itself.
RECURSIVE LrFold(_, _, _)
LrFold(g, kernel, Q) ==
  LET pd == UNION {PostDot(g, it) : it \in Q}
      pr == {j-1 : j \in {k \in 1..Len(g.rules) : g.rules[k].l \in pd}}
      Q2 == Q \cup {<<r, 0>> : r \in pr \ {it[1] : it \in kernel}}
  IN IF Q2 = Q THEN {it \in Q : it[1] \notin pr} \cup {<<r, 0>> : r \in pr} ELSE LrFold(g, kernel, Q2)
LrFolded(g, S) == LrFold(g, S, S)
C18_known(s, ev) == LrContract(LrFolded, s, ev)

(***************************************************************************)
(* C22  closures                                                           *)
(***************************************************************************)
INF == 1000000000        \* twice this is still an integer of TLC
Val(v) == IF v = -1 THEN INF ELSE v
RECURSIVE MinVals(_, _)
MinVals(R, v) ==    \* v: function from symbols to values
  LET sum(p) == LET t == FoldLeft(LAMBDA a, x : Min2(INF, a + v[x]), 0, p[2]) IN t
      v2 == TLCEval([x \in DOMAIN v |-> Min({v[x]} \cup {sum(p) : p \in {q \in R : q[1] = x}})])
  IN IF v2 = v THEN v ELSE MinVals(R, v2)
NonEmpty(g) == {p \in Pairs(g.rules) : p[2] # <<>>}
C22(s, ev) ==
  LET g == s.g IN
  CASE ev.op = "clos" -> Ran(ev.res) = IF ev.mode \in {"all", "All"} THEN CloseAll(NonEmpty(g), Ran(ev.set)) ELSE CloseAny(NonEmpty(g), Ran(ev.set))
    [] ev.op = "vals" -> LET v == MinVals(NonEmpty(g), [x \in Syms(g) |-> IF x < Len(ev.vals) THEN Val(ev.vals[x+1]) ELSE INF]) IN
                         /\ \A x \in Syms(g) : Val(ev.res[x+1]) = v[x]
                         /\ ev.post = g
    [] OTHER -> TRUE

(***************************************************************************)
(* C21  minimal distances (and C19: recursion)                             *)
(***************************************************************************)
\* length of a shortest terminal string of each symbol
MinLen(g) == MinVals(Pairs(g.rules), [x \in Syms(g) |-> IF x \in Terms(g) THEN 1 ELSE INF])
Cap(x) == Min2(x, INF)
\* Inside(i): from the start of rule i to a target without leaving it, when entering x costs B[x]
\* dots are numbered 0..Len; tg is the set of targets <<rule from 1, dot>>
RECURSIVE InsideFrom(_, _, _, _, _, _)
InsideFrom(g, ml, B, tg, i, p) ==
  LET r == g.rules[i].r IN
  IF <<i, p>> \in tg THEN 0
  ELSE IF p = Len(r) THEN INF
  ELSE Min2(Cap(ml[r[p+1]] + InsideFrom(g, ml, B, tg, i, p + 1)), B[r[p+1]])
RECURSIVE EnterFix(_, _, _, _)
EnterFix(g, ml, tg, B) ==
  LET B2 == TLCEval([x \in Syms(g) |-> Min({B[x]} \cup {InsideFrom(g, ml, B, tg, i, 0) : i \in {j \in 1..Len(g.rules) : g.rules[j].l = x}})])
  IN IF B2 = B THEN B ELSE EnterFix(g, ml, tg, B2)
\* D: distance at every dot, given the cost A[x] of having finished x
RECURSIVE DotFrom(_, _, _, _, _, _, _)
DotFrom(g, ml, B, A, tg, i, p) ==
  LET r == g.rules[i].r IN
  IF <<i, p>> \in tg THEN 0
  ELSE IF p = Len(r) THEN A[g.rules[i].l]
  ELSE Min2(Cap(ml[r[p+1]] + DotFrom(g, ml, B, A, tg, i, p + 1)), B[r[p+1]])
DotsOf(g, ml, B, A, tg) == TLCEval([i \in 1..Len(g.rules) |-> [p \in 0..Len(g.rules[i].r) |-> DotFrom(g, ml, B, A, tg, i, p)]])
RECURSIVE FinishFix(_, _, _, _, _)
FinishFix(g, ml, B, tg, A) ==
  LET D == DotsOf(g, ml, B, A, tg)
      A2 == TLCEval([x \in Syms(g) |-> Min({A[x]} \cup UNION {{D[i][p] : p \in {q \in 1..Len(g.rules[i].r) : g.rules[i].r[q] = x}} : i \in 1..Len(g.rules)})])
  IN IF A2 = A THEN D ELSE FinishFix(g, ml, B, tg, A2)
ForwardDist(g, tg) ==
  LET ml == MinLen(g)
      top == [x \in Syms(g) |-> INF]
      B == EnterFix(g, ml, tg, top)
  IN FinishFix(g, ml, B, tg, top)
Mirror(g) == [g EXCEPT !.rules = [i \in 1..Len(g.rules) |-> [g.rules[i] EXCEPT !.r = Reverse(@)]]]
BackwardDist(g, tg) ==
  LET m == Mirror(g)
      D == ForwardDist(m, {<<t[1], Len(g.rules[t[1]].r) - t[2]>> : t \in tg})
  IN [i \in 1..Len(g.rules) |-> [p \in 0..Len(g.rules[i].r) |-> D[i][Len(g.rules[i].r) - p]]]
Distances(g, tg, dir) ==
  CASE dir = "f" -> ForwardDist(g, tg)
    [] dir = "b" -> BackwardDist(g, tg)
    [] OTHER -> LET f == ForwardDist(g, tg)  b == BackwardDist(g, tg) IN
                TLCEval([i \in 1..Len(g.rules) |-> [p \in 0..Len(g.rules[i].r) |-> Min2(f[i][p], b[i][p])]])
C21(s, ev) ==
  CASE ev.op = "dist" ->
     LET g == s.g
         D == Distances(g, {<<d[1]+1, d[2]>> : d \in Ran(ev.dots)}, ev.dir)
     IN /\ Len(ev.res) = Len(g.rules)
        /\ \A i \in 1..Len(g.rules) : /\ Len(ev.res[i]) = Len(g.rules[i].r) + 1
                                      /\ \A p \in 0..Len(g.rules[i].r) : Val(ev.res[i][p+1]) = D[i][p]
    [] OTHER -> TRUE

C19(s, ev) ==
  CASE ev.op = "rec" ->
     LET g == s.g  R == TC(Direct(g))
         recAt(r) == {k \in 1..Len(r.r) : r.l \in R[r.r[k]]}
         idx == SelectSeq([i \in 1..Len(g.rules) |-> i], LAMBDA i : recAt(g.rules[i]) # {})
         ok(e, r) == /\ P(e) = P(r) /\ e.o = r.o
                     /\ e.a = (1 \in recAt(r)) /\ e.z = (Len(r.r) \in recAt(r))
                     /\ e.m = (recAt(r) \cap 2..(Len(r.r)-1) # {})
         D == Distances(g, UNION {{<<i, k-1>> : k \in recAt(g.rules[i])} : i \in 1..Len(g.rules)}, "s")
     IN /\ Len(ev.res.rec) = Len(idx)
        /\ \A j \in 1..Len(idx) : ok(ev.res.rec[j], g.rules[idx[j]]) /\ ev.res.rec[j].d = <<>>
        /\ Has(ev, "d") =>
             /\ Len(ev.res.dist) = Len(idx)
             /\ \A j \in 1..Len(idx) : LET r == g.rules[idx[j]]  e == ev.res.dist[j] IN
                  ok(e, r) /\ Val(e.d[1]) = D[idx[j]][0] /\ Val(e.d[2]) = D[idx[j]][Len(r.r)]
    [] OTHER -> TRUE

(***************************************************************************)
(* C20  symbol sets and matrices                                           *)
(***************************************************************************)
Nulling(g) == {p[1] : p \in {q \in Pairs(g.rules) : q[2] = <<>>}}
Rel(rows, E) == Len(rows) = Cardinality(DOMAIN E) /\ \A x \in DOMAIN E : Ran(rows[x+1]) = E[x]
BitsInit(ev) == [m |-> IF ev.elem = 1 THEN 0..(ev.n-1) ELSE {}, sp |-> ev.n]
BitsStep(ev, b, i) ==
  CASE i[1] = "set" -> [b EXCEPT !.m = IF i[3] = 1 THEN @ \cup {i[2]} ELSE @ \ {i[2]}]
    [] i[1] = "neg" -> [b EXCEPT !.m = (0..(b.sp-1)) \ @]
    [] i[1] = "union" -> [b EXCEPT !.m = @ \cup Ran(i[2])]
    [] i[1] = "reserve" -> [b EXCEPT !.sp = Max2(@, i[2])]
    [] i[1] = "reset" -> [m |-> {}, sp |-> ev.n]
    [] i[1] = "default" -> [m |-> {}, sp |-> 0]
    [] i[1] = "setall" -> [m |-> 0..(ev.n-1), sp |-> ev.n]
    [] OTHER -> b
BitsOK(r, b) == /\ Ran(r.m) = b.m /\ Len(r.m) = Cardinality(b.m)
                /\ Ran(r.ix) = b.m /\ Ran(r.bv) = b.m /\ Ran(r.iv) = b.m
                /\ r.all = (b.m = 0..(b.sp-1)) /\ r.empty = (b.m = {})
                /\ r.space = b.sp
RECURSIVE BitsRun(_, _, _)
BitsRun(ev, b, k) == /\ BitsOK(ev.res[k], b)
                     /\ k <= Len(ev.prog) => BitsRun(ev, BitsStep(ev, b, ev.prog[k]), k + 1)
C20(s, ev) ==
  LET g == s.g IN
  CASE ev.op = "sets" ->
         /\ Ran(ev.res.term) = Terms(g) /\ Ran(ev.res.term2) = Terms(g)
         /\ Ran(ev.res.nul) = Nulling(g) /\ Ran(ev.res.nul2) = Nulling(g)
         /\ Ran(ev.res.used) = UsedSyms(g)
         /\ Ran(ev.res.unused) = UnusedSyms(g) /\ Ran(ev.res.unused2) = UnusedSyms(g)
         /\ Ran(ev.res.lhs) = Lhss(g) /\ Ran(ev.res.sub) = Terms(g)
         /\ ev.res.n = g.n /\ ev.res.space = <<g.n, g.n, g.n>>
         \* one set used again: used, terminal, nulling (adds), unused, productive (adds), terminal, subtract from all, used
         /\ LET want == <<UsedSyms(g), Terms(g), Terms(g) \cup Nulling(g), UnusedSyms(g), UnusedSyms(g) \cup Lhss(g),
                          Terms(g), Terms(g), UsedSyms(g)>>
            IN Len(ev.res.chain) = 8 /\ \A i \in 1..8 : Ran(ev.res.chain[i]) = want[i]
    [] ev.op = "matrix" ->
         LET D == Direct(g)  R == TC(D)  U == TC(UnitEdges(g)) IN
         /\ Rel(ev.res.direct, D) /\ Rel(ev.res.directx, D)
         /\ Rel(ev.res.reach, R) /\ Rel(ev.res.reachx, R)
         /\ Rel(ev.res.refl, [x \in Syms(g) |-> R[x] \cup {x}])
         /\ Rel(ev.res.unit, U) /\ Rel(ev.res.unitx, U)
         /\ Rel(ev.res.empty, [x \in Syms(g) |-> {}])
         /\ Rel(ev.res.by[1], R) /\ Rel(ev.res.by[2], [x \in Syms(g) |-> R[x] \cup {x}]) /\ Rel(ev.res.by[3], U)
         /\ Rel(ev.res.rt, R) /\ ev.res.odd
    [] ev.op = "bits" -> Len(ev.res) = Len(ev.prog) + 1 /\ BitsRun(ev, BitsInit(ev), 1)
    [] OTHER -> TRUE

(***************************************************************************)
(* C29  wrapping the input                                                 *)
(***************************************************************************)
WrapNames == <<"root", "start_of_input", "end_of_input">>
Wrapped(s, h) ==
  LET g == s.g
      k == Len(g.roots)
      fresh == FlattenSeq([i \in 1..k |-> <<h.wr[i][1], h.wr[i][2], h.wr[i][4]>>])
      H == (g.n..(h.n-1)) \ Ran(fresh)
      old == Len(g.rules)
      added == [i \in 1..k |-> <<h.wr[i][1], <<h.wr[i][2], h.wr[i][3], h.wr[i][4]>>>>]
  IN /\ Len(h.wr) = k /\ Len(h.roots) = k
     /\ \A i \in 1..k : h.wr[i][3] = g.roots[i] /\ h.roots[i] = h.wr[i][1]
     /\ Cardinality(Ran(fresh)) = 3 * k
     /\ Ran(fresh) \subseteq g.n..(h.n-1)
     /\ HelpersOK(h, H)
     /\ SameBag(PairSeq(Unfolded(h, H)), PairSeq(g.rules) \o added)
     /\ LET byPre == SelectSeq(h.rules, LAMBDA r : r.l < g.n) IN SameBag(byPre, SelectSeq(g.rules, LAMBDA r : r.l < g.n)) /\ Len(byPre) = Len(g.rules)
     /\ KeepsNames(g, h)
     /\ Has(h, "names") => \A i \in 1..k : /\ h.names[h.wr[i][1]+1] = WrapNames[1]
                                           /\ h.names[h.wr[i][2]+1] = WrapNames[2]
                                           /\ h.names[h.wr[i][4]+1] = WrapNames[3]
     /\ (s.lim >= 2 => \A i \in 1..Len(h.rules) : Len(h.rules[i].r) <= Max2(s.lim, 0) \/ i <= old)
     /\ (H # {} => s.lim \in 0..2)
C29(s, ev) == ev.op = "wrap" => Wrapped(s, ev.post)

(***************************************************************************)
(* C31  any sequence of transformations                                    *)
(***************************************************************************)
C31(s, ev) ==
  LET g == s.g
      h == ev.post
      T == Alphabet(g)
      K == KFor(Len(T), Deep)
      \* the inner roots count while the wrapped roots are the roots in force and lead to them
      inner == g.roots = [i \in 1..Len(g.wr) |-> g.wr[i][1]]
      D == Direct(g)
      led == [i \in 1..Len(g.wr) |-> g.wr[i][3] \in RTC(D, {g.wr[i][1]})]
      roots(x) == x.roots \o (IF ~inner \/ Len(x.wr) # Len(g.wr) THEN <<>>
                               ELSE [i \in 1..Len(x.wr) |-> IF led[i] THEN x.wr[i][3] ELSE x.wr[i][1]])
      cmp(T2, F(_, _, _), G(_, _, _)) ==      \* F, G: of a language, its bound and the size of its alphabet
        LET A == LangsOf(g, T, K)  B == LangsOf(h, T2, K)
            C == LengthsOf(g, T, LongK)  D2 == LengthsOf(h, T2, LongK)
            rg == roots(g)  rh == roots(h) IN
        /\ Len(rg) = Len(rh) /\ Len(g.roots) = Len(h.roots)
        /\ \A i \in 1..Len(rg) : F(A[rg[i]], K, Max2(Len(T), 1)) = G(B[rh[i]], K, Max2(Len(T), 1))
        /\ Toned(g, T) => LET E == TonesOf(g, T, ToneK)  E2 == TonesOf(h, T2, ToneK) IN
                          \A i \in 1..Len(rg) : F(E[rg[i]], ToneK, 2) = G(E2[rh[i]], ToneK, 2)
        /\ Len(T) > 1 => \A i \in 1..Len(rg) : NoEps(C[rg[i]]) = NoEps(D2[rh[i]])
      id(x, k, b) == x
  IN CASE ev.op \in {"limit", "cycrw", "proper", "sort", "dedup"} -> cmp(T, id, id)
       [] ev.op = "elim" -> cmp(T, LAMBDA x, k, b : NoEps(x), id)
       [] ev.op = "reverse" -> cmp(T, LAMBDA x, k, b : RevL(x, k, b), id)
       [] ev.op = "remap" -> LET ok == \A i \in 1..Len(T) : ev.res.ti[T[i]+1] \in Syms(h) IN
                             ok /\ cmp([i \in 1..Len(T) |-> ev.res.ti[T[i]+1]], id, id)
       [] ev.op = "wrap" -> /\ Wrapped(s, h)
                            /\ LET A == LangsOf(g, T, K)  B == LangsOf(h, T, K) IN
                               \A i \in 1..Len(g.roots) : A[g.roots[i]] = B[h.wr[i][3]]
       [] OTHER -> TRUE

(***************************************************************************)
(* C34  the same calls give the same results.  res2 and post2 are recorded *)
(* from a second session that has had the same history.                    *)
(***************************************************************************)
SameField(ev, a, b) == Has(ev, a) = Has(ev, b) /\ (Has(ev, a) => ev[a] = ev[b])
\* "fork": from here on the second session works on a copy of the first one's grammar
C34(s, ev) == /\ Has(ev, "twice") => SameField(ev, "res", "res2") /\ SameField(ev, "post", "post2")
              /\ ev.op = "fork" => ev.post = s.g

(***************************************************************************)
(* C35  dots.  A rule may carry three dots `d': what is known about the    *)
(* places before its first, second and third symbol (or its end), each     *)
(* <<rule it traces to, position there, event, distance>>.                 *)
(***************************************************************************)
NoDot == <<-1, -1, 0, -1>>
At(o, p) == <<o, p, 0, -1>>
DefaultDots == <<<<0, 0, 0, 0>>, <<0, 0, 0, 0>>, <<0, 0, 0, 0>>>>
RECURSIVE SpanLen(_, _, _)      \* symbols that a string stands for, helpers H unfolded
SpanLen(h, H, w) == FoldLeft(LAMBDA a, x : a + (IF x \in H THEN SpanLen(h, H, (CHOOSE p \in Ran(h.rules) : p.l = x).r) ELSE 1), 0, w)
RECURSIVE PieceDots(_, _, _, _)    \* <<dot, position in the unfolded rule>> of a rule and its helpers
PieceDots(h, H, q, off) ==
  LET pos(i) == off + SpanLen(h, H, SubSeq(q.r, 1, i)) IN
  {<<q.d[i+1], pos(i)>> : i \in 0..Len(q.r)}
  \cup UNION {PieceDots(h, H, CHOOSE p \in Ran(h.rules) : p.l = q.r[i], pos(i-1)) : i \in {j \in 1..Len(q.r) : q.r[j] \in H}}
SplitDots(h, H, q) ==
  LET n == SpanLen(h, H, q.r)
      ds == PieceDots(h, H, q, 0)
      last == Len(q.r) + 1
  IN q.o # -1 =>
       /\ \A e \in ds : e[1] \in {NoDot, At(q.o, e[2])}
       /\ {e[2] : e \in {x \in ds : x[1] # NoDot}} = 0..n
       /\ q.d[1] = At(q.o, 0) /\ q.d[last] = At(q.o, n)
DTag(r) == <<r.l, r.r, r.o, r.u, r.d>>
DTags(rs) == [i \in 1..Len(rs) |-> DTag(rs[i])]
C35_limit(g, h, k, wanted) ==
  LET H == g.n..(h.n-1)
      split(q) == Ran(q.r) \cap H # {}
      whole == SelectSeq(h.rules, LAMBDA q : ~split(q) /\ q.l \notin H)
  IN HelpersOK(h, H) =>
       /\ SameBag(DTags(whole), DTags(SelectSeq(wanted, LAMBDA q : k < 0 \/ Len(q.r) <= k)))
       /\ k = 2 => \A i \in 1..Len(h.rules) : split(h.rules[i]) /\ h.rules[i].l \notin H => SplitDots(h, H, h.rules[i])
\* a nullable symbol taken away: the dots stay, where just one of two symbols is nullable
C35_elim(g, h) ==
  LET N == Nullable(g) IN
  (\A i \in 1..Len(g.rules) : Len(g.rules[i].r) <= 2) =>
    \A i \in 1..Len(h.rules) : \E j \in 1..Len(g.rules) :
       LET q == h.rules[i]  p == g.rules[j] IN
       StandsFor(q, p, N) /\ (q.d = p.d \/ (FTag(q) # FTag(p) /\ Ran(p.r) \subseteq N))
C35_cycles(g, h) ==
  LET U == TC(UnitEdges(g))
      inCycle(r) == Len(r.r) = 1 /\ r.l \in U[r.r[1]]
      left == SelectSeq(g.rules, LAMBDA r : ~inCycle(r))
      tags(rs) == [i \in 1..Len(rs) |-> <<rs[i].o, rs[i].w, rs[i].u, Len(rs[i].r), rs[i].d>>]
  IN IF \A x \in Syms(g) : x \notin U[x] THEN SameBag(DTags(h.rules), DTags(g.rules))
     ELSE SameBag(tags(left), tags(h.rules))
\* rules made from a sequence: the first dot is before an element at the start, the second
\* after an element, the third after a separator
SeqDot(q, i, ev) ==
  LET at(k) == IF k \notin 1..Len(q.r) THEN -1 ELSE q.r[k]
      sep(k) == ev.mode # "null" /\ at(k) = ev.sep
  IN CASE i > Len(q.r) -> NoDot
       [] sep(i + 1) -> ev.d[2]
       [] sep(i) -> ev.d[3]
       [] at(i) = ev.x -> ev.d[2]
       [] at(i + 1) = ev.x -> ev.d[1]
       [] OTHER -> NoDot
C35_seq(g, h, ev) ==
  LET new == SubSeq(h.rules, Len(g.rules) + 1, Len(h.rules)) IN
  \A i \in 1..Len(new) :
     /\ new[i].d = [k \in 1..3 |-> SeqDot(new[i], k - 1, ev)]
     /\ new[i].l = ev.l => new[i].o = WantedOrigin(ev)
C35(s, ev) ==
  LET g == s.g IN
  CASE ev.op = "init" -> \A i \in 1..Len(ev.rules) : Has(ev.rules[i], "d") => ev.post.rules[i].d = ev.rules[i].d
    [] ev.op = "rule" -> Has(ev, "d") => LET q == [l |-> ev.l, r |-> ev.r, o |-> WantedOrigin(ev), w |-> WantedWeight(ev), u |-> Arg(ev, "u", <<>>), d |-> ev.d] IN
                         C35_limit(g, ev.post, s.lim, Append(g.rules, q))
    [] ev.op = "limit" -> C35_limit(g, ev.post, ev.k, g.rules)
    [] ev.op = "elim" -> C35_elim(g, ev.post)
    [] ev.op = "cycrw" -> C35_cycles(g, ev.post)
    [] ev.op = "remap" -> LET f == RemapOf(g, ev.steps).f
                              tags(rs) == [i \in 1..Len(rs) |-> <<Tag(rs[i]), rs[i].d>>]
                          IN SameBag(tags(MapRules(f, g.rules)), tags(ev.post.rules))
    [] ev.op = "reverse" -> SameBag(DTags([i \in 1..Len(g.rules) |-> [g.rules[i] EXCEPT !.r = Reverse(@)]]), DTags(ev.post.rules))
    [] ev.op \in {"sort", "sortby", "clone"} -> SameBag(DTags(g.rules), DTags(ev.post.rules))
    [] ev.op \in {"proper", "rmuseless", "cycrm", "retain", "dedup"} -> Ran(DTags(ev.post.rules)) \subseteq Ran(DTags(g.rules))
    [] ev.op = "seq" -> s.lim < 0 /\ Has(ev, "d") /\ ev.x # ev.sep /\ ev.l \notin {ev.x, ev.sep} => C35_seq(g, ev.post, ev)
    [] ev.op = "binhist" ->      \* what splitting does to one history
         /\ SameWeight(ev.res.w, ev.w)
         /\ ev.res.o = (IF ev.top = 1 THEN ev.o ELSE -1)
         /\ ev.res.d = (CASE ev.top = 0 -> <<NoDot, At(ev.o, ev.h + 1), NoDot>>
                          [] ev.len = 0 -> <<At(ev.o, 0), NoDot, NoDot>>
                          [] ev.len = 1 -> <<At(ev.o, 0), At(ev.o, 1), NoDot>>
                          [] OTHER -> <<At(ev.o, 0), At(ev.o, ev.len - 1), At(ev.o, ev.len)>>)
    [] ev.op = "coldots" -> ev.res = [i \in 1..Len(g.rules) |-> IF ev.k <= 2 THEN g.rules[i].d[ev.k+1] ELSE NoDot]
    [] OTHER -> TRUE

(***************************************************************************)
(* All contracts                                                           *)
(***************************************************************************)
GrammarContract(p, s, ev) ==
  CASE p = "C01" -> C01(s, ev)
    [] p = "C02" -> C02(s, ev)
    [] p = "C03" -> C03(s, ev)
    [] p = "C04" -> C04(s, ev)
    [] p = "C05" -> C05(s, ev)
    [] p = "C06" -> C06(s, ev)
    [] p = "C07" -> C07(s, ev)
    [] p = "C08" -> C08(s, ev)
    [] p = "C09" -> C09(s, ev)
    [] p = "C10" -> C10(s, ev)
    [] p = "C11" -> C11(s, ev)
    [] p = "C12" -> C12(s, ev)
    [] p = "C13" -> C13(s, ev)
    [] p = "C14" -> C14(s, ev)
    [] p = "C15" -> C15(s, ev)
    [] p = "C16" -> C16(s, ev)
    [] p = "C17" -> C17(s, ev)
    [] p = "C18" -> C18(s, ev)
    [] p = "C19" -> C19(s, ev)
    [] p = "C20" -> C20(s, ev)
    [] p = "C21" -> C21(s, ev)
    [] p = "C22" -> C22(s, ev)
    [] p = "C29" -> C29(s, ev)
    [] p = "C31" -> C31(s, ev)
    [] p = "C35" -> C35(s, ev)
\* events that deviate in a way listed in known_findings.jsonl
KnownDeviation(p, s, ev) ==
  CASE p = "C04" -> C04_known(s, ev)
    [] p = "C07" -> C07_known(s, ev)
    [] p = "C18" -> C18_known(s, ev)
    [] OTHER -> FALSE
\* the operations a property speaks about (a panic in another one is another property's business)
PropOps(p) ==
  CASE p = "C01" -> {"sym", "truncate", "names", "init", "clone", "narrow"}
    [] p = "C02" -> {"init", "rule", "rules", "extend", "clear", "retain", "sort", "sortby", "dedup", "reverse", "clone", "roots", "rootsrev", "empty", "equivcopy", "column"}
    [] p = "C03" -> {"limit", "rule", "rules", "extend"}
    [] p \in {"C04", "C05"} -> {"elim"}
    [] p = "C06" -> {"init", "rule", "limit", "elim", "cycrw", "remap", "reverse", "sort"}
    [] p = "C07" -> {"seq", "seqs"}
    [] p = "C08" -> {"prec"}
    [] p = "C09" -> {"cyc", "cycrm", "cycrw"}
    [] p = "C10" -> {"cycrm", "cycrw"}
    [] p = "C11" -> {"useful"}
    [] p = "C12" -> {"proper", "rmuseless"}
    [] p = "C13" -> {"remap", "translate"}
    [] p = "C14" -> {"remap"}
    [] p = "C15" -> {"first"}
    [] p = "C16" -> {"follow"}
    [] p = "C17" -> {"ll"}
    [] p = "C18" -> {"lrclos", "lradv", "lrfsm"}
    [] p = "C19" -> {"rec"}
    [] p = "C20" -> {"sets", "matrix", "bits"}
    [] p = "C21" -> {"dist"}
    [] p = "C22" -> {"clos", "vals"}
    [] p = "C29" -> {"wrap"}
    [] p = "C31" -> {"limit", "wrap", "elim", "cycrw", "proper", "remap", "sort", "dedup", "reverse"}
    [] p = "C35" -> {"init", "rule", "limit", "elim", "cycrw", "remap", "reverse", "sort", "sortby", "clone", "proper", "rmuseless", "cycrm", "retain", "dedup", "seq", "coldots", "binhist"}
    [] OTHER -> {}
=============================================================================
