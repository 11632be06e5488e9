------------------------------- MODULE CfgGen -------------------------------
(***************************************************************************)
(* Random generation, weights, serialization.                              *)
(***************************************************************************)
EXTENDS CfgOps

(***************************************************************************)
(* C23  Which strings generation may return.  A negative lookahead symbol  *)
(* stands for the empty string, where its forbidden text does not follow.  *)
(***************************************************************************)
\* spans <<i, j>> of the string w (0 <= i <= j <= Len(w)) derived from each symbol
ComposeSpans(A, B) == {<<x[1], y[2]>> : <<x, y>> \in {<<a, b>> \in A \X B : a[2] = b[1]}}
RECURSIVE StringSpans(_, _, _, _)
StringSpans(D, r, k, n) ==      \* of r[1..k]
  IF k = 0 THEN {<<i, i>> : i \in 0..n}
  ELSE IF k = 1 THEN D[r[1]]
  ELSE ComposeSpans(StringSpans(D, r, k - 1, n), D[r[k]])
SpanStep(Rs, D0, n) ==
  FoldLeft(LAMBDA D, p : LET w == StringSpans(D, p[2], Len(p[2]), n) IN
                         IF w \subseteq D[p[1]] THEN D ELSE TLCEval([D EXCEPT ![p[1]] = @ \cup w]), D0, Rs)
RECURSIVE SpanFix(_, _, _)
SpanFix(Rs, D, n) == LET D2 == SpanStep(Rs, D, n) IN IF D2 = D THEN D ELSE SpanFix(Rs, D2, n)

IsPrefixAt(f, text, p) == p + Len(f) <= Len(text) /\ SubSeq(text, p + 1, p + Len(f)) = f
\* chars: pairs <<terminal, code point or -1>>
CharOf(chars, x) == LET S == {i \in 1..Len(chars) : chars[i][1] = x} IN IF S = {} THEN -1 ELSE chars[CHOOSE i \in S : TRUE][2]
TextOf(chars, w) == SelectSeq([i \in 1..Len(w) |-> CharOf(chars, w[i])], LAMBDA c : c # -1)
\* negs: pairs <<symbol, forbidden text>>
DerivesWithLookahead(g, start, w, chars, negs) ==
  LET n == Len(w)
      text == TextOf(chars, w)
      pos == TLCEval([i \in 0..n |-> Len(TextOf(chars, SubSeq(w, 1, i)))])
      N == {negs[i][1] : i \in 1..Len(negs)}
      T == Terms(g)
      Forbids(x, i) == \E k \in 1..Len(negs) : negs[k][1] = x /\ IsPrefixAt(negs[k][2], text, pos[i])
      D0 == TLCEval([x \in Syms(g) |-> CASE x \in T -> {<<i - 1, i>> : i \in {j \in 1..n : w[j] = x}}
                                         [] x \in N -> {<<i, i>> : i \in {j \in 0..n : ~Forbids(x, j)}}
                                         [] OTHER -> {}])
      Rs == SetToSeq({p \in Pairs(g.rules) : p[1] \notin N})
  IN <<0, n>> \in SpanFix(Rs, D0, n)[start]

C23_gen(s, ev) ==
  LET res == ev.res  g == s.g  nonegs == ev.negs = <<>> IN
  \/ res.st = "budget"       \* given up by the driver: no terminating choice sequence
  \/ /\ res.again           \* a function of the random source
     /\ CASE res.st = "ok" ->
               /\ (ev.lim >= 0 => Len(res.syms) <= ev.lim)
               /\ Ran(res.syms) \subseteq Terms(g)
               /\ res.chars = TextOf(ev.chars, res.syms)
               /\ (Len(res.syms) <= 48 => DerivesWithLookahead(g, ev.s, res.syms, ev.chars, ev.negs))   \* the spans of longer ones take too long
               /\ (nonegs /\ res.un.st = "ok" => res.un.syms = res.syms)
          [] res.st = "limit" ->
               /\ ev.lim >= 0
               /\ res.calls > ev.lim
               /\ (nonegs /\ res.un.st = "ok" => Len(res.un.syms) > ev.lim)
          [] res.st = "neg" -> ~nonegs
     /\ \A k \in 1..Len(res.muts) : ~nonegs /\ (ev.lim >= 0 => res.muts[k] <= ev.att)
     /\ ev.lim >= 0 => ((res.st = "neg") <=> \E k \in 1..Len(res.muts) : res.muts[k] = ev.att)
C23(s, ev) == CASE ev.op = "gen" -> C23_gen(s, ev) [] OTHER -> TRUE

(***************************************************************************)
(* C24  Weighted picks.  alts: sequence of <<right-hand side, weight>>;    *)
(* the value drawn is total * num / den.                                   *)
(***************************************************************************)
SumW(alts) == FoldLeft(LAMBDA a, x : a + x[2], 0, alts)
Before(alts, i) == SumW(SubSeq(alts, 1, i - 1))
PickAllowed(alts, num, den, rhs) ==
  CASE Len(alts) = 0 -> rhs = <<>>
    [] Len(alts) = 1 -> rhs = alts[1][1]
    [] OTHER -> \E i \in 1..Len(alts) :
                  /\ rhs = alts[i][1]
                  /\ Before(alts, i) * den <= SumW(alts) * num
                  /\ SumW(alts) * num <= Before(alts, i + 1) * den
AltsOf(as, l) == LET S == SelectSeq(as, LAMBDA a : a.l = l) IN [i \in 1..Len(S) |-> <<S[i].r, S[i].w>>]
\* res: sequences <<right-hand side, limit given to the source (-1: none), draws>>
PickFine(alts, q, num, den) ==
  /\ PickAllowed(alts, num, den, q[1])
  /\ (Len(alts) > 1 => q[3] = 1 /\ q[2] = SumW(alts))
C24_pick(ev) == \A k \in 1..Len(ev.picks) :
  LET pk == ev.picks[k] IN PickFine(AltsOf(ev.alts, pk[1]), ev.res[k], pk[2], pk[3])
RuleWeight(r) == IF r.w = -1 THEN 1000 ELSE r.w
C24_wgen(s, ev) ==
  LET S == SelectSeq(s.g.rules, LAMBDA r : r.l = ev.s)
      alts == [i \in 1..Len(S) |-> <<S[i].r, RuleWeight(S[i])>>]
  IN \A k \in 1..Len(ev.picks) : PickFine(alts, ev.res[k], ev.picks[k][1], ev.picks[k][2])
C24(s, ev) == CASE ev.op = "pick" -> C24_pick(ev)
                [] ev.op = "wgen" -> C24_wgen(s, ev)
                [] OTHER -> TRUE

(***************************************************************************)
(* C30  JSON                                                               *)
(***************************************************************************)
\* numbers are given as <<high, low>> to base 2^16, as TLC's numbers are small
C30(s, ev) ==
  CASE ev.op = "sersym" ->      \* a symbol number read as a symbol of width w, and written again
         LET max == CASE ev.w = 8 -> <<0, 254>> [] ev.w = 16 -> <<0, 65534>> [] OTHER -> <<65535, 65534>>
             fits == ev.big = 0 /\ (ev.v[1] < max[1] \/ (ev.v[1] = max[1] /\ ev.v[2] <= max[2])) IN
         /\ ev.res.ok = fits
         /\ fits => ev.res.v = ev.v /\ ev.res.eq
    [] ev.op = "serbad" -> ev.res.ok = FALSE
    [] ev.op = "sernames" -> /\ ev.res.ok
                           /\ ev.res.names = ev.names
    [] ev.op = "serset" -> /\ ev.res.ok
                           /\ ev.res.set = ev.set
                           /\ ev.res.neg = Letters((0..(ev.n - 1)) \ Ran(ev.set))
    [] ev.op = "sermap" -> /\ ev.res.ok
                           /\ ev.res.ti = ev.ti /\ ev.res.te = ev.te
    [] ev.op = "serhist" -> ev.res.ok /\ ev.res.eq
    [] OTHER -> TRUE
=============================================================================
