------------------------------- MODULE CfgText -------------------------------
(***************************************************************************)
(* What texts mean: basic and rich BNF, regular expressions, character     *)
(* classes.  Texts are sequences of code points.                           *)
(*                                                                         *)
(* The tokenizer and the two parsers are state machines; a text is read by *)
(* folding their transition functions over it.  CfgTextMC explores the     *)
(* same machines to produce texts for the implementation.                  *)
(***************************************************************************)
EXTENDS CfgOps

(***************************************************************************)
(* Tokenizer.  Tokens are pairs <<kind, text>>.                            *)
(***************************************************************************)
IsAlpha(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95
IsAlnum(c) == IsAlpha(c) \/ c \in 48..57
IsSpace(c) == c \in {32, 10, 9}
Punct(rich) == IF rich THEN 59 :> ";" @@ 124 :> "|" @@ 43 :> "+" @@ 42 :> "*" @@ 40 :> "(" @@ 41 :> ")" @@ 126 :> "~" @@ 123 :> "{" @@ 125 :> "}" @@ 62 :> ">"
               ELSE 59 :> ";" @@ 124 :> "|" @@ 43 :> "+" @@ 42 :> "*" @@ 40 :> "(" @@ 41 :> ")"
LexerWord == <<108, 101, 120, 101, 114>>
Word(rich, w) == IF rich /\ w = LexerWord THEN <<"lexer", w>> ELSE <<"id", w>>

LexInit == [m |-> "0", b |-> <<>>, t |-> <<>>]
LexBase(rich, toks, c) ==
  CASE IsSpace(c) -> [m |-> "0", b |-> <<>>, t |-> toks]
    [] IsAlpha(c) -> [m |-> "id", b |-> <<c>>, t |-> toks]
    [] c = 58 -> [m |-> "c1", b |-> <<>>, t |-> toks]
    [] c \in DOMAIN Punct(rich) -> [m |-> "0", b |-> <<>>, t |-> Append(toks, <<Punct(rich)[c], <<>>>>)]
    [] rich /\ c = 34 -> [m |-> "str", b |-> <<>>, t |-> toks]
    [] OTHER -> [m |-> "err", b |-> <<>>, t |-> toks]
LexStep(rich, st, c) ==
  CASE st.m = "err" -> st
    [] st.m = "0" -> LexBase(rich, st.t, c)
    [] st.m = "id" -> IF IsAlnum(c) THEN [st EXCEPT !.b = Append(@, c)]
                      ELSE LexBase(rich, Append(st.t, Word(rich, st.b)), c)
    [] st.m = "c1" -> [st EXCEPT !.m = IF c = 58 THEN "c2" ELSE "err"]
    [] st.m = "c2" -> IF c = 61 THEN [m |-> "0", b |-> <<>>, t |-> Append(st.t, <<"def", <<>>>>)]
                      ELSE [st EXCEPT !.m = "err"]
    [] st.m = "str" -> IF c = 34 THEN [m |-> "0", b |-> <<>>, t |-> Append(st.t, <<"str", st.b>>)]
                       ELSE IF c = 92 THEN [st EXCEPT !.m = "esc"]
                       ELSE [st EXCEPT !.b = Append(@, c)]
    [] st.m = "esc" -> [st EXCEPT !.m = "str", !.b = Append(@, c)]
Lex(rich, text) ==      \* [ok, t]
  LET st == FoldLeft(LAMBDA s, c : LexStep(rich, s, c), LexInit, text)
  IN CASE st.m = "0" -> [ok |-> TRUE, t |-> st.t]
       [] st.m = "id" -> [ok |-> TRUE, t |-> Append(st.t, Word(rich, st.b))]
       [] OTHER -> [ok |-> FALSE, t |-> <<>>]

(***************************************************************************)
(* Parser.  A rule is [l, r, a]: name, fragments, action (<<>>: none).     *)
(* A fragment is [k, x, f]: "id", "plus", "star": symbol x; "str": string  *)
(* x; "call": call of f with string x.                                     *)
(***************************************************************************)
ParInit == [q |-> "top",          \* what is expected next
            l |-> <<>>,           \* left-hand side
            r |-> <<>>,           \* fragments of the alternative
            in |-> FALSE,         \* inside of the lexer
            nlex |-> 0,           \* lexers seen
            rules |-> <<>>, lex |-> <<>>, opened |-> 0]
ParErr(st) == [st EXCEPT !.q = "err"]
Emit(st, a, q) ==         \* the alternative is finished
  LET rule == [l |-> st.l, r |-> st.r, a |-> a] IN
  IF st.in THEN [st EXCEPT !.q = q, !.r = <<>>, !.lex = Append(@, rule)]
  ELSE [st EXCEPT !.q = q, !.r = <<>>, !.rules = Append(@, rule)]
Push(st, k, x, q) == [st EXCEPT !.q = q, !.r = Append(@, [k |-> k, x |-> x, f |-> <<>>])]
Last1(st) == st.r[Len(st.r)]
Rekind(st, k) == [st EXCEPT !.q = "frag", !.r[Len(st.r)].k = k]

\* the beginning of a fragment
FragStart(rich, st, tok) ==
  CASE tok[1] = "id" -> Push(st, "id", tok[2], "id")
    [] rich /\ tok[1] = "str" -> Push(st, "str", tok[2], "frag")
    [] ~rich /\ tok[1] = "(" -> [st EXCEPT !.q = "paren"]
    [] OTHER -> ParErr(st)
\* after a complete fragment
FragEnd(rich, st, tok) ==
  CASE tok[1] = ";" -> Emit(st, <<>>, "top")
    [] tok[1] = "|" -> Emit(st, <<>>, "alt")
    [] rich /\ tok[1] = "~" -> [st EXCEPT !.q = "alt1"]
    [] rich /\ tok[1] = ">" -> [st EXCEPT !.q = "act"]
    [] ~rich -> FragStart(rich, st, tok)
    [] OTHER -> ParErr(st)
ParStep(rich, st, tok) ==
  LET k == tok[1] IN
  CASE st.q = "err" -> st
    [] st.q = "top" ->
         CASE k = "id" -> [st EXCEPT !.q = "lhs", !.l = tok[2]]
           [] k = "lexer" /\ ~st.in -> [st EXCEPT !.q = "lexkw", !.nlex = @ + 1]
           [] k = "}" /\ st.in /\ Len(st.lex) > st.opened -> [st EXCEPT !.in = FALSE]
           [] OTHER -> ParErr(st)
    [] st.q = "lexkw" -> IF k = "{" THEN [st EXCEPT !.q = "top", !.in = TRUE, !.opened = Len(st.lex)] ELSE ParErr(st)
    [] st.q = "lhs" -> IF k = "def" THEN [st EXCEPT !.q = "first"] ELSE ParErr(st)
    [] st.q = "first" ->
         CASE k = ";" -> Emit(st, <<>>, "top")
           [] rich /\ k = ">" -> [st EXCEPT !.q = "act0"]
           [] OTHER -> FragStart(rich, st, tok)
    [] st.q \in {"alt", "alt1"} -> FragStart(rich, st, tok)
    [] st.q = "id" ->
         CASE k = "+" -> Rekind(st, "plus")
           [] k = "*" -> Rekind(st, "star")
           [] rich /\ k = "(" -> [st EXCEPT !.q = "call"]
           [] OTHER -> FragEnd(rich, st, tok)
    [] st.q = "frag" -> FragEnd(rich, st, tok)
    [] st.q = "paren" -> IF k = ")" THEN [st EXCEPT !.q = "frag"] ELSE ParErr(st)
    [] st.q = "call" ->
         IF k = "str" THEN [st EXCEPT !.q = "call1", !.r[Len(st.r)] = [k |-> "call", x |-> tok[2], f |-> @.x]] ELSE ParErr(st)
    [] st.q = "call1" -> IF k = ")" THEN [st EXCEPT !.q = "frag"] ELSE ParErr(st)
    [] st.q = "act" -> IF k = "id" THEN Emit(st, tok[2], "acted") ELSE ParErr(st)
    [] st.q = "act0" -> IF k = "id" THEN Emit(st, tok[2], "acted0") ELSE ParErr(st)
    [] st.q = "acted" -> CASE k = ";" -> [st EXCEPT !.q = "top"]
                           [] k = "|" -> [st EXCEPT !.q = "alt"]
                           [] OTHER -> ParErr(st)
    [] st.q = "acted0" -> IF k = ";" THEN [st EXCEPT !.q = "top"] ELSE ParErr(st)
Accepts(st) == st.q = "top" /\ ~st.in /\ Len(st.rules) + Len(st.lex) > 0 /\ st.nlex <= 1
Parse(rich, toks) == FoldLeft(LAMBDA s, tok : ParStep(rich, s, tok), ParInit, toks)
\* [ok, rules, lex]
Read(rich, text) ==
  LET lx == Lex(rich, text)
      st == Parse(rich, lx.t)
      ok == lx.ok /\ Accepts(st)
  IN [ok |-> ok, rules |-> IF ok THEN st.rules ELSE <<>>, lex |-> IF ok THEN st.lex ELSE <<>>]

(***************************************************************************)
(* Where reading goes wrong.  The tokenizer again, with the line and       *)
(* column of every token: p[k] is where token k begins.                    *)
(***************************************************************************)
WhereInit == [s |-> LexInit, at |-> <<1, 1>>, from |-> <<1, 1>>, p |-> <<>>, e |-> <<>>]
WhereStep(rich, w, c) ==
  IF w.e # <<>> THEN w
  ELSE
  LET ends == w.s.m = "id" /\ ~IsAlnum(c)           \* a word ends before c
      from == IF w.s.m = "0" \/ ends THEN w.at ELSE w.from
      s2 == LexStep(rich, w.s, c)
      p1 == IF ends THEN Append(w.p, w.from) ELSE w.p
  IN [s |-> s2,
      at |-> IF c = 10 THEN <<w.at[1] + 1, 1>> ELSE <<w.at[1], w.at[2] + 1>>,
      from |-> from,
      p |-> IF Len(s2.t) > Len(p1) THEN Append(p1, from) ELSE p1,
      e |-> IF s2.m = "err" THEN from ELSE <<>>]
\* tokens until the error, their places, the place of the error (<<>>: none)
Where(rich, text) ==
  LET w == FoldLeft(LAMBDA a, c : WhereStep(rich, a, c), WhereInit, text) IN
  CASE w.e # <<>> \/ w.s.m = "0" -> [t |-> w.s.t, p |-> w.p, e |-> w.e]
    [] w.s.m = "id" -> [t |-> Append(w.s.t, Word(rich, w.s.b)), p |-> Append(w.p, w.from), e |-> <<>>]
    [] w.s.m \in {"c1", "c2"} -> [t |-> w.s.t, p |-> w.p, e |-> w.from]
    [] OTHER -> [t |-> w.s.t, p |-> w.p, e |-> w.at]     \* a string without an end
\* the first token that does not fit (0: each fits)
Misfit(rich, toks) ==
  FoldLeft(LAMBDA a, k : IF a.k # 0 THEN a
                         ELSE LET st == ParStep(rich, a.st, toks[k]) IN [st |-> st, k |-> IF st.q = "err" THEN k ELSE 0],
           [st |-> ParInit, k |-> 0], [k \in 1..Len(toks) |-> k]).k

(***************************************************************************)
(* Languages over letters: as Langs, with a set of letters per terminal.   *)
(***************************************************************************)
LangsT(n, R, tl, b, K) ==
  LET pw == TLCEval([k \in 0..K |-> Pow(Max2(b, 1), k)])
      L0 == [x \in 0..(n-1) |-> [EmptyLang(K) EXCEPT ![1] = tl[x]]]
  IN LangFix(SetToSeq(R), TLCEval(L0), K, pw)

(***************************************************************************)
(* C25  basic BNF                                                          *)
(***************************************************************************)
Name(res, x) == res.names[x + 1]
IsNamed(res, x) == Name(res, x) # <<>>
NamedSyms(res) == {x \in 0..(res.n - 1) : IsNamed(res, x)}
WellFormedRes(res) ==
  /\ Len(res.names) = res.n
  /\ \A k \in 1..Len(res.rules) : res.rules[k].l < res.n /\ \A j \in 1..Len(res.rules[k].r) : res.rules[k].r[j] < res.n
  /\ \A k \in 1..Len(res.roots) : res.roots[k] < res.n
\* y derives the repetitions of x, by the rules of unnamed symbols alone
Repeats(res, y, x, least) ==
  /\ ~IsNamed(res, y)
  /\ LET R == {P(res.rules[k]) : k \in {j \in 1..Len(res.rules) : ~IsNamed(res, res.rules[j].l)}}
         K == 5
         L == Langs(res.n, R, <<x>>, K)[y]
     IN L = [k \in 0..K |-> IF k >= least THEN {0} ELSE {}]
RuleByName(res, r) == <<Name(res, r.l), [j \in 1..Len(r.r) |-> Name(res, r.r[j])]>>
FragNames(rules) == {rules[i].l : i \in 1..Len(rules)} \cup
                    UNION {{f.x : f \in {g \in Ran(rules[i].r) : g.k \in {"id", "plus", "star"}}} : i \in 1..Len(rules)}
ByName(res, w) == CHOOSE x \in NamedSyms(res) : Name(res, x) = w

C25_fragment(res, y, f) ==
  CASE f.k = "id" -> Name(res, y) = f.x
    [] f.k = "plus" -> Repeats(res, y, ByName(res, f.x), 1)
    [] f.k = "star" -> Repeats(res, y, ByName(res, f.x), 0)
C25_load(ev) ==
  LET exp == Read(FALSE, ev.t)  res == ev.res IN
  /\ res.ok = exp.ok
  /\ exp.ok =>
     /\ WellFormedRes(res)
     /\ \A x, y \in NamedSyms(res) : x # y => Name(res, x) # Name(res, y)
     /\ {Name(res, x) : x \in NamedSyms(res)} = FragNames(exp.rules)
     /\ Len(res.roots) = 1 /\ Name(res, res.roots[1]) = exp.rules[1].l
     /\ LET main == SelectSeq(res.rules, LAMBDA r : IsNamed(res, r.l)) IN
        /\ Len(main) = Len(exp.rules)
        /\ \A i \in 1..Len(main) :
             /\ Name(res, main[i].l) = exp.rules[i].l
             /\ main[i].o = i
             /\ Len(main[i].r) = Len(exp.rules[i].r)
             /\ \A j \in 1..Len(main[i].r) : C25_fragment(res, main[i].r[j], exp.rules[i].r[j])
     /\ (\A x \in 0..(res.n - 1) : IsNamed(res, x)) =>
          LET again == Read(FALSE, res.bnf)  re == res.re IN
          /\ again.ok /\ re.ok
          /\ WellFormedRes(re)
          /\ [i \in 1..Len(again.rules) |-> <<again.rules[i].l, [j \in 1..Len(again.rules[i].r) |-> again.rules[i].r[j].x]>>]
               = [i \in 1..Len(res.rules) |-> RuleByName(res, res.rules[i])]
          /\ [i \in 1..Len(re.rules) |-> RuleByName(re, re.rules[i])] = [i \in 1..Len(res.rules) |-> RuleByName(res, res.rules[i])]
          /\ Len(re.roots) = 1 /\ Name(re, re.roots[1]) = Name(res, res.roots[1])
C25(s, ev) == CASE ev.op = "load" -> C25_load(ev) [] OTHER -> TRUE

(***************************************************************************)
(* C28  character classes                                                  *)
(***************************************************************************)
InRanges(rs, c) == \E i \in 1..Len(rs) : rs[i][1] <= c /\ c <= rs[i][2]
IsChar(c) == c \in 0..55295 \/ c \in 57344..1114111
InClass(cl, c) == IsChar(c) /\ (InRanges(cl.rs, c) = (cl.neg = 0))
Critical(cl) == UNION {{cl.rs[i][1] - 1, cl.rs[i][1], cl.rs[i][2], cl.rs[i][2] + 1} : i \in 1..Len(cl.rs)}
CharPoints == {0, 55295, 57344, 1114111}
SameClass(a, b) == \A c \in Critical(a) \cup Critical(b) \cup CharPoints : IsChar(c) => (InClass(a, c) <=> InClass(b, c))
NoRepeats(q) == Cardinality(Ran(q)) = Len(q)
C28_lexmap(ev) ==
  LET cs == ev.classes  sy == ev.res.sy IN
  /\ Len(sy) = Len(cs)
  /\ \A i, j \in 1..Len(cs) : i < j => ((sy[i] = sy[j]) <=> SameClass(cs[i], cs[j]))
  \* the ranges of each class: first character and the one after the last (which the last character of all does not have)
  /\ Len(ev.res.iter) = Len(cs)
  /\ \A i \in 1..Len(cs) : \A k \in 1..Len(ev.probes) :
       LET c == ev.probes[k]  q == ev.res.iter[i] IN
       c # 1114111 => (InClass(cs[i], c) <=> \E j \in 1..Len(q) : q[j][1] <= c /\ c < q[j][2])
  /\ Len(ev.res.get) = Len(ev.probes)
  /\ \A k \in 1..Len(ev.probes) :
       /\ NoRepeats(ev.res.get[k])
       /\ Ran(ev.res.get[k]) = {sy[i] : i \in {j \in 1..Len(cs) : InClass(cs[j], ev.probes[k])}}
C28(s, ev) == CASE ev.op = "lexmap" -> C28_lexmap(ev) [] OTHER -> TRUE

(***************************************************************************)
(* Regular expressions.  An expression is a tree:                          *)
(*   [k "c", c] character         [k "cls", neg, rs] class                 *)
(*   [k "dot"] any but newline    [k "none"] nothing at all                *)
(*   [k "e"] empty                [k "cat", xs]   [k "alt", xs]            *)
(*   [k "rep", lo, hi, lazy, x] (hi = -1: unbounded)                       *)
(*   [k "grp", cap, x] (0: not capturing, 1: capturing, 2: named)          *)
(*   [k "ci", x] ignoring case                                             *)
(***************************************************************************)
Meta == {92, 46, 43, 42, 63, 40, 41, 124, 91, 93, 123, 125, 94, 36, 35, 38, 45, 126}
ShowChar(c) == IF c \in Meta THEN <<92, c>> ELSE <<c>>
RECURSIVE ShowNum(_)
ShowNum(n) == IF n < 10 THEN <<48 + n>> ELSE ShowNum(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Show(_)
ShowCounts(a) ==
  (CASE a.lo = 0 /\ a.hi = -1 -> <<42>>
     [] a.lo = 1 /\ a.hi = -1 -> <<43>>
     [] a.lo = 0 /\ a.hi = 1 -> <<63>>
     [] a.hi = a.lo -> <<123>> \o ShowNum(a.lo) \o <<125>>
     [] a.hi = -1 -> <<123>> \o ShowNum(a.lo) \o <<44, 125>>
     [] OTHER -> <<123>> \o ShowNum(a.lo) \o <<44>> \o ShowNum(a.hi) \o <<125>>)
  \o (IF a.lazy = 1 THEN <<63>> ELSE <<>>)
ShowGroup(x) == <<40, 63, 58>> \o Show(x) \o <<41>>
Show(a) ==
  CASE a.k = "c" -> ShowChar(a.c)
    [] a.k = "cls" -> <<91>> \o (IF a.neg = 1 THEN <<94>> ELSE <<>>)
                      \o FlattenSeq([i \in 1..Len(a.rs) |-> ShowChar(a.rs[i][1]) \o <<45>> \o ShowChar(a.rs[i][2])]) \o <<93>>
    [] a.k = "dot" -> <<46>>
    [] a.k = "none" -> <<91, 94, 92, 115, 92, 83, 93>>
    [] a.k = "e" -> <<40, 63, 58, 41>>
    [] a.k = "cat" -> FlattenSeq([i \in 1..Len(a.xs) |-> IF a.xs[i].k = "cat" THEN ShowGroup(a.xs[i]) ELSE Show(a.xs[i])])
    [] a.k = "alt" -> <<40, 63, 58>> \o FlattenSeq([i \in 1..Len(a.xs) |-> (IF i = 1 THEN <<>> ELSE <<124>>) \o Show(a.xs[i])]) \o <<41>>
    [] a.k = "rep" -> (IF a.x.k \in {"c", "cls", "dot", "none", "e", "alt", "grp", "ci"} THEN Show(a.x) ELSE ShowGroup(a.x)) \o ShowCounts(a)
    [] a.k = "grp" -> (CASE a.cap = 0 -> <<40, 63, 58>> [] a.cap = 1 -> <<40>> [] OTHER -> <<40, 63, 80, 60, 110, 62>>) \o Show(a.x) \o <<41>>
    [] a.k = "ci" -> <<40, 63, 105, 58>> \o Show(a.x) \o <<41>>
\* expressions that are not well-formed
BadPatterns == {<<40>>, <<41>>, <<91>>, <<42>>, <<43>>, <<97, 123, 50, 44, 49, 125>>, <<91, 98, 45, 97, 93>>, <<92>>,
                <<40, 63, 122, 41>>, <<97, 124, 40>>, <<97, 123, 50>>, <<40, 97>>, <<97, 41>>, <<124, 42>>, <<40, 63, 80, 60>>}

Fold(c) == CASE c \in 65..90 -> c + 32
             [] c = 8490 -> 107
             [] c = 383 -> 115
             [] c \in 192..222 /\ c # 215 -> c + 32
             [] OTHER -> c
FoldClass(c) == LET f == Fold(c) IN
  {f} \cup (IF f \in 97..122 \/ (f \in 224..254 /\ f # 247) THEN {f - 32} ELSE {})
      \cup (IF f = 107 THEN {8490} ELSE {}) \cup (IF f = 115 THEN {383} ELSE {})
LetterSet(al, test(_)) == {i - 1 : i \in {j \in 1..Len(al) : test(al[j])}}
\* with one letter in all, words are told apart by length alone
OneLetter(K, S, pw) == [EmptyLang(K) EXCEPT ![1] = IF pw[1] = 1 /\ S # {} THEN {0} ELSE S]
RECURSIVE RxPower(_, _, _, _)
RxPower(L, n, K, pw) == IF n = 0 THEN EpsLang(K) ELSE CatL(RxPower(L, n - 1, K, pw), L, K, pw)
\* L^lo | ... | L^hi
RECURSIVE RxRange(_, _, _, _, _)
RxRange(L, cur, n, K, pw) == IF n = 0 THEN cur ELSE UniL(cur, RxRange(L, CatL(cur, L, K, pw), n - 1, K, pw), K)
RECURSIVE RxLang(_, _, _, _, _)
RxLang(a, ci, al, K, pw) ==
  CASE a.k = "c" -> OneLetter(K, LetterSet(al, LAMBDA c : c = a.c \/ (ci /\ Fold(c) = Fold(a.c))), pw)
    [] a.k = "cls" ->
         OneLetter(K, LetterSet(al, LAMBDA c :
           (InRanges(a.rs, c) \/ (ci /\ \E d \in FoldClass(c) : InRanges(a.rs, d))) = (a.neg = 0)), pw)
    [] a.k = "dot" -> OneLetter(K, LetterSet(al, LAMBDA c : c # 10), pw)
    [] a.k = "none" -> EmptyLang(K)
    [] a.k = "e" -> EpsLang(K)
    [] a.k = "cat" -> FoldLeft(LAMBDA L, x : CatL(L, RxLang(x, ci, al, K, pw), K, pw), EpsLang(K), a.xs)
    [] a.k = "alt" -> FoldLeft(LAMBDA L, x : UniL(L, RxLang(x, ci, al, K, pw), K), EmptyLang(K), a.xs)
    [] a.k = "rep" -> LET L == RxLang(a.x, ci, al, K, pw) IN
                      RxRange(L, RxPower(L, a.lo, K, pw), IF a.hi = -1 THEN K ELSE a.hi - a.lo, K, pw)
    [] a.k = "grp" -> RxLang(a.x, ci, al, K, pw)
    [] a.k = "ci" -> RxLang(a.x, TRUE, al, K, pw)
RxK(al) == LET b == Len(al) IN (IF b <= 1 THEN 7 ELSE IF b = 2 THEN 4 ELSE IF b = 3 THEN 3 ELSE 2) + Deep
\* the language of symbol y of a grammar whose terminals stand for letters
SymLang(res, R, al, y, K, b) ==
  LET pos(x) == {i - 1 : i \in {j \in 1..Len(al) : x \in Ran(res.get[j])}}
      tl == TLCEval([x \in 0..(res.n - 1) |-> IF b = 1 /\ pos(x) # {} THEN {0} ELSE pos(x)])
  IN LangsT(res.n, R, tl, b, K)[y]
\* all words up to a length, and the lengths of longer ones
RxMatches(res, R, al, y, a) ==
  LET K == RxK(al)
      same(k, b) == SymLang(res, R, al, y, k, b) = RxLang(a, FALSE, al, k, [i \in 0..k |-> Pow(Max2(b, 1), i)])
  IN same(K, Len(al)) /\ (Len(al) > 0 => same(LongK, 1))

(***************************************************************************)
(* C27  regular expressions                                                *)
(***************************************************************************)
C27_regexp(ev) ==
  IF ev.p \in BadPatterns THEN ev.res.ok = FALSE
  ELSE /\ Assert(Show(ev.a) = ev.p, <<"HARNESS: not the text of the expression", ev.p, Show(ev.a)>>)
       /\ ev.res.ok
       /\ Len(ev.res.roots) = 1
       /\ RxMatches(ev.res, Pairs(ev.res.rules), ev.al, ev.res.roots[1], ev.a)
C27(s, ev) == CASE ev.op = "regexp" -> C27_regexp(ev) [] OTHER -> TRUE

(***************************************************************************)
(* C26  rich BNF                                                           *)
(***************************************************************************)
RegexpWord == <<82, 101, 103, 101, 120, 112>>
LexPrefix == <<95, 95, 108, 101, 120>>
IsLexName(w) == Len(w) > 5 /\ SubSeq(w, 1, 5) = LexPrefix
Calls(rules) == UNION {{f \in Ran(rules[i].r) : f.k = "call"} : i \in 1..Len(rules)}
Strings(rules) == UNION {{f.x : f \in {g \in Ran(rules[i].r) : g.k = "str"}} : i \in 1..Len(rules)}
\* ev.rx lists the expressions that occur: text and tree
RxKnown(ev, w) == \E i \in 1..Len(ev.rx) : ev.rx[i].p = w
RxTree(ev, w) == ev.rx[CHOOSE i \in 1..Len(ev.rx) : ev.rx[i].p = w].a
LettersOf(res, al, y) == {al[j] : j \in {i \in 1..Len(al) : y \in Ran(res.get[i])}}
Spells(res, al, y, str) ==
  LET R == SelectSeq(res.rules, LAMBDA r : r.l = y) IN
  /\ Len(R) > 0
  /\ \A k \in 1..Len(R) : /\ Len(R[k].r) = Len(str)
                          /\ \A j \in 1..Len(str) : LettersOf(res, al, R[k].r[j]) = {str[j]}
C26_fragment(ev, y, f) ==
  LET res == ev.res IN
  CASE f.k = "id" -> Name(res, y) = f.x
    [] f.k = "plus" -> Repeats(res, y, ByName(res, f.x), 1)
    [] f.k = "star" -> Repeats(res, y, ByName(res, f.x), 0)
    [] f.k = "str" -> IsLexName(Name(res, y)) /\ y \in Ran(res.lex) /\ Spells(res, ev.al, y, f.x)
    [] f.k = "call" ->
         RxMatches(res, {P(res.rules[k]) : k \in {j \in 1..Len(res.rules) : ~IsNamed(res, res.rules[j].l)}}, ev.al, y, RxTree(ev, f.x))
Unmodelled(exp, ev) ==
  LET all == exp.rules \o exp.lex IN
  exp.ok /\ \/ \E f \in Calls(all) : f.x \notin BadPatterns /\ ~RxKnown(ev, f.x)
            \/ \E w \in FragNames(all) : IsLexName(w)
            \/ \E w \in Strings(all) : ~(Ran(w) \subseteq Ran(ev.al))
C26_load(ev) ==
  LET exp == Read(TRUE, ev.t)
      res == ev.res
      all == exp.rules \o exp.lex
      lhss(rules) == {rules[i].l : i \in 1..Len(rules)}
      calls == Calls(all)
      ok == /\ exp.ok
            /\ lhss(exp.rules) \cap lhss(exp.lex) = {}
            /\ \A f \in calls : f.f = RegexpWord /\ f.x \notin BadPatterns
  IN
  IF Unmodelled(exp, ev) THEN TRUE
  ELSE
  /\ \A i \in 1..Len(ev.rx) : Assert(Show(ev.rx[i].a) = ev.rx[i].p, <<"HARNESS: not the text of the expression", ev.rx[i].p>>)
  /\ res.ok = ok
  /\ ok =>
     LET strs == Strings(all)
         main == SelectSeq(res.rules, LAMBDA r : IsNamed(res, r.l) /\ ~IsLexName(Name(res, r.l)))
         named == NamedSyms(res)
         lexsyms == {x \in named : IsLexName(Name(res, x))}
     IN
     /\ WellFormedRes(res)
     /\ \A x, y \in named : x # y => Name(res, x) # Name(res, y)
     /\ {Name(res, x) : x \in named \ lexsyms} = FragNames(all)
     /\ Cardinality(lexsyms) = Cardinality(strs)
     /\ Len(res.roots) = 1 /\ Name(res, res.roots[1]) = all[1].l
     /\ Len(main) = Len(all)
     /\ \A i \in 1..Len(main) :
          /\ Name(res, main[i].l) = all[i].l
          /\ main[i].o = i
          /\ Len(main[i].r) = Len(all[i].r)
          /\ \A j \in 1..Len(main[i].r) : C26_fragment(ev, main[i].r[j], all[i].r[j])
     /\ res.actions = [i \in 1..Len(all) |-> <<i, all[i].a>>]
     /\ Ran(res.lex) = lexsyms \cup {ByName(res, w) : w \in lhss(exp.lex)}
     /\ Ran(res.map) = {<<Name(res, x), x>> : x \in named}
     /\ Len(res.map) = Cardinality(named)
C26(s, ev) == CASE ev.op = "loadadv" -> C26_load(ev) [] OTHER -> TRUE

(***************************************************************************)
(* C33  places of errors.  A refused text has [line, column] in res.at.    *)
(***************************************************************************)
\* places of errors in the rules of a rich text that is otherwise well-formed
RuleError(toks, p) ==       \* <<>> or <<line>>
  LET st == Parse(TRUE, toks)
      ix == Parse(TRUE, [k \in 1..Len(toks) |-> <<toks[k][1], <<k>>>>])   \* numbers of tokens instead of their texts
      all == st.rules \o st.lex
      nums == ix.rules \o ix.lex
      inParser == {st.rules[i].l : i \in 1..Len(st.rules)}
      ofFragment(f, n) ==
        IF f.k # "call" THEN <<>>
        ELSE IF f.f # RegexpWord THEN <<p[n.f[1]][1]>>
        ELSE IF f.x \in BadPatterns THEN <<p[n.x[1]][1]>> ELSE <<>>
      ofRule(i) ==
        IF i > Len(st.rules) /\ all[i].l \in inParser THEN <<p[nums[i].l[1]][1]>>
        ELSE FoldLeft(LAMBDA a, j : IF a # <<>> THEN a ELSE ofFragment(all[i].r[j], nums[i].r[j]), <<>>, [j \in 1..Len(all[i].r) |-> j])
  IN FoldLeft(LAMBDA a, i : IF a # <<>> THEN a ELSE ofRule(i), <<>>, [i \in 1..Len(all) |-> i])
\* <<>>: nothing is stated; <<line>>; <<line, column>>
ErrorPlace(rich, text) ==
  LET w == Where(rich, text)
      k == Misfit(rich, w.t)
      st == Parse(rich, w.t)
      kws == SelectSeq([i \in 1..Len(w.t) |-> i], LAMBDA i : w.t[i][1] = "lexer")
  IN CASE ~rich /\ w.e # <<>> -> w.e
       [] k # 0 -> w.p[k]
       [] w.e # <<>> -> w.e
       [] st.q # "top" \/ st.in \/ Len(st.rules) + Len(st.lex) = 0 -> <<>>     \* the text ends too early
       [] st.nlex > 1 -> w.p[kws[2]]
       [] rich -> RuleError(w.t, w.p)
       [] OTHER -> <<>>
C33_load(rich, ev) ==
  ~ev.res.ok =>
    IF rich /\ Unmodelled(Read(TRUE, ev.t), ev) THEN TRUE
    ELSE LET e == ErrorPlace(rich, ev.t) IN Len(ev.res.at) = 2 /\ SubSeq(ev.res.at, 1, Len(e)) = e
C33(s, ev) == CASE ev.op = "load" -> C33_load(FALSE, ev) [] ev.op = "loadadv" -> C33_load(TRUE, ev) [] OTHER -> TRUE

(***************************************************************************)
(* C32  printed forms and named rules                                      *)
(***************************************************************************)
OwnName(g, x) == IF Has(g, "names") THEN g.names[x+1] ELSE "~"
ShownName(g, x) == IF OwnName(g, x) = "~" THEN "g" \o ToString(x) ELSE OwnName(g, x)
Concat(q) == FoldLeft(LAMBDA a, x : a \o x, "", q)
NumberedName(g, x) == IF \A y \in 0..(g.n - 1) : OwnName(g, y) = "~" THEN ToString(x)
                      ELSE ShownName(g, x) \o "(" \o ToString(x) \o ")"
FullLine(g, r) == NumberedName(g, r.l) \o " ::= "
                  \o (IF r.r = <<>> THEN "()" ELSE Concat([j \in 1..Len(r.r) |-> (IF j = 1 THEN "" ELSE " ~ ") \o NumberedName(g, r.r[j])])) \o ";\n"
BasicLine(g, r) == ShownName(g, r.l) \o " ::= " \o Concat([j \in 1..Len(r.r) |-> (IF j = 1 THEN "" ELSE " ") \o ShownName(g, r.r[j])]) \o ";\n"
C32_bnf(s, ev) ==
  LET g == s.g IN
  /\ ev.res.full = Concat([i \in 1..Len(g.rules) |-> FullLine(g, g.rules[i])])
  \* the plain form only tells symbols apart that have a visible name (an empty one at the end of a rule leaves a blank or none)
  /\ (\E x \in 0..(g.n - 1) : OwnName(g, x) = "") \/ ev.res.basic = Concat([i \in 1..Len(g.rules) |-> BasicLine(g, g.rules[i])])
\* the names of a rule, left-hand side first
RuleNames(g, r) == <<OwnName(g, r.l)>> \o [j \in 1..Len(r.r) |-> OwnName(g, r.r[j])]
Stamp(r) == <<r.o, r.w, r.u>>
DebugName(n) == "\"" \o (IF n = "~" THEN "gensym" ELSE n) \o "\""
DebugRule(nm) == "NamedCfgRule { lhs: " \o DebugName(nm[1]) \o ", rhs: ["
                 \o Concat([j \in 1..(Len(nm) - 1) |-> (IF j = 1 THEN "" ELSE ", ") \o DebugName(nm[j+1])]) \o "]"
C32_rulenames(s, ev) ==
  LET R == s.g.rules  nm == [i \in 1..Len(R) |-> RuleNames(s.g, R[i])] IN
  \* a rule made of names alone has no history: names decide
  /\ ev.res.eq = [k \in 1..Len(ev.names) |-> [i \in 1..Len(R) |-> ev.names[k] = nm[i]]]
  /\ ev.res.own = ev.res.eq
  /\ ev.res.shown = [i \in 1..Len(R) |-> DebugRule(nm[i])]
  /\ \A i, j \in 1..Len(R) :
       /\ ev.res.pair[i][j] = ev.res.pair[j][i]
       /\ nm[i] # nm[j] => ~ev.res.pair[i][j]
       /\ Stamp(R[i]) # Stamp(R[j]) => ~ev.res.pair[i][j]
       /\ i = j => ev.res.pair[i][j]
C32(s, ev) == CASE ev.op = "bnf" -> C32_bnf(s, ev)
                [] ev.op = "rulenames" -> C32_rulenames(s, ev)
                [] OTHER -> TRUE
=============================================================================
