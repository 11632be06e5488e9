----------------------------- MODULE CfgTextMC ------------------------------
(***************************************************************************)
(* The readers of grammar texts as machines.  TLC explores every sequence  *)
(* of tokens (MODE "tokens") or of characters (MODE "chars") as long as    *)
(* the machine has not failed, checks the machines, and prints the texts   *)
(* for the real code.                                                      *)
(***************************************************************************)
EXTENDS CfgAll, Json, IOUtils

Rich == IOEnv.RICH = "1"
MaxLen == atoi(IOEnv.LEN)
One == atoi(IOEnv.ONE)
Seed == atoi(IOEnv.SEED)
ByChars == IOEnv.MODE = "chars"

T(k) == <<k, <<>>>>
IdA == <<"id", <<65>>>>
IdB == <<"id", <<98, 95, 49>>>>
IdRx == <<"id", RegexpWord>>
StrA == <<"str", <<97>>>>
StrQ == <<"str", <<97, 34, 92>>>>
Tokens == IF Rich THEN <<IdA, IdB, IdRx, StrA, StrQ, <<"lexer", LexerWord>>, T("def"), T(";"), T("|"), T("~"), T(">"), T("("), T(")"), T("+"), T("*"), T("{"), T("}")>>
          ELSE <<IdA, IdB, T("def"), T(";"), T("|"), T("+"), T("*"), T("("), T(")")>>
Chars == <<97, 49, 58, 61, 59, 124, 32, 40, 41, 43, 233, 10>> \o (IF Rich THEN <<34, 92, 126, 62, 123>> ELSE <<42>>)
\* what stands around the characters
Frames == <<<<<<>>, <<>>>>, <<<<98, 58, 58, 61>>, <<59>>>>, <<<<98, 58, 58, 61, 99>>, <<59, 98, 58, 58, 61, 59>>>>>>

(***************************************************************************)
(* The text of tokens                                                      *)
(***************************************************************************)
Marks == [k \in {";", "|", "+", "*", "(", ")", "~", "{", "}", ">"} |->
            CASE k = ";" -> 59 [] k = "|" -> 124 [] k = "+" -> 43 [] k = "*" -> 42 [] k = "(" -> 40 [] k = ")" -> 41
              [] k = "~" -> 126 [] k = "{" -> 123 [] k = "}" -> 125 [] OTHER -> 62]
Quoted(w) == <<34>> \o FlattenSeq([i \in 1..Len(w) |-> IF w[i] \in {34, 92} THEN <<92, w[i]>> ELSE <<w[i]>>]) \o <<34>>
Text1(tok) == CASE tok[1] \in {"id", "lexer"} -> tok[2]
                [] tok[1] = "str" -> Quoted(tok[2])
                [] tok[1] = "def" -> <<58, 58, 61>>
                [] OTHER -> <<Marks[tok[1]]>>
Wordy(tok) == tok[1] \in {"id", "lexer"}
Tight(toks) == FlattenSeq([i \in 1..Len(toks) |-> (IF i > 1 /\ Wordy(toks[i]) /\ Wordy(toks[i-1]) THEN <<32>> ELSE <<>>) \o Text1(toks[i])])
Loose(toks) == FlattenSeq([i \in 1..Len(toks) |-> Text1(toks[i]) \o (CASE i % 3 = 0 -> <<10, 9>> [] i % 3 = 1 -> <<32>> [] OTHER -> <<32, 32>>)])

(***************************************************************************)
(* Printing what was read                                                  *)
(***************************************************************************)
FragToks(f) == CASE f.k = "id" -> <<<<"id", f.x>>>>
                 [] f.k = "plus" -> <<<<"id", f.x>>, T("+")>>
                 [] f.k = "star" -> <<<<"id", f.x>>, T("*")>>
                 [] f.k = "str" -> <<<<"str", f.x>>>>
                 [] OTHER -> <<<<"id", f.f>>, T("("), <<"str", f.x>>, T(")")>>
RuleToks(r) == <<<<"id", r.l>>, T("def")>>
               \o FlattenSeq([i \in 1..Len(r.r) |-> (IF Rich /\ i > 1 THEN <<T("~")>> ELSE <<>>) \o FragToks(r.r[i])])
               \o (IF r.a = <<>> THEN <<>> ELSE <<T(">"), <<"id", r.a>>>>) \o <<T(";")>>
RulesToks(rs) == FlattenSeq([i \in 1..Len(rs) |-> RuleToks(rs[i])])
Printed(st) == RulesToks(st.rules)
               \o (IF st.lex = <<>> THEN <<>> ELSE <<<<"lexer", LexerWord>>, T("{")>> \o RulesToks(st.lex) \o <<T("}")>>)

VARIABLES toks,    \* tokens, or characters
          st       \* the parser, or the tokenizer
vars == <<toks, st>>
Init == /\ toks = <<>>
        /\ st = IF ByChars THEN LexInit ELSE ParInit
Failed == IF ByChars THEN st.m = "err" ELSE st.q = "err"

Code(tok) == IF ByChars THEN tok ELSE CHOOSE i \in 1..Len(Tokens) : Tokens[i] = tok
Hash(q) == FoldLeft(LAMBDA a, x : (a * 137 + Code(x) + Seed) % 10007, 7, q)
Case(t) == [ops |-> <<IF Rich THEN [op |-> "loadadv", t |-> t, al |-> <<97, 34, 92>>, rx |-> <<[p |-> <<97>>, a |-> [k |-> "c", c |-> 97]]>>]
                      ELSE [op |-> "load", t |-> t]>>]
Output(q) ==
  LET h == Hash(q) IN
  h % One = 0 => IF ByChars THEN LET f == Frames[((h \div One) % 3) + 1] IN PrintT("CASE " \o ToJson(Case(f[1] \o q \o f[2])))
                 ELSE PrintT("CASE " \o ToJson(Case(IF (h \div One) % 2 = 0 THEN Tight(q) ELSE Loose(q))))
Read1 == /\ ~Failed
         /\ Len(toks) < MaxLen
         /\ \E k \in 1..(IF ByChars THEN Len(Chars) ELSE Len(Tokens)) :
              LET x == IF ByChars THEN Chars[k] ELSE Tokens[k] IN
              /\ toks' = Append(toks, x)
              /\ st' = IF ByChars THEN LexStep(Rich, st, x) ELSE ParStep(Rich, st, x)
              /\ Output(toks')
Next == Read1

(***************************************************************************)
(* What must hold of the machines                                          *)
(***************************************************************************)
\* the tokens come back from their text, however it is spaced
TokensBack == ~ByChars =>
  /\ Lex(Rich, Tight(toks)) = [ok |-> TRUE, t |-> toks]
  /\ Lex(Rich, Loose(toks)) = [ok |-> TRUE, t |-> toks]
\* reading what was read, printed, gives the same rules
PrintReads == (~ByChars /\ Accepts(st)) =>
  LET again == Parse(Rich, Printed(st)) IN
  /\ Accepts(again)
  /\ again.rules = st.rules /\ again.lex = st.lex
\* an accepted text has a rule, each with a name
SomeRule == (~ByChars /\ Accepts(st)) => \A i \in 1..Len(st.rules) : st.rules[i].l # <<>>
\* lines and columns, counted from the text
LineCol(text, k) ==      \* of character k
  LET nl == {i \in 1..(k-1) : text[i] = 10}
  IN <<Cardinality(nl) + 1, k - (IF nl = {} THEN 0 ELSE CHOOSE i \in nl : \A j \in nl : j <= i)>>
LastPlace(loose) == IF loose THEN LET t == Loose(toks)  before == Loose(Front(toks)) IN LineCol(t, Len(before) + 1)
                    ELSE LET t == Tight(toks) IN LineCol(t, Len(t) - Len(Text1(toks[Len(toks)])) + 1)
PlacesOK ==
  IF ByChars
  THEN LET w == Where(Rich, toks) IN
       /\ st.m = "err" => w.e # <<>>
       /\ w.e # <<>> <=> ~Lex(Rich, toks).ok
       /\ w.e = <<>> => w.t = Lex(Rich, toks).t
       /\ Len(w.p) = Len(w.t)
       /\ \A k \in 1..Len(w.t) : \E i \in 1..Len(toks) : LineCol(toks, i) = w.p[k] /\ toks[i] = Head(Text1(w.t[k]))
  ELSE st.q = "err" => /\ ErrorPlace(Rich, Tight(toks)) = LastPlace(FALSE)
                       /\ ErrorPlace(Rich, Loose(toks)) = LastPlace(TRUE)
\* tokens only ever get more, and never contain a blank
LexOK == ByChars => \A i \in 1..Len(st.t) : st.t[i][1] \in {"id", "lexer"} => st.t[i][2] # <<>> /\ \A j \in 1..Len(st.t[i][2]) : IsAlnum(st.t[i][2][j])
=============================================================================
