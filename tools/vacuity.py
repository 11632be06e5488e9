#!/usr/bin/env python3
"""Is the design stage able to fail?  Breaks the models of the algorithms one at a time in a scratch
copy of the specification and runs the quick design steps of the property: TLC must find a violation."""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
A, T, P, G, X, F = "CfgAlg.tla", "CfgTextMC.tla", "CfgPoolMC.tla", "CfgGenMC.tla", "CfgText.tla", "CfgFix.tla"
M = [
 ("C01", P, "keep == SelectSeq(named, LAMBDA x : \\A y \\in Ran(named) : g.names[y+1] = g.names[x+1] => x <= y)", "keep == Tail0(named)"),
 ("C01", P, '!.names = SubSeq(@, 1, o.k)]]', '!.names = SubSeq(@, 1, o.k - 1)]]'),
 ("C02", A, "IF a # <<>> /\\ P(a[Len(a)]) = P(r) THEN a", "IF a # <<>> /\\ a[Len(a)].l = r.l THEN a"),
 ("C02", A, "order == SortSeq(Idx(rs), LAMBDA i, j : less(rs[i], rs[j]) \\/ (~less(rs[j], rs[i]) /\\ i < j))", "order == Idx(rs)"),
 ("C03", A, "LET k == Min2(lim, Len(rest))", "LET k == Min2(lim + 1, Len(rest))"),
 ("C03", A, "ELSE SplitRule(g2, rule, <<l>> \\o left, lim, parts + 1)", "ELSE SplitRule(g2, rule, left \\o <<l>>, lim, parts + 1)"),
 ("C04", A, "[] Len(a) = 2 /\\ a[1] \\in N -> <<[r", "[] Len(a) = 2 /\\ a[1] \\in N /\\ a[2] # r.l /\\ a[1] # 1 -> <<[r"),
 ("C04", A, "LAMBDA r : r.r # <<>>)]\n", "LAMBDA r : TRUE)]\n"),
 ("C05", A, "nul(r) == IF Ran(r.r) \\subseteq N", "nul(r) == IF Len(r.r) < 2 /\\ Ran(r.r) \\subseteq N"),
 ("C06", A, "!.o = IF keep \\/ top THEN @ ELSE -1]", "!.o = @]"),
 ("C06", A, "-> <<[r EXCEPT !.r = <<a[1]>>, !.u = <<a[2], 1>>]>>", "-> <<[r EXCEPT !.r = <<a[1]>>, !.u = <<a[2], 0>>]>>"),
 ("C07", A, "Pow2Half(x) == NextPow2(x, 1) \\div 2", "Pow2Half(x) == NextPow2(x, 1)"),
 ("C07", A, 'Prefixed(m) == IF m = "proper" THEN "trailing" ELSE m', 'Prefixed(m) == m'),
 ("C08", A, 'IF st.as = "L" THEN Min(pos) ELSE Max(pos)\n           rhs', 'IF st.as = "R" THEN Min(pos) ELSE Max(pos)\n           rhs'),
 ("C08", A, '       IN [st2 EXCEPT !.as = "L"]', '       IN st2'),
 ("C09", A, "Cyclic(U, r) == Len(r.r) = 1 /\\ r.l \\in U[r.r[1]]", "Cyclic(U, r) == Len(r.r) = 1 /\\ r.l \\in U[r.l]"),
 ("C10", A, "[h EXCEPT !.roots = MapSeq(f, @), !.wr = [i", "[h EXCEPT !.wr = [i"),
 ("C10", A, "IF x = r.l \\/ (x \\in U[r.l] /\\ r.l \\in U[x]) THEN r.l ELSE t[x]]", "IF x = r.l \\/ x \\in U[r.l] THEN r.l ELSE t[x]]"),
 ("C11", A, "UNION {M[x] \\cup {x} : x \\in Ran(roots)}]", "UNION {M[x] : x \\in Ran(roots)}]"),
 ("C11", A, "[p |-> RhsClosure(g, TRUE, Terms(g) \\cup Nulling(g))", "[p |-> RhsClosure(g, TRUE, Terms(g))"),
 ("C12", A, "IN <<RmUseless(h, Useful(h, h.roots)), FALSE>>", "IN <<h, FALSE>>"),
 ("C13", A, "!.te = [i \\in 1..Len(order) |-> st.te[order[i]+1]]]", "!.te = [i \\in 1..Len(order) |-> order[i]]]"),
 ("C14", A, "IF x \\in un THEN 1 ELSE 0)", "IF x \\in un THEN 0 ELSE 1)"),
 ("C15", A, "IN [t |-> m.t \\cup f.t, e |-> f.e] ELSE [m EXCEPT", "IN [t |-> m.t \\cup f.t, e |-> TRUE] ELSE [m EXCEPT"),
 ("C15", F, "IN [t |-> m.t \\cup f.t, e |-> f.e] ELSE m", "IN [t |-> f.t, e |-> f.e] ELSE m"),
 ("C16", A, "IF F[x].e THEN [a[2] EXCEPT !.t = @ \\cup F[x].t] ELSE", "IF F[x].e THEN [a[2] EXCEPT !.t = F[x].t] ELSE"),
 ("C16", F, "IF rest.e THEN Join([rest EXCEPT !.e = FALSE], v[r.l]) ELSE rest", "rest"),
 ("C17", A, "(IF f.e THEN O[r.l].t \\cup (IF O[r.l].e THEN {EOI} ELSE {}) ELSE {})", "(IF f.e THEN O[r.l].t ELSE {})"),
 ("C17", A, "bad == RhsClosure(g, FALSE, multi)", "bad == multi"),
 ("C18", A, "LAMBDA it : g.rules[it[1]+1].l \\in pd /\\ it \\notin S)", "LAMBDA it : g.rules[it[1]+1].l \\in pd /\\ it \\notin S /\\ it[1] < 2)"),
 ("C19", A, "z |-> Len(r.r) \\in at(r)", "z |-> 1 \\in at(r)"),
 ("C20", A, "IF k \\in M[i] THEN M[i]", "IF k \\in M[i] THEN {}"),
 ("C20", P, "[] i[1] = \"neg\" -> Mask([b EXCEPT", "[] i[1] = \"neg\" -> ([b EXCEPT"),
 ("C21", A, "SetMin(f, x, v) == IF f[x] = -1 \\/ f[x] > v THEN", "SetMin(f, x, v) == IF f[x] = -1 THEN"),
 ("C22", A, "IF r.l \\notin a[1] /\\ sat THEN <<a[1] \\cup {r.l}, Append(a[2], r.l)>>", "IF r.l \\notin a[1] /\\ sat THEN <<a[1] \\cup {r.l}, a[2]>>"),
 ("C22", A, "(a[1][r.l] = -1 \\/ a[1][r.l] > w)", "(a[1][r.l] = -1)"),
 ("C22", F, "IF v[r.l] = -1 \\/ v[r.l] > w THEN", "IF v[r.l] = -1 THEN"),
 ("C23", G, "SelectSeq(@, LAMBDA d : d.order <= b.order)", "SelectSeq(@, LAMBDA d : d.order < b.order)"),
 ("C23", G, "!.out = SubSeq(out, 1, b.out)", "!.out = out"),
 ("C24", P, "Max2(idx - 1, 0) + 1][1], SumW(alts), 1>>", "Max2(idx - 1, 0) + 1][1], SumW(alts) + 1, 1>>"),
 ("C09", A, "pairs(SelectSeq(g.rules, LAMBDA r : ~Cyclic(U, r)))", "pairs(SelectSeq(g.rules, LAMBDA r : ~Cyclic(U, r) /\\ Len(r.r) # 2))"),
 ("C32", A, "eq |-> eq, own |-> eq", "eq |-> eq, own |-> [k \\in 1..Len(eq) |-> [i \\in 1..Len(eq[k]) |-> TRUE]]"),
 ("C20", A, "rt |-> R, odd |-> TRUE", "rt |-> U, odd |-> TRUE"),
 ("C28", P, "ends(r) == <<r[1], IF r[2] = 1114111 THEN r[2] ELSE Next1(r[2])>>", "ends(r) == r"),
 ("C24", P, "Max2(idx - 1, 0) + 1][1], SumW(alts), 1>>", "Max2(idx - 2, 0) + 1][1], SumW(alts), 1>>"),
 ("C27", P, '[] a.k = "ci" -> Trans(st, a.x, TRUE)', '[] a.k = "ci" -> Trans(st, a.x, ci)'),
 ("C27", P, "s |-> a.lo, e |-> a.hi, mode", "s |-> Min2(a.lo, 2), e |-> a.hi, mode"),
 ("C28", P, "Next1(c) == IF c = 55295 THEN 57344 ELSE c + 1", "Next1(c) == c"),
 ("C28", P, "IF c < 128 THEN ascii(c)", "IF c < 128 THEN {}"),
 ("C29", A, "r |-> <<a, x, z>>, o |-> 0", "r |-> <<z, x, a>>, o |-> 0"),
 ("C30", P, "CASE w = 8 -> up[1] = 0 /\\ up[2] <= 255", "CASE w = 8 -> up[1] = 0 /\\ up[2] <= 256"),
 ("C31", A, "MirrorRules(g) == [g EXCEPT !.rules = [i \\in 1..Len(@) |-> [@[i] EXCEPT !.r = Reverse(@)]]]", "MirrorRules(g) == g"),
 ("C32", A, 'text(tok, r.l) \\o " ::= "', 'text(tok, r.l) \\o " := "'),
 ("C35", A, "<<At(rule.o, 0), At(rule.o, n - 1), At(rule.o, n)>>", "<<At(rule.o, 0), At(rule.o, n), At(rule.o, n)>>"),
 ("C35", A, "[] OTHER -> <<NoDot, At(rule.o, parts + 1), NoDot>>", "[] OTHER -> <<NoDot, At(rule.o, parts), NoDot>>"),
]


def run(m):
    prop, f, old, new = m
    d = f"/tmp/vac/{M.index(m)}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(V, "spec"), d)
    t = open(f"{d}/{f}").read()
    if old not in t:
        return "TEXT NOT FOUND"
    open(f"{d}/{f}", "w").write(t.replace(old, new, 1))
    res = "NOT NOTICED"
    for k, step in enumerate(PLAN[prop]["quick_design"]):
        if f == F and step["module"] != "CfgFix.tla":
            continue
        e = dict(os.environ, PROP=prop, SEED="1", EMIT=f"{d}/emit", **step["env"])
        if "PROP" in step["env"]:
            e["PROP"] = step["env"]["PROP"]
        r = subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx3g", "-Xss64m", f"-Djava.io.tmpdir={d}", "-cp", JAR, "tlc2.TLC", "-workers", "2", "-metadir", f"{d}/m{k}",
                            "-noGenerateSpecTE", "-config", step["cfg"], step["module"]], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode in (12, 13):
            w = re.findall(r"Invariant (\w+) is violated|Temporal properties were violated", r.stdout)
            res = f"noticed ({w[0] if w and w[0] else 'liveness'})"
            break
        if r.returncode != 0:
            res = f"noticed (evaluation error {r.returncode})"
            break
    shutil.rmtree(d, ignore_errors=True)
    return res


sel = [m for m in M if len(sys.argv) < 2 or m[0] in sys.argv[1:]]
bad = 0
with ThreadPoolExecutor(3) as ex:
    for m, r in zip(sel, ex.map(run, sel)):
        bad += not r.startswith("noticed")
        print(f"{m[0]} {m[1]:14} {r:28} {m[2][:70]!r}", flush=True)
print(len(sel) - bad, "of", len(sel), "noticed")
