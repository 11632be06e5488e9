#!/usr/bin/env python3
"""How much of what is recorded do the contracts depend on?  Records histories from the real code,
falsifies one value in the outcome of one event at a time, and lets TLC judge the falsified histories.
Prints, per operation and place in the outcome, how many falsifications were accepted.
    corrupt.py PROP [histories] [falsifications]
An accepted one is either a freedom the contract leaves on purpose or a weak spot."""
import json, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
prop = sys.argv[1]
nhist = int(sys.argv[2]) if len(sys.argv) > 2 else 150
nfals = int(sys.argv[3]) if len(sys.argv) > 3 else 1500
BIN = os.environ.get("BIN", check.BIN)
work = f"/tmp/cor.{prop}"
shutil.rmtree(work, ignore_errors=True)
os.makedirs(work)
open(f"{work}/cases", "w").close()
subprocess.run([BIN, "run", prop, os.environ.get("VERIF_SEED", "1"), "quick", "0", str(nhist), f"{work}/cases", f"{work}/t", f"{work}/p"],
               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True)
hist = [json.loads(l) for l in open(f"{work}/t")]
rnd = random.Random(1)


def places(x, path):
    """paths of all values within x"""
    yield path
    if isinstance(x, list):
        for i, y in enumerate(x):
            yield from places(y, path + [i])
    elif isinstance(x, dict):
        for k, y in x.items():
            yield from places(y, path + [k])


def falsify(x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return rnd.choice([x + 1, x - 1 if x > 0 else x + 2, 0 if x else 1])
    if isinstance(x, str):
        return rnd.choice([x + "q", x[:-1] if x else "z", "~"])
    if isinstance(x, list):
        y = list(x)
        c = rnd.random()
        if y and c < .5:
            del y[rnd.randrange(len(y))]
        elif y and c < .8:
            y.insert(rnd.randrange(len(y) + 1), json.loads(json.dumps(rnd.choice(y))))
        elif len(y) > 1:
            i, j = rnd.sample(range(len(y)), 2)
            y[i], y[j] = y[j], y[i]
        else:
            return None
        return y
    return None


spec = open(f"{V}/spec/CfgOps.tla").read() + open(f"{V}/spec/CfgAll.tla").read()
m = re.search(r'p = "%s" -> \{("[^}]*)\}' % prop, spec) or re.search(r'p \\in \{[^}]*"%s"[^}]*\} -> \{("[^}]*)\}' % prop, spec)
ops = set(re.findall(r'"(\w+)"', m.group(1)))
out, meta = [], []
tries = 0
targets = []
for h in hist:
    for k, ev in enumerate(h["ev"]):
        if ev["op"] in ("panic", "hang"):
            break
        if ev["op"] not in ops:
            continue
        for f in ("res", "post", "res2", "post2"):
            if f in ev:
                for p in places(ev[f], [f]):
                    targets.append((h, k, p))
# evenly over the kinds of places
kinds = {}
for t in targets:
    key = (t[0]["ev"][t[1]]["op"], ".".join("*" if isinstance(s, int) else s for s in t[2]))
    kinds.setdefault(key, []).append(t)
per = max(3, nfals // max(1, len(kinds)))
for key, ts in sorted(kinds.items()):
    for h, k, p in rnd.sample(ts, min(per, len(ts))):
        evs = json.loads(json.dumps(h["ev"][:k + 1]))
        x = evs[k]
        for s in p[:-1]:
            x = x[s]
        new = falsify(x[p[-1]])
        if new is None or new == x[p[-1]]:
            continue
        old, x[p[-1]] = x[p[-1]], new
        meta.append((key, old, new))
        out.append({"id": len(out), "ev": evs})
with open(f"{work}/c", "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
ok = set()


def judge(lo, hi, w):
    while lo <= hi:
        e = dict(os.environ, PROP=prop, TRACES=f"{work}/c", START=str(lo), STOP=str(hi))
        r = subprocess.run(["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xmx2g", "-Xss64m", f"-Djava.io.tmpdir={w}", "-cp", check.JAR, "tlc2.TLC", "-workers", "1", "-metadir", f"{w}/m",
                            "-noGenerateSpecTE", "-config", f"{V}/tools/CfgCorrupt.cfg", "CfgCorrupt.tla"], cwd=f"{V}/spec", env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        done = re.findall(r'<<"JUDGED", (\d+), "(\w+)">>', r.stdout)
        ok.update(int(a) - 1 for a, b in done if b != "bad")
        last = max([int(a) for a, _ in done], default=lo - 1)
        if last < hi and r.returncode not in (75, 76):
            print(r.stdout[-2000:])
            sys.exit(1)
        lo = last + 2 if last < hi else hi + 1


from concurrent.futures import ThreadPoolExecutor
NW = 6
step = (len(out) + NW - 1) // NW
with ThreadPoolExecutor(NW) as ex_:
    fs = []
    for k in range(NW):
        os.makedirs(f"{work}/w{k}")
        fs.append(ex_.submit(judge, k * step + 1, min((k + 1) * step, len(out)), f"{work}/w{k}"))
    for f in fs:
        f.result()
tot, acc, ex = {}, {}, {}
for i, (key, old, new) in enumerate(meta):
    tot[key] = tot.get(key, 0) + 1
    if i in ok:
        acc[key] = acc.get(key, 0) + 1
        ex[key] = (i, json.dumps(old)[:60], json.dumps(new)[:60])
print(f"{prop}: {len(out)} falsified, {len(ok)} accepted")
for key in sorted(tot):
    if key in acc:
        print(f"   {key[0]:10} {key[1]:28} {acc[key]:4} of {tot[key]:4}   e.g. #{ex[key][0]} {ex[key][1]} -> {ex[key][2]}")
