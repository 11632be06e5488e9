#!/usr/bin/env python3
"""check.py PROP quick|thorough      decide one property on /repo's current tree
check.py replay FILE                 run a recorded violation again

1. builds the harness against /repo
2. TLC checks the design (algorithm model against contracts) and enumerates cases
3. the harness runs cases and random histories against the real code
4. TLC validates every recorded history against the specification
"""
import json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BIN = os.path.join(HARNESS, "target", "debug", "cfg-conform")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8
T0 = time.time()


def die(msg):
    print("ERROR:", msg)
    sys.stdout.flush()
    os._exit(2)


def log(msg):
    print(f"[{time.time() - T0:6.1f}s] {msg}")
    sys.stdout.flush()


# ---------------------------------------------------------------- tuning

from plan import PLAN  # noqa: E402


# ---------------------------------------------------------------- steps

def build():
    r = subprocess.run(["bash", "-c", f". {VERIF}/env.sh; cd {HARNESS} && cargo build --offline 2>&1"],
                       stdout=subprocess.PIPE, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        die("the harness does not build against /repo")
    log("built")


def tlc(cfg, module, work, env, timeout, extra=(), heap="6g", workers=NPROC):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env)
    meta = os.path.join(work, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={meta}", "-cp", JAR,
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        die(f"TLC timed out on {module} {env}")
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def tlc_stats(out):
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_shard(prop, seed, tier, lo, hi, cases, out, prog):
    """Runs scenarios lo..hi-1; a scenario that hangs or crashes is recorded as such."""
    restarts = 0
    while lo < hi:
        r = subprocess.run([BIN, "run", prop, str(seed), tier, str(lo), str(hi), cases, out, prog],
                           preexec_fn=limits, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        if r.returncode == 0:
            return None
        if r.returncode == 4:
            return "harness error: " + r.stderr[-500:]
        scn, op = None, None
        with open(prog) as f:
            for l in f:
                if l.startswith("scn "):
                    scn, op = int(l[4:]), None
                elif l.startswith("op "):
                    op = l[3:].strip()
        if scn is None or op is None or scn < lo:
            return f"driver ended with {r.returncode}: {r.stderr[-500:]}"
        # drop a half-written line
        data = open(out, "rb").read()
        cut = data.rfind(b"\n") + 1
        with open(out, "wb") as f:
            f.write(data[:cut])
            f.write((json.dumps({"id": scn, "ev": [{"op": "hang", "of": op, "rc": r.returncode}]}) + "\n").encode())
        lo = scn + 1
        restarts += 1
        if restarts >= 4:
            return None
    return None


def scenario_ops(prop, seed, tier, i, cases):
    r = subprocess.run([BIN, "ops", prop, str(seed), tier, str(i), cases], stdout=subprocess.PIPE, text=True)
    return json.loads(r.stdout) if r.returncode == 0 else []


def parse_bad(out):
    """The history and event TLC stopped at."""
    ids = re.findall(r"^/\\ id = (\d+)", out, re.M)
    idx = re.findall(r"^/\\ i = (\d+)", out, re.M)
    return (int(ids[-1]), int(idx[-1])) if ids and idx else (None, None)


def validate(prop, tier, path, work):
    rc, out = tlc("CfgTraceDeep.cfg" if tier == "thorough" and PLAN[prop].get("deep") else "CfgTrace.cfg",
                  "CfgTrace.tla", work, {"PROP": prop, "TRACES": path}, 3000 if tier == "thorough" else 600, workers=4)
    gen, dist = tlc_stats(out)
    known = [(int(a), int(b)) for a, b in re.findall(r'<<"KNOWN", (\d+), (\d+)>>', out)]
    bad = None
    if rc == 12:
        i, k = parse_bad(out)
        bad = (i, k, "the recorded step is not allowed by the specification")
    elif rc in (75, 76) and "The behavior up to this point is" in out and not re.search("StackOverflow|OutOfMemory", out):
        i, k = parse_bad(out)
        m = re.search(r"^: (.*?)^Error:", out, re.M | re.S)
        bad = (i, k + 1, "the recorded step is outside of the specification's domain: " + (m.group(1).strip() if m else ""))
    elif rc != 0:
        print(out[-5000:])
        die(f"TLC failed with {rc}")
    if bad and bad[0] is None:
        print(out[-5000:])
        die("cannot read TLC's counterexample")
    return gen, dist, known, bad


# ---------------------------------------------------------------- main

def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    for l in open(p):
        l = l.strip()
        if l:
            d = json.loads(l)
            if d["property"] == prop and d["status"] == "known":
                res.append(d)
    return res


def main(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop not in PLAN:
        die("unknown property")
    plan = PLAN[prop]
    work = os.path.join(VERIF, "work", f"{prop}.{tier}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    build()

    cases_path = os.path.join(work, "cases.nd")
    findings = known_findings(prop)
    nfind = 0
    design = {"states": 0, "transitions": 0}
    with open(cases_path, "w") as f:
        for d in findings:
            f.write(json.dumps({"ops": d["ops"]}) + "\n")
            nfind += 1
    steps = plan.get(tier + "_design", plan.get("design", []))

    def run_design(k):
        step, dwork = steps[k], os.path.join(work, f"design{k}")
        os.makedirs(dwork)
        emit = os.path.join(dwork, "emit.nd")
        env = {"PROP": prop, "EMIT": emit, "SEED": str(seed)}
        env.update(step.get("env", {}))
        extra = [x.replace("$SEED", str(seed)) for x in step.get("extra", [])]
        rc, out = tlc(step["cfg"], step["module"], dwork, env, 3000, extra=extra, workers=step.get("workers", 4))
        if rc != 0:
            print(out[-5000:])
            die(f"the design check failed ({rc}): the specification itself is broken")
        got = []
        if os.path.exists(emit):
            got += [l.rstrip("\n") for l in open(emit)]
        for m in re.finditer(r'^"?CASE (.*?)"?$', out, re.M):
            t = m.group(1)
            got.append(json.loads('"' + t + '"') if t.startswith("{\\") else t)
        return tlc_stats(out), sorted(set(got))      # TLC's workers print in any order
    with ThreadPoolExecutor(3) as ex, open(cases_path, "a") as f:
        for step, ((g, d), got) in zip(steps, ex.map(run_design, range(len(steps)))):
            design["states"] += d
            design["transitions"] += max(g - d, 0)
            f.writelines(t + "\n" for t in got)
            log(f"design {step['module']} {step['cfg']} {step.get('env', {})}: {d} states, {len(got)} cases")
    ncases = sum(1 for _ in open(cases_path))

    total = ncases + plan[tier]
    step = max(1, (total + NPROC * 4 - 1) // (NPROC * 4))
    shards = [(lo, min(lo + step, total)) for lo in range(0, total, step)]

    def go(k):
        lo, hi = shards[k]
        return run_shard(prop, seed, tier, lo, hi, cases_path,
                         os.path.join(work, f"t{k}.nd"), os.path.join(work, f"p{k}.log"))
    with ThreadPoolExecutor(NPROC) as ex:
        for err in ex.map(go, range(len(shards))):
            if err:
                die(err)
    log(f"{ncases} cases and {plan[tier]} random histories run against the code")

    # validation in chunks
    chunk_size = plan.get("chunk", 4000)
    chunks, cur, n, ntr, nev, opcount, samples = [], None, 0, 0, 0, {}, []
    for k in range(len(shards)):
        p = os.path.join(work, f"t{k}.nd")
        if not os.path.exists(p):
            continue
        for l in open(p):
            if cur is None or n >= chunk_size:
                if cur:
                    cur.close()
                chunks.append(os.path.join(work, f"c{len(chunks)}.nd"))
                cur = open(chunks[-1], "w")
                n = 0
            cur.write(l)
            n += 1
            ntr += 1
            if ntr % 97 == 1 or ntr <= 200:
                d = json.loads(l)
                for ev in d["ev"]:
                    opcount[ev["op"]] = opcount.get(ev["op"], 0) + 1
                if len(samples) < 2 and len(l) < 1500 and any(ev["op"] not in ("init", "panic", "hang") for ev in d["ev"]):
                    samples.append(d)
    if cur:
        cur.close()
    if ntr == 0:
        die("no history was recorded")
    gen = dist = 0
    known, bad = [], None
    with ThreadPoolExecutor(3) as ex:
        for c, (g, d, kn, b) in zip(chunks, ex.map(lambda c: validate(prop, tier, c, c + ".d"), chunks)):
            gen += g
            dist += d
            known += kn
            if b and not bad:
                bad, badfile = b, c
    log(f"{ntr} histories validated, {dist} states")

    for d_i, d in enumerate(findings):
        if any(i == d_i for i, _ in known):
            print(f"KNOWN-FINDING: property={prop} {d['what']}")
    replay = None
    if bad:
        i, k, why = bad
        rec = None
        for l in open(badfile):
            d = json.loads(l)
            if d["id"] == i:
                rec = d
        os.makedirs(os.path.join(VERIF, "work", "replays"), exist_ok=True)
        replay = os.path.join(VERIF, "work", "replays", f"{prop}-{seed}-{i}.json")
        ops = scenario_ops(prop, seed, tier, i, cases_path)
        json.dump({"property": prop, "seed": seed, "tier": tier, "scenario": i, "event": k, "why": why,
                   "ops": ops, "recorded": rec}, open(replay, "w"))
        ev = rec["ev"][k - 1] if rec and 0 < k <= len(rec["ev"]) else None
        print(f"history {i}, event {k}: {why}")
        print("event:", json.dumps(ev)[:1500])

    cov = {
        "states": design["states"] + dist,
        "transitions": design["transitions"] + max(gen - ntr, 0),
        "traces_validated_against_impl": ntr,
        "cases_from_specification": ncases - nfind,
        "random_histories": ntr - ncases,
        "known_deviations_seen": len(known),
        "events_sampled_by_operation": opcount,
        "samples": samples,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": plan.get("assume", []), "wall_s": round(time.time() - T0, 1), "violations": 1 if bad else 0}
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not os.environ.get("KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    log("done")
    if bad:
        print(f"VIOLATION property={prop} replay={replay}")
        sys.stdout.flush()
        os._exit(1)


def replay(path):
    d = json.load(open(path))
    prop = d["property"]
    build()
    work = os.path.join(VERIF, "work", "replay")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    ops = os.path.join(work, "ops.json")
    json.dump(d["ops"], open(ops, "w"))
    out = os.path.join(work, "t.nd")
    r = subprocess.run([BIN, "replay", ops, out], preexec_fn=limits, timeout=120, stdout=subprocess.DEVNULL)
    if r.returncode != 0:
        print("the driver ended with", r.returncode)
        sys.exit(1)
    _, _, known, bad = validate(prop, "quick", out, work)
    print("known deviations:", known)
    if bad:
        rec = json.loads(open(out).readline())
        print("event", bad[1], bad[2])
        print(json.dumps(rec["ev"][bad[1] - 1])[:3000])
        sys.exit(1)
    print("the history conforms")


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    if sys.argv[1] == "replay":
        replay(sys.argv[2])
    else:
        main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
