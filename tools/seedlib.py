"""Writes seeded/<id>/ (patch.diff, demo.sh, demo files, meta.json) from definitions and validates them in a scratch copy."""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SW = "/tmp/sw"

DEMO_SH = r'''#!/bin/bash
# exit 0: the behaviour is as it should be. Run with the repository as the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
sed "s|@REPO@|$repo|g" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$tmp/target}" CARGO_INCREMENTAL=0
cd "$tmp" && cargo build --offline -q 2>"$tmp/log" || { tail -40 "$tmp/log"; exit 3; }
ulimit -v 8000000
timeout 60 "$CARGO_TARGET_DIR/debug/demo" > "$tmp/out" 2>&1
rc=$?
tail -15 "$tmp/out"
exit $rc
'''

CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2024"
publish = false

[workspace]

[dependencies]
cfg-symbol = { path = "@REPO@/cfg-symbol" }
cfg-grammar = { path = "@REPO@/cfg-grammar" }
cfg-history = { path = "@REPO@/cfg-history" }
cfg-sequence = { path = "@REPO@/cfg-sequence" }
cfg-classify = { path = "@REPO@/cfg-classify", features = ["ll", "lr"] }
cfg-predict-sets = { path = "@REPO@/cfg-predict-sets" }
cfg-predict-distance = { path = "@REPO@/cfg-predict-distance" }
cfg-symbol-bit-matrix = { path = "@REPO@/cfg-symbol-bit-matrix" }
cfg-generate = { path = "@REPO@/cfg-generate", features = ["weighted"] }
cfg-load = { path = "@REPO@/cfg-load" }
cfg-regexp-logic = { path = "@REPO@/cfg-regexp-logic" }
miniserde = "0.1"
'''

PRELUDE = '''#![allow(unused_imports, dead_code, unused_mut, unused_variables)]
use cfg_classify::{CfgClassifyExt, cyclical::Cycles};
use cfg_generate::weighted::{NegativeRule, Random, random::{ByteSource, GenRange, Limits, RandomGenError}};
use cfg_grammar::{Cfg, CfgRule, RhsPropertyMode, SymbolBitSet};
use cfg_history::{LinkedHistoryNode, RootHistoryNode, earley::History};
use cfg_load::{CfgLoadAdvancedExt, CfgLoadExt};
use cfg_predict_distance::{DistanceDirection, MinimalDistance};
use cfg_predict_sets::{CfgSetsExt, PredictSets};
use cfg_regexp_logic::{CfgRegexpExt, LexerMap};
use cfg_sequence::{CfgSequenceExt, Separator};
use cfg_symbol::{Symbol, SymbolSource, intern::Mapping};
use cfg_symbol_bit_matrix::{CfgRemapSymbolsExt, CfgSymbolBitMatrixExt, Remap};
use std::collections::{BTreeMap, BTreeSet};

/// A grammar of n symbols; rule k gets origin k + 1.
fn gr(n: usize, rules: &[(usize, &[usize])]) -> (Cfg, Vec<Symbol>) {
    let mut cfg = Cfg::new();
    let syms: Vec<Symbol> = (0..n).map(|_| cfg.next_sym(None)).collect();
    for (k, (l, r)) in rules.iter().enumerate() {
        let rhs: Vec<Symbol> = r.iter().map(|&x| syms[x]).collect();
        cfg.rule(syms[*l]).history(History::new(k as u32 + 1)).rhs(rhs);
    }
    (cfg, syms)
}
fn dump(cfg: &Cfg) -> Vec<(usize, Vec<usize>)> {
    cfg.rules().map(|r| (r.lhs.usize(), r.rhs.iter().map(|s| s.usize()).collect())).collect()
}
/// Strings of terminals of at most `max` symbols derivable from `s`.
fn lang(cfg: &Cfg, s: usize, max: usize) -> BTreeSet<Vec<usize>> {
    let rules = dump(cfg);
    let n = cfg.num_syms();
    let nts: BTreeSet<usize> = rules.iter().map(|r| r.0).collect();
    let mut l: Vec<BTreeSet<Vec<usize>>> =
        (0..n).map(|x| if nts.contains(&x) { BTreeSet::new() } else { [vec![x]].into() }).collect();
    loop {
        let mut changed = false;
        for (lhs, rhs) in &rules {
            let mut cur: BTreeSet<Vec<usize>> = [vec![]].into();
            for x in rhs {
                let mut next = BTreeSet::new();
                for a in &cur {
                    for b in &l[*x] {
                        if a.len() + b.len() <= max {
                            next.insert([&a[..], &b[..]].concat());
                        }
                    }
                }
                cur = next;
            }
            for w in cur {
                changed |= l[*lhs].insert(w);
            }
        }
        if !changed {
            return l[s].clone();
        }
    }
}

'''


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def prepare():
    if not os.path.isdir(SW):
        shutil.copytree(REPO, SW, symlinks=True)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=SW)


def write(seed):
    d = os.path.join(V, "seeded", seed["id"])
    prepare()
    for f, old, new in seed["edits"]:
        p = os.path.join(SW, f)
        t = open(p).read()
        c = t.count(old)
        want = seed.get("count", 1)
        if c < 1 or (c != want):
            sys.exit(f"{seed['id']}: {f}: text found {c} times: {old!r}")
        open(p, "w").write(t.replace(old, new))
    diff = sh("git diff", cwd=SW).stdout
    sh("git checkout -q -- .", cwd=SW)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "Cargo.toml.in"), "w").write(CARGO)
    body = seed["demo"]
    open(os.path.join(d, "main.rs"), "w").write(PRELUDE + ("fn main() {\n" + body.strip("\n") + "\n}\n"))
    json.dump({"property": seed["prop"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def validate(i):
    """Builds, tests and runs the demonstration with and without the change. Returns a list of complaints."""
    d = os.path.join(V, "seeded", i)
    prepare()
    env = {"DEMO_TARGET_DIR": SW + "/demo-target"}
    bad = []
    r = sh(f"bash {d}/demo.sh", cwd=SW, env=env)
    if r.returncode != 0:
        bad.append(f"demo on the clean tree: {r.returncode}\n{r.stdout}")
        return bad
    r = sh(f"git apply {d}/patch.diff", cwd=SW)
    if r.returncode:
        return ["does not apply: " + r.stdout]
    r = sh(f". /opt/vp/env.sh; export CARGO_TARGET_DIR={SW}/target; cargo test --workspace --all-features --offline 2>&1", cwd=SW)
    if r.returncode:
        bad.append("tests: " + "\n".join(l for l in r.stdout.splitlines() if "FAILED" in l or "error" in l or "panicked" in l)[:1500])
    r = sh(f"bash {d}/demo.sh", cwd=SW, env=env)
    if r.returncode in (0, 3):
        bad.append(f"demo on the changed tree: {r.returncode}\n{r.stdout}")
    sh("git checkout -q -- .", cwd=SW)
    return bad


def check(i, prop=None, tier="quick"):
    """Runs the property's check against /repo with the change applied."""
    d = os.path.join(V, "seeded", i)
    prop = prop or json.load(open(os.path.join(d, "meta.json")))["property"]
    if sh("git status --porcelain -uno", cwd=REPO).stdout.strip():
        sys.exit("/repo is not clean")
    r = sh(f"git apply {d}/patch.diff", cwd=REPO)
    if r.returncode:
        return None, r.stdout
    try:
        r = sh(f"python3 check.py {prop} {tier}", cwd=V, timeout=3000)
    finally:
        sh("git checkout -q -- .", cwd=REPO)
    return r.returncode, r.stdout
