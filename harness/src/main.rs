mod exec;
mod exec2;
mod gram;
mod json;
mod props;
mod props2;
mod rng;

use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

use cfg_grammar::Cfg;
use exec::{Sess, snap, step};
use json::J;

static PROGRESS: AtomicU64 = AtomicU64::new(0);

/// Runs one scenario (a list of operations) against the real code; the recorded history.
fn run_ops(ops: &[J], prog: &mut std::fs::File) -> Vec<J> {
    let mut s = Sess { cfg: Cfg::new(), names: false };
    let mut s2 = Sess { cfg: Cfg::new(), names: false };
    let mut evs = vec![];
    for op in ops {
        writeln!(prog, "op {}", op.op()).unwrap();
        let op = &guard(&s, op);
        if op.op() == "fork" {
            // the second session goes on with a copy of the first one's grammar
            s2 = Sess { cfg: s.cfg.clone(), names: s.names };
            evs.push(op.clone().with("post", snap(&s.cfg, s.names)).with("post2", snap(&s2.cfg, s2.names)));
            continue;
        }
        let r = catch_unwind(AssertUnwindSafe(|| {
            let (res, changed) = step(&mut s, op);
            let post = if changed { Some(snap(&s.cfg, s.names)) } else { None };
            (res, post)
        }));
        PROGRESS.fetch_add(1, Ordering::SeqCst);
        // once more, in a second session that has had the same history
        let again = op.get("twice").map(|_| {
            catch_unwind(AssertUnwindSafe(|| {
                let (res, changed) = step(&mut s2, op);
                let post = if changed { Some(snap(&s2.cfg, s2.names)) } else { None };
                (res, post)
            }))
        });
        match r {
            Ok((res, post)) => {
                let mut ev = op.clone();
                match again {
                    None => {}
                    Some(Ok((res2, post2))) => {
                        if let Some(r) = res2 {
                            ev = ev.with("res2", r);
                        }
                        if let Some(p) = post2 {
                            ev = ev.with("post2", p);
                        }
                    }
                    Some(Err(_)) => ev = ev.with("res2", "panic"),
                }
                if let Some(r) = res {
                    ev = ev.with("res", r);
                }
                if let Some(p) = post {
                    ev = ev.with("post", p);
                }
                evs.push(ev);
            }
            Err(e) => {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                if msg.starts_with("HARNESS") {
                    eprintln!("{msg}");
                    std::process::exit(4);
                }
                if let Some(Ok(_)) = again {
                    evs.push(op.clone().with("res", "panic"));
                    break;
                }
                let msg: String = msg.chars().take(200).collect();
                evs.push(
                    J::obj()
                        .with("op", "panic")
                        .with("of", op.op())
                        .with("args", op.clone())
                        .with("msg", msg),
                );
                break;
            }
        }
    }
    evs
}

/// Unused symbols are only removed from grammars with rules whose roots are in use.
fn guard(s: &Sess, op: &J) -> J {
    if op.op() != "remap" || op.get("guard").is_none() {
        return op.clone();
    }
    let mut used = std::collections::BTreeSet::new();
    for r in s.cfg.rules() {
        used.insert(r.lhs);
        used.extend(r.rhs.iter().copied());
    }
    let ok = !used.is_empty()
        && s.cfg.roots().iter().all(|x| used.contains(x))
        && s.cfg.wrapped_roots().iter().all(|w| {
            [w.root, w.start_of_input, w.inner_root, w.end_of_input].iter().all(|x| used.contains(x))
        });
    let steps: Vec<J> =
        op.at("steps").arr().iter().filter(|st| ok || st.at("t").str() != "unused").cloned().collect();
    let op2 = J::obj().with("op", "remap").with("steps", J::A(steps));
    if op.get("twice").is_some() { op2.with("twice", 1) } else { op2 }
}

/// cfg-conform run PROP SEED TIER FROM TO CASES|- OUT PROGRESS
/// cfg-conform replay OPSFILE OUT
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        "run" => {
            let prop = &a[2];
            let seed: u64 = a[3].parse().unwrap();
            let thorough = a[4] == "thorough";
            let from: usize = a[5].parse().unwrap();
            let to: usize = a[6].parse().unwrap();
            let cases: Vec<J> = if a[7] == "-" {
                vec![]
            } else {
                std::fs::read_to_string(&a[7])
                    .unwrap()
                    .lines()
                    .map(J::parse)
                    .collect()
            };
            let mut out = std::fs::OpenOptions::new()
                .append(true)
                .create(true)
                .open(&a[8])
                .unwrap();
            let mut prog = std::fs::OpenOptions::new()
                .append(true)
                .create(true)
                .open(&a[9])
                .unwrap();
            std::thread::spawn(|| {
                let mut last = u64::MAX;
                loop {
                    std::thread::sleep(Duration::from_secs(20));
                    let now = PROGRESS.load(Ordering::SeqCst);
                    if now == last {
                        std::process::exit(3);
                    }
                    last = now;
                }
            });
            for i in from..to {
                PROGRESS.fetch_add(1, Ordering::SeqCst);
                let ops = props::scenario(prop, seed, i, &cases, thorough);
                if ops.is_empty() {
                    continue;
                }
                writeln!(prog, "scn {i}").unwrap();
                let evs = run_ops(&ops, &mut prog);
                let line = J::obj().with("id", i).with("ev", J::A(evs));
                writeln!(out, "{}", line.text()).unwrap();
            }
        }
        "ops" => {
            // print the operations of one scenario: PROP SEED TIER I CASES
            let cases: Vec<J> = if a[6] == "-" {
                vec![]
            } else {
                std::fs::read_to_string(&a[6]).unwrap().lines().map(J::parse).collect()
            };
            let ops = props::scenario(&a[2], a[3].parse().unwrap(), a[5].parse().unwrap(), &cases, a[4] == "thorough");
            println!("{}", J::A(ops).text());
        }
        "replay" => {
            let ops = J::parse(&std::fs::read_to_string(&a[2]).unwrap());
            let mut out = std::fs::File::create(&a[3]).unwrap();
            let mut prog = std::fs::File::create("/dev/null").unwrap();
            let evs = run_ops(ops.arr(), &mut prog);
            writeln!(out, "{}", J::obj().with("id", 0).with("ev", J::A(evs)).text()).unwrap();
        }
        _ => panic!("usage"),
    }
}
