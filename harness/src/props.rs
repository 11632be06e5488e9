//! Scenarios (operation histories) per property.
use crate::gram::{self, G, Opt};
use crate::json::J;
use crate::rng::Rg;

pub fn op(name: &str) -> J {
    J::obj().with("op", name)
}

fn rnd_rule(rg: &mut Rg, g: &G, maxlen: usize, o: usize) -> J {
    let k = rg.r(0, maxlen);
    let r: Vec<usize> = (0..k)
        .map(|_| if rg.p(50) { *rg.pick(&g.nts) } else { *rg.pick(&g.ts) })
        .collect();
    J::obj().with("l", *rg.pick(&g.nts)).with("r", r).with("o", o)
}

fn limit(rg: &mut Rg) -> J {
    op("limit").with("k", *rg.pick(&[2, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8, 16, -1, -1]))
}

/// Operations that change the session before the one under test. `any`: also those that change or
/// reorder rules already there.
fn mutate(rg: &mut Rg, g: &G, v: &mut Vec<J>, any: bool) {
    let mut wraps = 0;
    for k in 0..rg.r(1, 3) {
        let base = 2000 + 20 * k;
        match rg.r(0, if any { 15 } else { 5 }) {
            0 if wraps < 1 => {
                wraps += 1;
                v.push(op("wrap"))
            }
            0 | 1 => {
                let k = rg.r(1, 2);
                let r: Vec<usize> = (0..k).map(|_| *rg.pick(&g.nts)).collect();
                v.push(op("roots").with("v", r));
            }
            2 => {
                let e: Vec<J> = (0..rg.r(0, 2)).map(|j| rnd_rule(rg, g, 4, base + j)).collect();
                v.push(op("extend").with("rules", J::A(e)));
            }
            3 => {
                let how = *rg.pick(&["b", "p", "a", "h"]);
                v.push(rnd_rule(rg, g, 4, base).with("op", "rule").with("how", how));
            }
            4 => v.push(op("sym").with("how", "next").with("names", vec!["~"; rg.r(1, 3)])),
            5 => v.push(op("clone")),
            6 => v.push(limit(rg)),
            7 | 8 => v.push(op("elim")),
            9 => v.push(op("cycrw")),
            10 => v.push(op("proper")),
            11 => v.push(remap_op(rg, false)),
            12 => v.push(op("reverse")),
            13 => {
                v.push(op("sort"));
                v.push(op("dedup"));
            }
            14 => v.push(op("retain").with("m", rg.r(3, 6)).with("k", rg.r(0, 5))),
            _ => v.push(op("cycrm")),
        }
    }
}

/// The grammar of scenario i: an enumerated one while they last, then a random one.
fn gr(rg: &mut Rg, i: usize, cases: &[J], o: &Opt) -> G {
    if i < cases.len() {
        let mut g = gram::from_case(&cases[i]);
        g.weights = o.weights;
        g.names = o.names;
        if !o.roots {
            g.roots = vec![];
        }
        g
    } else if o.example {
        gram::example(rg, o, i > cases.len())
    } else {
        gram::random(rg, o)
    }
}

pub fn scenario(prop: &str, seed: u64, i: usize, cases: &[J], thorough: bool) -> Vec<J> {
    let pn: u64 = prop[1..].parse().unwrap_or(0);
    let mut rg = Rg::new(seed, (i as u64) * 64 + pn);
    let rg = &mut rg;
    let case = i < cases.len();
    let mut std = Opt::std();
    if thorough {
        std.max_rules = 18;
    }
    let large = ["C03", "C04", "C10", "C18", "C31", "C34", "C05", "C06", "C09", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C20", "C21", "C22", "C29", "C32", "C35"];
    std.example = !case && i < cases.len() + if thorough { 24 } else { 4 } && large.contains(&prop);
    // the history of any property, in two sessions at once
    if prop == "C34" {
        let v = if case {
            cases[i].at("ops").arr().to_vec()
        } else {
            scenario(&format!("C{:02}", if i % 34 == 33 { 35 } else { i % 34 + 1 }), seed, i + 7_000_000, &[], thorough)
        };
        let grammar = v.first().map_or(false, |o| o.op() == "init");
        let rootless = !case && rg.p(12);
        let mut out = vec![];
        for (k, o) in v.into_iter().enumerate() {
            if grammar && k > 0 && rg.p(20) {
                out.push(op("fork").with("twice", 1));
            }
            let o = if k == 0 && grammar && rootless { o.with("roots", Vec::<J>::new()) } else { o };
            out.push(o.with("twice", 1));
        }
        return out;
    }
    // an enumerated history of operations
    if case && cases[i].get("ops").is_some() {
        return cases[i].at("ops").arr().to_vec();
    }
    match prop {
        "C01" => c01(rg),
        "C02" => c02(rg),
        "C32" => {
            std.names = true;
            let g = gr(rg, i, cases, &std);
            let mut init = g.init(rg);
            match rg.r(0, 9) {
                0 => init = init.with("names", vec!["~"; g.n]),
                1 => {
                    let mut names = vec!["~"; g.n];
                    names[rg.r(0, g.n - 1)] = "x";
                    init = init.with("names", names);
                }
                2 => init = init.with("names", (0..g.n).map(|_| *rg.pick(&["a", "b1", "~"])).collect::<Vec<_>>()),
                _ => {}
            }
            let mut v = vec![init];
            for _ in 0..rg.r(1, 2) {
                if rg.p(50) {
                    mutate(rg, &g, &mut v, true);
                }
                v.push(op("bnf"));
                let pool = ["a", "b1", "~", "x"];
                let names: Vec<J> = (0..rg.r(0, 4))
                    .map(|_| J::A((0..rg.r(1, 4)).map(|_| J::S(rg.pick(&pool).to_string())).collect()))
                    .collect();
                v.push(op("rulenames").with("names", J::A(names)));
            }
            v
        }
        "C03" => {
            let g = gr(rg, i, cases, &std);
            let mut v = vec![g.init(rg)];
            for k in 0..rg.r(1, 3) {
                v.push(limit(rg));
                if rg.p(30) {
                    let l = v.last().unwrap().clone();
                    v.push(l);
                }
                for j in 0..rg.r(0, 2) {
                    let base = 500 + k * 40 + j * 10;
                    match rg.r(0, 5) {
                        0 => {
                            let e: Vec<J> = (0..rg.r(1, 3)).map(|j| rnd_rule(rg, &g, 7, base + j)).collect();
                            v.push(op("extend").with("rules", J::A(e)));
                        }
                        1 => {
                            let a: Vec<J> = (0..rg.r(1, 3))
                                .map(|j| J::obj().with("r", rnd_rule(rg, &g, 7, 0).at("r").clone()).with("o", base + j))
                                .collect();
                            v.push(op("rules").with("l", *rg.pick(&g.nts)).with("alts", J::A(a)));
                        }
                        _ => {
                            let how = *rg.pick(&["b", "p", "a", "h"]);
                            let len = if rg.p(10) { 40 } else { 9 };
                            v.push(rnd_rule(rg, &g, len, base).with("op", "rule").with("how", how));
                        }
                    }
                }
                if rg.p(15) {
                    mutate(rg, &g, &mut v, true);
                }
            }
            if rg.p(10) {
                // rules that come from the sequence and precedence builders
                let (l, x) = (*rg.pick(&g.nts), *rg.pick(&g.ts));
                if rg.p(50) {
                    v.push(
                        op("seq").with("l", l).with("x", x).with("sep", *rg.pick(&g.ts)).with("mode", *rg.pick(&["null", "proper", "trailing", "liberal"]))
                            .with("s", rg.r(0, 5)).with("e", rg.r(5, 9)).with("form", "incl"),
                    );
                } else {
                    let r: Vec<usize> = (0..rg.r(1, 7)).map(|_| if rg.p(50) { l } else { x }).collect();
                    v.push(op("prec").with("l", l).with("prog", J::A(vec![J::A(vec!["rhs".into(), J::from(r), 400.into()])])));
                }
            }
            v
        }
        "C04" | "C05" => {
            let mut o = std.clone();
            o.names = prop == "C05";
            let g = gr(rg, i, cases, &o);
            let mut v = vec![g.init(rg)];
            if rg.p(30) {
                v.push(limit(rg));
            }
            if rg.p(15) {
                v.push(op("wrap"));
            }
            if rg.p(20) {
                mutate(rg, &g, &mut v, true);
            }
            v.push(op("elim"));
            if rg.p(25) {
                if rg.p(50) {
                    v.push(rnd_rule(rg, &g, 3, 900).with("op", "rule").with("how", "b"));
                }
                if rg.p(50) {
                    let e: Vec<J> = (0..rg.r(1, 4)).map(|j| rnd_rule(rg, &g, 4, 910 + j)).collect();
                    v.push(op("extend").with("rules", J::A(e)));
                }
                v.push(op("elim"));
            }
            v
        }
        "C06" => {
            let mut o = std.clone();
            o.weights = true;
            let g = gr(rg, i, cases, &o);
            let mut v = vec![g.init(rg)];
            for k in 0..rg.r(2, 5) {
                match rg.r(0, 9) {
                    0 => v.push(limit(rg)),
                    1 | 2 | 3 => {
                        v.push(op("limit").with("k", 2));
                        v.push(op("elim"));
                    }
                    4 => v.push(op("cycrw")),
                    5 => v.push(remap_op(rg, false)),
                    6 => v.push(op("reverse")),
                    7 => v.push(op("sort")),
                    _ => {
                        let how = *rg.pick(&["b", "p", "a", "h", "l"]);
                        let mut r = rnd_rule(rg, &g, 5, 700 + k).with("op", "rule").with("how", how);
                        if how != "p" && how != "l" && rg.p(25) {
                            r = r.with("u", vec![*rg.pick(&g.nts), rg.r(0, 1)]);
                        }
                        if how != "p" && (how == "l" || rg.p(60)) {
                            let w = *rg.pick(&[0, 1, 3, 10, 57, 570, 999, 1000, 1001, 1337, 65535, 65536, 290000, 2_000_000, 16_777_217, 1_000_000_000]);
                            r = r.with("w", w);
                        }
                        v.push(r);
                    }
                }
            }
            v
        }
        "C35" => {
            let dots = |rg: &mut Rg, o: usize| {
                J::A((0..3)
                    .map(|k| {
                        let d = if rg.p(20) { -1 } else { rg.r(0, 9) as i64 };
                        J::A(vec![J::I((o * 10 + k) as i64), J::I(rg.r(0, 6) as i64), J::I(rg.r(0, 3) as i64), J::I(d)])
                    })
                    .collect())
            };
            let mut o = std.clone();
            o.weights = true;
            let g = gr(rg, i, cases, &o);
            let init = g.init(rg).with("dots", 1);
            let rules: Vec<J> = init
                .at("rules")
                .arr()
                .iter()
                .map(|r| if rg.p(70) { r.clone().with("d", dots(rg, r.at("o").us())) } else { r.clone() })
                .collect();
            let mut v = vec![init.with("rules", J::A(rules))];
            for k in 0..rg.r(2, 5) {
                let base = 700 + 20 * k;
                match rg.r(0, 9) {
                    0 => v.push(limit(rg)),
                    1 => v.push(op("limit").with("k", 2)),
                    2 => {
                        v.push(op("limit").with("k", 2));
                        v.push(op("elim"));
                    }
                    3 | 4 => {
                        let how = *rg.pick(&["b", "a", "h"]);
                        let len = if rg.p(15) { 30 } else { 7 };
                        let mut r = rnd_rule(rg, &g, len, base).with("op", "rule").with("how", how).with("d", dots(rg, base));
                        if rg.p(30) {
                            r = r.with("w", rg.r(0, 5000));
                        }
                        v.push(r);
                    }
                    5 | 6 => {
                        let l = *rg.pick(&g.nts);
                        let s = rg.r(0, 9);
                        let mode = *rg.pick(&["null", "proper", "trailing", "liberal"]);
                        let form = *rg.pick(&["inc", "range", "rangei", "hist", "direct"]);
                        let e = if rg.p(30) { -1 } else { (s + rg.r(0, 12)) as i64 };
                        v.push(
                            op("seq").with("l", l).with("x", g.sym(rg)).with("sep", g.sym(rg)).with("mode", mode).with("s", s).with("e", e)
                                .with("form", form).with("o", base + 1).with("d", dots(rg, base + 1)),
                        );
                    }
                    7 if rg.p(50) => {
                        let top = rg.r(0, 1);
                        let len = if top == 1 { rg.r(0, 9) } else { rg.r(3, 12) };
                        let h = if top == 1 { len.saturating_sub(2) } else { rg.r(0, len - 3) };
                        v.push(op("binhist").with("o", base + 2).with("w", rg.r(0, 5000)).with("len", len).with("h", h).with("top", top));
                    }
                    _ => match rg.r(0, 8) {
                        0 => v.push(op("cycrw")),
                        1 => v.push(op("cycrm")),
                        2 => v.push(op("proper")),
                        3 => v.push(remap_op(rg, false)),
                        4 => v.push(op("reverse")),
                        5 => v.push(op("sort")),
                        6 => v.push(op("dedup")),
                        7 => v.push(op("sortby").with("key", *rg.pick(&["len", "lenrev", "lhs"]))),
                        _ => v.push(op("clone")),
                    },
                }
                if rg.p(40) {
                    v.push(op("coldots").with("k", rg.r(0, 5)));
                }
            }
            v
        }
        "C07" => c07(rg),
        "C08" => c08(rg),
        "C09" | "C10" => {
            let mut g = gr(rg, i, cases, &std);
            if g.rules.len() < 15 && rg.p(15) {
                gram::lengthen(rg, &mut g);
            }
            let mut v = vec![g.init(rg)];
            if rg.p(25) {
                mutate(rg, &g, &mut v, true);
            }
            if prop == "C09" {
                v.push(op("cyc"));
                if rg.p(30) {
                    let mut c = op(*rg.pick(&["cycrw", "cycrm"]));
                    if rg.p(50) {
                        c = c.with("q", 1);
                    }
                    v.push(c);
                    v.push(op("cyc"));
                }
                if rg.p(20) {
                    v.push(op("limit").with("k", 2));
                    v.push(op("cyc"));
                }
            } else {
                if rg.p(20) {
                    v.push(op("wrap"));
                }
                if rg.p(15) {
                    v.push(op("limit").with("k", 2));
                }
                let mut c = op(*rg.pick(&["cycrw", "cycrw", "cycrm"]));
                if rg.p(30) {
                    c = c.with("q", 1);
                }
                v.push(c);
                if rg.p(30) {
                    v.push(op("cycrw"));
                }
            }
            v
        }
        "C11" | "C12" => {
            let mut o = std.clone();
            o.roots = prop == "C12" || rg.p(70);
            let g = gr(rg, i, cases, &o);
            let mut v = vec![g.init(rg)];
            if rg.p(20) && o.roots {
                v.push(op("wrap"));
            }
            if rg.p(25) && o.roots {
                mutate(rg, &g, &mut v, true);
            }
            let name = if prop == "C11" { "useful" } else { "rmuseless" };
            if prop == "C12" && rg.p(60) {
                v.push(op("proper"));
                if rg.p(30) {
                    v.push(op("proper"));
                }
            } else {
                let mut c = op(name);
                if rg.p(50) || !o.roots {
                    let k = if rg.p(90) { rg.r(0, 2) } else { rg.r(3, 7) };
                    let r: Vec<usize> = (0..k)
                        .map(|_| if rg.p(80) { *rg.pick(&g.nts) } else { g.sym(rg) })
                        .collect();
                    c = c.with("roots", r);
                }
                if rg.p(30) {
                    if rg.p(50) {
                        // starting from no symbol or from one
                        let r: Vec<usize> = if rg.p(50) { vec![] } else { vec![*rg.pick(&g.nts)] };
                        c = c.with("roots", r);
                    }
                    let more: Vec<J> = (0..rg.r(1, 3))
                        .map(|_| J::from((0..rg.r(0, 3)).map(|_| if rg.p(80) { *rg.pick(&g.nts) } else { g.sym(rg) }).collect::<Vec<usize>>()))
                        .collect();
                    c = c.with("more", J::A(more));
                }
                v.push(c);
            }
            v
        }
        "C13" => c13(rg, i, cases, &std),
        "C14" => {
            let mut o = std.clone();
            o.names = true;
            let mut g = gr(rg, i, cases, &o);
            let used = g.used();
            g.roots.retain(|r| used.contains(r));
            let mut v = vec![g.init(rg)];
            if rg.p(30) && !g.roots.is_empty() {
                v.push(op("wrap"));
            }
            if rg.p(25) {
                mutate(rg, &g, &mut v, true);
            }
            v.push(remap_op(rg, true));
            if rg.p(20) {
                v.push(op("sym").with("how", "next").with("names", vec!["fresh"]));
                v.push(remap_op(rg, true));
            }
            v
        }
        "C15" => {
            let g = gr(rg, i, cases, &std);
            let strs: Vec<J> = (0..6)
                .map(|_| {
                    let k = if rg.p(85) { rg.r(0, 4) } else { rg.r(5, 20) };
                    J::from(
                        (0..k)
                            .map(|_| if rg.p(75) { *rg.pick(&g.nts) } else { *rg.pick(&g.ts) })
                            .collect::<Vec<_>>(),
                    )
                })
                .collect();
            let mut v = vec![g.init(rg)];
            if rg.p(20) {
                mutate(rg, &g, &mut v, true);
            }
            v.push(op("first").with("strs", J::A(strs)));
            v
        }
        "C16" => {
            let g = gr(rg, i, cases, &std);
            let mut v = vec![g.init(rg)];
            if rg.p(20) {
                mutate(rg, &g, &mut v, true);
            }
            v.push(op("follow"));
            v
        }
        "C17" => {
            let g = gr(rg, i, cases, &std);
            let mut c = op("ll");
            if rg.p(50) {
                c = c.with("ext", 1);
            }
            let mut v = vec![g.init(rg)];
            if rg.p(20) {
                mutate(rg, &g, &mut v, true);
            }
            v.push(c);
            v
        }
        "C18" => {
            let g = gr(rg, i, cases, &std);
            let mut v = vec![g.init(rg)];
            if rg.p(20) {
                mutate(rg, &g, &mut v, false);
            }
            for _ in 0..rg.r(0, 3) {
                let k = if rg.p(85) { rg.r(0, 3) } else { rg.r(4, 9) }.min(g.rules.len());
                let p = rg.perm(g.rules.len());
                let items: Vec<J> = p[..k]
                    .iter()
                    .map(|&x| J::from(vec![x, rg.r(0, g.rules[x].1.len())]))
                    .collect();
                if rg.p(50) {
                    let c = op("lrclos").with("items", J::A(items));
                    v.push(if rg.p(30) { c.with("ext", 1) } else { c });
                } else {
                    let x = *rg.pick(&g.used());
                    v.push(op("lradv").with("items", J::A(items)).with("x", x));
                }
            }
            // one builder may make several automata
            let starts: Vec<usize> = (0..if rg.p(25) { 2 } else { 1 }).map(|_| *rg.pick(&g.nts)).collect();
            let c = op("lrfsm").with("s", starts);
            v.push(if rg.p(30) { c.with("ext", 1) } else { c });
            v
        }
        "C19" => {
            let g = gr(rg, i, cases, &std);
            let mut v = vec![g.init(rg)];
            if rg.p(20) {
                mutate(rg, &g, &mut v, true);
            }
            v.push(op("rec").with("d", 1));
            v
        }
        "C20" => c20(rg, i, cases, &std),
        "C21" => {
            let g = gr(rg, i, cases, &std);
            let mut v = vec![g.init(rg)];
            if rg.p(20) {
                mutate(rg, &g, &mut v, false);
            }
            for _ in 0..2 {
                let k = if rg.p(80) { rg.r(0, 3) } else { rg.r(4, 9) };
                let dots: Vec<J> = (0..k)
                    .map(|_| {
                        let x = rg.r(0, g.rules.len() - 1);
                        J::from(vec![x, rg.r(0, g.rules[x].1.len())])
                    })
                    .collect();
                v.push(op("dist").with("dots", J::A(dots)).with("dir", *rg.pick(&["f", "b", "s"])));
            }
            v
        }
        "C22" => {
            let g = gr(rg, i, cases, &std);
            let mut v = vec![g.init(rg)];
            let used = g.used();
            if rg.p(20) {
                mutate(rg, &g, &mut v, true);
            }
            for _ in 0..3 {
                let k = if rg.p(90) { rg.r(0, 3) } else { rg.r(4, 12) };
                let mut set: Vec<usize> = (0..k).map(|_| *rg.pick(&used)).collect();
                if rg.p(25) {
                    // all terminals
                    set.extend(g.ts.iter().copied());
                }
                v.push(op("clos").with("set", set).with("mode", *rg.pick(&["all", "any", "All", "Any"])));
                let pc = rg.r(10, 90);
                // no sum may leave the range of the values
                let most = (0..g.n).fold(1.0f64, |a, x| {
                    a * g.rules.iter().filter(|r| r.0 == x).map(|r| r.1.len().max(1)).max().unwrap_or(1) as f64
                });
                let small = if most * 70000.0 < 9e8 { 90 } else { 100 };
                let vals: Vec<J> = (0..g.n)
                    .map(|_| if rg.p(pc) { J::I(if rg.p(small) { rg.r(0, 9) } else { *rg.pick(&[10, 100, 255, 256, 300, 1000, 70000]) } as i64) } else { J::I(-1) })
                    .collect();
                v.push(op("vals").with("vals", J::A(vals)));
            }
            v
        }
        "C29" => {
            let mut o = std.clone();
            o.names = true;
            let g = gr(rg, i, cases, &o);
            let mut v = vec![g.init(rg)];
            if rg.p(40) {
                v.push(limit(rg));
            }
            if rg.p(20) {
                mutate(rg, &g, &mut v, true);
            }
            if rg.p(10) {
                v.push(op("roots").with("v", Vec::<usize>::new()));
            } else if rg.p(10) {
                // any symbols as roots, terminals and repetitions included
                let r: Vec<usize> = (0..rg.r(1, 6)).map(|_| g.sym(rg)).collect();
                v.push(op("roots").with("v", r));
            }
            v.push(op("wrap"));
            if rg.p(15) {
                mutate(rg, &g, &mut v, true);
                v.push(op("wrap"));
            }
            if rg.p(20) {
                v.push(op("wrap"));
            }
            v
        }
        "C31" => {
            let mut o = std.clone();
            o.max_t = 2;
            o.pad = false;
            let g = gr(rg, i, cases, &o);
            let mut v = vec![g.init(rg)];
            let mut wrapped = 0;
            let mut shrunk = false;
            for k in 0..rg.r(2, if thorough { 8 } else { 5 }) {
                match rg.r(0, 12) {
                    10 if !shrunk => {
                        let e: Vec<J> = (0..rg.r(1, 3)).map(|j| rnd_rule(rg, &g, 4, 3000 + 10 * k + j)).collect();
                        v.push(op("extend").with("rules", J::A(e)));
                    }
                    11 if !shrunk => {
                        let r: Vec<usize> = (0..rg.r(1, 2)).map(|_| *rg.pick(&g.nts)).collect();
                        v.push(op("roots").with("v", r));
                    }
                    0 => v.push(limit(rg)),
                    1 if wrapped < 1 => {
                        wrapped += 1;
                        v.push(op("wrap"))
                    }
                    2 | 3 => v.push(op("elim")),
                    4 | 5 => v.push(op("cycrw")),
                    6 => v.push(op("proper")),
                    7 => v.push(remap_op(rg, false)),
                    8 => {
                        shrunk = true;
                        v.push(remap_op(rg, true))
                    }
                    9 => v.push(op("reverse")),
                    _ => {
                        v.push(op("sort"));
                        v.push(op("dedup"));
                    }
                }
            }
            v
        }
        _ => crate::props2::scenario2(prop, rg, i, cases, thorough),
    }
}

fn step_reorder(rg: &mut Rg) -> J {
    J::obj()
        .with("t", "reorder")
        .with("a", rg.r(0, 40))
        .with("b", rg.r(0, 40))
        .with("m", *rg.pick(&[1, 2, 3, 5, 7, 11, 13, 37, 101]))
}

/// a remapping session; `unused`: with removal of unused symbols
fn remap_op(rg: &mut Rg, unused: bool) -> J {
    let mut st = vec![];
    for _ in 0..rg.r(0, 2) {
        st.push(step_reorder(rg));
    }
    if unused {
        st.push(J::obj().with("t", "unused"));
        for _ in 0..rg.r(0, 1) {
            st.push(step_reorder(rg));
        }
        if rg.p(20) {
            st.push(J::obj().with("t", "unused"));
        }
    } else if st.is_empty() {
        st.push(step_reorder(rg));
    }
    let o = op("remap").with("steps", J::A(st));
    if unused { o.with("guard", 1) } else { o }
}

fn c01(rg: &mut Rg) -> Vec<J> {
    let n = rg.r(0, 4);
    let mut v = vec![
        op("init").with("n", n).with("rules", J::A(vec![])).with("names", gram::names(rg, n)),
    ];
    let mut count = n;
    for _ in 0..rg.r(2, 10) {
        match rg.r(0, 9) {
            0 if count > 0 => {
                let k = rg.r(1, count);
                count = k;
                v.push(op("truncate").with("k", k));
            }
            1 | 2 => v.push(op("names")),
            3 => v.push(op("clone")),
            _ => {
                let how = *rg.pick(&["next", "src", "lexeme", "sym", "ssym", "gen", "named"]);
                let k = match how {
                    "sym" | "ssym" => *rg.pick(&[1, 2, 3, 7]),
                    "named" => rg.r(1, 3),
                    "gen" => *rg.pick(&[0, 1, 2, 3, 5, 30, 64, 130, 260]),
                    _ => rg.r(1, 3),
                };
                let names = match how {
                    "sym" | "ssym" | "gen" => J::A((0..k).map(|_| J::from("~")).collect()),
                    _ => gram::names(rg, k),
                };
                count += k;
                v.push(op("sym").with("how", how).with("names", names));
            }
        }
    }
    v.push(op("names"));
    if rg.p(30) {
        let ty = *rg.pick(&["u8", "u16", "u32"]);
        let a = rg.r(1, 250);
        let t = rg.r(1, a);
        let b = rg.r(0, 250 - t);
        v.push(op("narrow").with("ty", ty).with("a", a).with("t", t).with("b", b));
    }
    v
}

fn c02(rg: &mut Rg) -> Vec<J> {
    let mut o = Opt::std();
    o.weights = true;
    o.names = true;
    o.pad = rg.p(20);
    let g = gram::random(rg, &o);
    let mut v = vec![g.init(rg)];
    let extra_rules = |rg: &mut Rg, base: usize| -> J {
        J::A((0..rg.r(0, 3)).map(|k| rnd_rule(rg, &g, 4, base + k)).collect())
    };
    for k in 0..rg.r(3, 9) {
        let base = 1000 + k * 20;
        match rg.r(0, 18) {
            16 => v.push(if rg.p(50) { op("elim") } else { limit(rg) }),
            0 => {
                let how = *rg.pick(&["b", "p", "a", "h"]);
                v.push(rnd_rule(rg, &g, 5, base).with("op", "rule").with("how", how));
            }
            1 => {
                let mut alts = vec![];
                for j in 0..rg.r(1, 4) {
                    let r = rnd_rule(rg, &g, 4, base + j);
                    let mut a = J::obj().with("r", r.at("r").clone());
                    if rg.p(50) {
                        a = a.with("o", base + j);
                    }
                    if rg.p(20) {
                        a = a.with("nl", r.at("l").clone());
                        if rg.p(40) {
                            a = a.with("lost", 7777);
                        }
                    }
                    alts.push(a);
                }
                v.push(op("rules").with("l", *rg.pick(&g.nts)).with("alts", J::A(alts)));
            }
            2 => {
                let e = extra_rules(rg, base);
                v.push(op("extend").with("rules", e));
            }
            3 => {
                if rg.p(30) {
                    v.push(op("clear"));
                }
            }
            4 => v.push(op("retain").with("m", rg.r(2, 5)).with("k", rg.r(0, 4))),
            5 => v.push(op("sort")),
            6 => v.push(op("sortby").with("key", *rg.pick(&["len", "lenrev", "lhs"]))),
            7 | 8 => v.push(op("dedup")),
            9 => v.push(op("reverse")),
            10 => v.push(op("clone")),
            11 => v.push(op("roots").with("v", (0..rg.r(0, 3)).map(|_| g.sym(rg)).collect::<Vec<_>>())),
            12 => v.push(op("wrap")),
            13 => v.push(op("empty")),
            14 => {
                // a copy, possibly changed in one place, to compare with
                v.push(op("equivcopy").with("mut", *rg.pick(&["none", "none", "drop", "add", "sym", "short", "long", "lhs", "droplast", "hist", "swap"])).with("at", rg.r(0, 20)).with("x", g.sym(rg)));
            }
            _ => v.push(op("column").with("k", rg.r(0, 6))),
        }
    }
    v.push(op("empty"));
    if rg.p(12) {
        // nothing but wrapped roots
        if rg.p(70) {
            v.push(op("clear"));
        }
        v.push(op("roots").with("v", g.nts.iter().copied().take(4).collect::<Vec<_>>()));
        v.push(op("wrap"));
        v.push(op("rootsrev"));
        v.push(op("empty"));
    }
    v
}

/// several sequences through one builder
fn c07_list(rg: &mut Rg) -> Vec<J> {
    let k = rg.r(2, 4);
    let n = k + 3;
    let perm = rg.perm(n);
    let mut v = vec![op("init").with("n", n).with("rules", J::A(vec![])).with("roots", Vec::<usize>::new())];
    let list: Vec<J> = (0..k)
        .map(|i| {
            let (x, sep) = if rg.p(50) { (perm[k], perm[k + 1]) } else { (perm[k + 1], perm[k + 2]) };
            let mode = *rg.pick(&["null", "null", "proper", "trailing", "liberal"]);
            let s = rg.r(0, 9);
            let e: i64 = if rg.p(35) { -1 } else { (s + rg.r(0, 9)) as i64 };
            let mut form = *rg.pick(&["incl", "range", "rangei", "inter", "to", "tox", "exs", "exx", "hist"]);
            if form == "inter" && mode != "proper" {
                form = "incl";
            }
            let o = J::obj().with("l", perm[i]).with("x", x).with("sep", sep).with("mode", mode).with("s", s).with("e", e).with("form", form);
            if rg.p(40) { o.with("o", 70 + i) } else { o }
        })
        .collect();
    let o = op("seqs").with("list", J::A(list));
    v.push(if rg.p(40) { o.with("vec", rg.r(1, 2)) } else { o });
    v
}

fn c07(rg: &mut Rg) -> Vec<J> {
    if rg.p(15) {
        return c07_list(rg);
    }
    // 0: lhs, 1: element, 2: separator, 3..: others
    let n = rg.r(3, 6);
    let perm = rg.perm(n);
    let (l, x, mut sep) = (perm[0], perm[1], perm[2]);
    if rg.p(5) {
        sep = x;
    }
    let mut rules = vec![];
    if rg.p(30) {
        // other rules: for the element and others
        for k in 0..rg.r(1, 3) {
            let lhs = *rg.pick(&perm[1..]);
            let r: Vec<usize> = (0..rg.r(0, 2)).map(|_| *rg.pick(&perm)).collect();
            rules.push(J::obj().with("l", lhs).with("r", r).with("o", 50 + k));
        }
    }
    let mut v = vec![op("init").with("n", n).with("rules", J::A(rules)).with("roots", Vec::<usize>::new())];
    let mut l = l;
    for k in 0..if rg.p(15) { 2 } else { 1 } {
        let mode = *rg.pick(&["null", "proper", "trailing", "liberal"]);
        let s = if rg.p(70) { rg.r(0, 5) } else if rg.p(85) { rg.r(6, 18) } else { rg.r(19, 70) };
        let e: i64 = if rg.p(35) {
            -1
        } else {
            (s + if rg.p(75) { rg.r(0, 6) } else if rg.p(85) { rg.r(7, 17) } else { rg.r(18, 66) }) as i64
        };
        if k > 0 && rg.p(60) {
            l = *rg.pick(&perm[1..]);
            if l == x || l == sep {
                break;
            }
        }
        let mut form = *rg.pick(&["incl", "range", "rangei", "inter", "to", "tox", "exs", "exx", "direct", "hist", "smeth", "srange"]);
        if form == "inter" && mode != "proper" {
            form = "incl";
        }
        if rg.p(4) {
            v.push(op("limit").with("k", 2));
        }
        let mut o = op("seq").with("l", l).with("x", x).with("sep", sep).with("mode", mode).with("s", s).with("e", e).with("form", form);
        if rg.p(50) {
            o = o.with("o", 77);
        }
        v.push(o);
    }
    v
}

fn c08(rg: &mut Rg) -> Vec<J> {
    let n = rg.r(4, 7);
    let perm = rg.perm(n);
    let mut rules = vec![];
    if rg.p(30) {
        rules.push(J::obj().with("l", perm[1]).with("r", vec![perm[2]]).with("o", 50));
    }
    let mut v = vec![op("init").with("n", n).with("rules", J::A(rules)).with("roots", Vec::<usize>::new())];
    let mut lhs = perm[0];
    let mut prog = vec![];
    let first = lhs;
    let mut o = 200;
    let builders = if rg.p(25) { rg.r(2, 3) } else { 1 };
    for b in 0..builders {
        if b > 0 {
            lhs = perm[if b == 1 { 1 } else { n - 1 }];
            prog.push(J::A(vec!["next".into(), lhs.into()]));
        }
        let levels = if rg.p(90) { rg.r(1, 4) } else { rg.r(5, 9) };
        for lv in 0..levels {
            if lv > 0 {
                if rg.p(12) {
                    prog.push(J::A(vec!["assoc".into(), (*rg.pick(&["L", "R", "G"])).into()]));
                }
                prog.push(J::A(vec!["lower".into()]));
            }
            for _ in 0..rg.r(if lv == 0 { 1 } else { 0 }, 3) {
                if rg.p(50) {
                    prog.push(J::A(vec!["assoc".into(), (*rg.pick(&["L", "R", "G"])).into()]));
                    if rg.p(10) {
                        // the last setting counts
                        prog.push(J::A(vec!["assoc".into(), (*rg.pick(&["L", "R", "G"])).into()]));
                    }
                }
                let k = if rg.p(92) { rg.r(0, 5) } else { rg.r(6, 11) };
                let r: Vec<usize> = (0..k).map(|_| if rg.p(50) { lhs } else { *rg.pick(&perm[2..]) }).collect();
                o += 1;
                let mut alt = vec!["rhs".into(), J::from(r), o.into()];
                if rg.p(20) {
                    alt.push(1.into());
                }
                prog.push(J::A(alt));
            }
        }
    }
    let mut q = op("prec").with("l", first).with("prog", J::A(prog));
    if rg.p(20) {
        let r: Vec<usize> = (0..rg.r(0, 3)).map(|_| *rg.pick(&perm)).collect();
        q = q.with("then", J::A(vec![(*rg.pick(&perm)).into(), J::from(r), 399.into()]));
    }
    v.push(q);
    if rg.p(15) {
        v.push(op("prec").with("l", perm[2]).with(
            "prog",
            J::A(vec![J::A(vec!["rhs".into(), J::from(vec![perm[2], perm[3], perm[2]]), 400.into()])]),
        ));
    }
    v
}

fn c13(rg: &mut Rg, i: usize, cases: &[J], o: &Opt) -> Vec<J> {
    let mut o = o.clone();
    o.names = true;
    o.weights = true;
    let g = gr(rg, i, cases, &o);
    let mut v = vec![g.init(rg)];
    if rg.p(30) {
        v.push(op("limit").with("k", 2));
    }
    if rg.p(30) {
        v.push(op("wrap"));
    }
    v.push(remap_op(rg, false));
    if rg.p(30) {
        v.push(remap_op(rg, false));
    }
    if rg.p(30) {
        // two partial injections with their inverses
        let (x, y, z) = (rg.r(1, 6), rg.r(1, 6), rg.r(1, 6));
        let mk = |rg: &mut Rg, ext: usize, int: usize| -> J {
            let int = int.min(ext);
            let p = rg.perm(ext);
            let te: Vec<usize> = p[..int].to_vec();
            let mut ti = vec![J::I(-1); ext];
            for (i, e) in te.iter().enumerate() {
                ti[*e] = i.into();
            }
            J::obj().with("ti", J::A(ti)).with("te", te)
        };
        let a = mk(rg, x, y);
        let m = a.at("te").arr().len();
        let b = mk(rg, m, z);
        v.push(op("translate").with("a", a).with("b", b));
    }
    v
}

fn c20(rg: &mut Rg, i: usize, cases: &[J], o: &Opt) -> Vec<J> {
    if i >= cases.len() && rg.p(40) {
        let n = *rg.pick(&[0, 1, 2, 5, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 140, 255, 256, 257, 300]);
        let mut space = n;
        let mut prog = vec![];
        for _ in 0..rg.r(1, 7) {
            match rg.r(0, 9) {
                0 | 1 | 2 if space > 0 => prog.push(J::A(vec![
                    "set".into(),
                    rg.r(0, space - 1).into(),
                    J::I(rg.p(60) as i64),
                ])),
                3 | 4 => prog.push(J::A(vec!["neg".into()])),
                5 => {
                    // the other set has at least the grammar's size
                    let s: Vec<usize> = if space == 0 { vec![] } else { (0..rg.r(0, 4)).map(|_| rg.r(0, space - 1)).collect() };
                    prog.push(J::A(vec!["union".into(), s.into()]));
                }
                6 => {
                    let k = if rg.p(80) { rg.r(0, 150) } else { rg.r(151, 400) };
                    space = space.max(k);
                    prog.push(J::A(vec!["reserve".into(), k.into()]));
                }
                7 => {
                    space = n;
                    prog.push(J::A(vec!["reset".into()]));
                }
                8 => {
                    space = n;
                    prog.push(J::A(vec!["setall".into()]));
                }
                9 if rg.p(40) => {
                    space = 0;
                    prog.push(J::A(vec!["default".into()]));
                }
                _ => prog.push(J::A(vec!["clone".into()])),
            }
        }
        return vec![
            op("init").with("n", 1).with("rules", J::A(vec![])),
            op("bits").with("n", n).with("elem", rg.r(0, 1)).with("prog", J::A(prog)),
        ];
    }
    let g = gr(rg, i, cases, o);
    let mut v = vec![g.init(rg)];
    if rg.p(20) {
        mutate(rg, &g, &mut v, true);
    }
    v.push(op("sets"));
    v.push(op("matrix"));
    v
}
