//! Scenarios for C23 to C28 and C30.
use crate::gram::{self, Opt};
use crate::json::J;
use crate::props::op;
use crate::rng::Rg;

pub fn scenario2(prop: &str, rg: &mut Rg, i: usize, cases: &[J], _thorough: bool) -> Vec<J> {
    match prop {
        "C23" => c23(rg, i, cases),
        "C24" => c24(rg),
        "C25" => (0..rg.r(1, 3)).map(|_| c25(rg)).collect(),
        "C26" => vec![c26(rg)],
        "C27" => vec![c27(rg)],
        "C28" => vec![c28(rg)],
        "C33" => vec![c33(rg)],
        "C30" => (0..rg.r(1, 4)).map(|_| c30(rg)).collect(),
        _ => vec![],
    }
}

fn jcodes(s: &str) -> J {
    J::A(s.chars().map(|c| J::I(c as i64)).collect())
}
fn jints(v: &[usize]) -> J {
    J::A(v.iter().map(|&x| x.into()).collect())
}

// ---------------------------------------------------------------- generation

fn source(rg: &mut Rg) -> J {
    match rg.r(0, 9) {
        0 | 1 => J::obj().with("k", "small").with("v", rg.r(0, 1_000_000)),
        2 | 3 => {
            let v: Vec<usize> = (0..rg.r(0, 60)).map(|_| rg.r(0, 255)).collect();
            J::obj().with("k", "bytes").with("v", v)
        }
        _ => {
            let n = rg.r(1, 41);
            let v: Vec<J> = (0..n).map(|_| jints(&[rg.r(0, 498) * 2 + 1, 1000])).collect();
            J::obj().with("k", "tape").with("v", J::A(v))
        }
    }
}

fn c23(rg: &mut Rg, i: usize, cases: &[J]) -> Vec<J> {
    let mut o = Opt::std();
    o.pad = false;
    o.roots = false;
    o.max_rules = 10;
    let mut g = if i < cases.len() { gram::from_case(&cases[i]) } else { gram::random(rg, &o) };
    g.weights = rg.p(30);
    // lookahead symbols
    let nn = if g.ts.is_empty() || rg.p(25) { 0 } else { rg.r(1, 2) };
    let mut negs = vec![];
    for _ in 0..nn {
        let s = g.n;
        g.n += 1;
        negs.push(s);
        for _ in 0..rg.r(1, 3) {
            if g.rules.is_empty() {
                break;
            }
            let k = rg.r(0, g.rules.len() - 1);
            let at = rg.r(0, g.rules[k].1.len());
            g.rules[k].1.insert(at, s);
        }
    }
    // a symbol with only one way leading back to itself would never finish
    loop {
        let single: Vec<usize> =
            g.nts.iter().copied().filter(|x| g.rules.iter().filter(|r| r.0 == *x).count() == 1).collect();
        let mut bad = None;
        for &x in &single {
            let mut seen = vec![];
            let mut work = vec![x];
            while let Some(y) = work.pop() {
                for r in g.rules.iter().filter(|r| r.0 == y) {
                    for &z in &r.1 {
                        if z == x {
                            bad = Some(x);
                        }
                        if single.contains(&z) && !seen.contains(&z) {
                            seen.push(z);
                            work.push(z);
                        }
                    }
                }
            }
        }
        match bad {
            None => break,
            Some(x) => {
                let r = if g.ts.is_empty() || rg.p(20) { vec![] } else { vec![*rg.pick(&g.ts)] };
                g.rules.push((x, r));
            }
        }
    }
    // text enough for the longer ones
    if nn > 0 && !g.nts.is_empty() && rg.p(25) {
        let x = *rg.pick(&g.nts);
        let (a, b) = (g.ts[0], *rg.pick(&g.ts));
        for k in 0..rg.r(1, 3) {
            g.rules.push((x, (0..rg.r(4, 8)).map(|i| if (i + k) % 2 == 0 { a } else { b }).collect()));
        }
    }
    for &s in &negs {
        g.rules.push((s, vec![]));
    }
    let chars: Vec<J> = g
        .ts
        .iter()
        .enumerate()
        .map(|(k, &t)| {
            let c = if rg.p(12) { -1 } else { ['a', 'b', 'c', 'd'][k % 4] as i64 };
            J::A(vec![t.into(), J::I(c)])
        })
        .collect();
    let pool = ["a", "a", "b", "b", "aa", "ab", "ba", "bb", "aab", "aba", "c", "aaaa", "aaaaa", "babab", "aaaaaaa"];
    let jn: Vec<J> = negs.iter().map(|&s| J::A(vec![s.into(), jcodes(*rg.pick(&pool))])).collect();
    let mut v = vec![];
    // weights of zero would make alternatives impossible
    let init = g.init(rg);
    let rules: Vec<J> = init
        .at("rules")
        .arr()
        .iter()
        .map(|r| if r.get("w").is_some() { r.clone().with("w", rg.r(1, 4000)) } else { r.clone() })
        .collect();
    v.push(init.with("rules", J::A(rules)));
    for _ in 0..rg.r(1, 4) {
        let s = if rg.p(85) && !g.nts.is_empty() { *rg.pick(&g.nts) } else { g.sym(rg) };
        let lim: i64 = match rg.r(0, 5) {
            0 => -1,
            1 => rg.r(0, 3) as i64,
            _ => rg.r(2, 14) as i64,
        };
        if lim < 0 && nn > 0 && rg.p(70) {
            continue;
        }
        let att = match rg.r(0, 3) {
            0 => rg.r(0, 3),
            _ => rg.r(3, 60),
        };
        v.push(
            op("gen")
                .with("s", s)
                .with("lim", lim)
                .with("att", att)
                .with("src", source(rg))
                .with("negs", J::A(jn.clone()))
                .with("chars", J::A(chars.clone())),
        );
    }
    v
}

fn frac(rg: &mut Rg) -> [usize; 2] {
    match rg.r(0, 5) {
        0 => [rg.r(0, 8), 8],
        1 => [0, 1],
        2 => [999, 1000],
        _ => [rg.r(0, 999), 1000],
    }
}
fn c24(rg: &mut Rg) -> Vec<J> {
    if rg.p(50) {
        let ty = *rg.pick(&["u8", "u16", "u32", "f32", "f64"]);
        let nl = rg.r(1, 3);
        let many = rg.p(15);
        let alts: Vec<J> = (0..if many { rg.r(10, 25) } else { rg.r(0, 9) })
            .map(|_| {
                let w = match (ty, many) {
                    ("f32" | "f64", _) => rg.r(0, 80),
                    ("u8", true) => rg.r(0, 2) * 8,
                    _ => rg.r(0, 20) * 8,
                };
                let r: Vec<usize> = (0..rg.r(0, 3)).map(|_| rg.r(3, 9)).collect();
                J::obj().with("l", rg.r(0, nl - 1)).with("w", w).with("r", r)
            })
            .collect();
        // a total of zero leaves nothing to draw
        let mut alts = alts;
        for l in 0..nl {
            let mine: Vec<usize> = (0..alts.len()).filter(|&k| alts[k].at("l").us() == l).collect();
            if mine.len() > 1 && mine.iter().all(|&k| alts[k].at("w").us() == 0) {
                alts[mine[0]] = alts[mine[0]].clone().with("w", 8);
            }
        }
        let picks: Vec<J> = (0..rg.r(3, 14))
            .map(|_| {
                let f = frac(rg);
                jints(&[rg.r(0, nl), f[0], f[1]])
            })
            .collect();
        return vec![op("pick").with("ty", ty).with("alts", J::A(alts)).with("picks", J::A(picks))];
    }
    let n = rg.r(3, 6);
    let nr = if rg.p(85) { rg.r(1, 7) } else { rg.r(8, 20) };
    let lhs = rg.r(0, 1);
    let rules: Vec<J> = (0..nr)
        .map(|k| {
            let r: Vec<usize> = (0..rg.r(0, 3)).map(|_| rg.r(2, n - 1)).collect();
            let l = if rg.p(75) { lhs } else { 1 - lhs };
            let mut x = J::obj().with("l", l).with("r", r).with("o", k + 1);
            if rg.p(60) {
                x = x.with("w", *rg.pick(&[1, 500, 1000, 2000, 2500, 3000, 10, 125, 7000, 20000]));
            }
            x
        })
        .collect();
    let picks: Vec<J> = (0..rg.r(3, 12)).map(|_| jints(&frac(rg))).collect();
    let lhss: Vec<usize> = rules.iter().map(|r| r.at("l").us()).collect();
    let s = *rg.pick(&lhss);
    let mut v = vec![
        op("init").with("n", n).with("rules", J::A(rules)).with("roots", vec![0usize]),
        op("wgen").with("s", s).with("picks", J::A(picks)),
    ];
    if rg.p(20) {
        v.insert(1, op(*rg.pick(&["sort", "reverse", "clone"])));
    }
    v
}

// ---------------------------------------------------------------- BNF

const IDS: &[&str] = &[
    "A", "B", "C", "expr", "_x", "a1", "g0", "g1", "Z_9", "g2", "rule", "start", "lexer", "_", "__", "z", "AB", "A1B2", "x_y_z", "Regexp",
    "a_rather_long_identifier_0123456789",
];

fn join(rg: &mut Rg, toks: &[String]) -> String {
    let mut out = String::new();
    for (k, t) in toks.iter().enumerate() {
        if k > 0 {
            let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
            let a = toks[k - 1].chars().last().unwrap_or(' ');
            let b = t.chars().next().unwrap_or(' ');
            if word(a) && word(b) || rg.p(60) {
                out.push_str(*rg.pick(&[" ", " ", " ", "\n", "\t", "  ", " \n "]));
            }
        }
        out.push_str(t);
    }
    if rg.p(30) {
        out.push('\n');
    }
    if rg.p(10) {
        out.insert(0, '\n');
    }
    out
}
fn mutate_tokens(rg: &mut Rg, toks: &mut Vec<String>, pool: &[&str]) {
    for _ in 0..rg.r(1, 2) {
        if toks.is_empty() {
            return;
        }
        let k = rg.r(0, toks.len() - 1);
        match rg.r(0, 4) {
            0 => {
                toks.remove(k);
            }
            1 => toks.insert(k, rg.pick(pool).to_string()),
            2 => toks[k] = rg.pick(pool).to_string(),
            3 => {
                let j = rg.r(0, toks.len() - 1);
                toks.swap(k, j);
            }
            _ => toks.truncate(k),
        }
    }
}
fn mutate_chars(rg: &mut Rg, s: &str, pool: &[char]) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..rg.r(1, 3) {
        if v.is_empty() {
            break;
        }
        let k = rg.r(0, v.len() - 1);
        match rg.r(0, 3) {
            0 => {
                v.remove(k);
            }
            1 => v.insert(k, *rg.pick(pool)),
            2 => v[k] = *rg.pick(pool),
            _ => v.truncate(k),
        }
    }
    v.into_iter().collect()
}

fn basic_tokens(rg: &mut Rg) -> Vec<String> {
    let mut t: Vec<String> = vec![];
    let from = if rg.p(60) { 0 } else { rg.r(0, IDS.len() - 3) };
    let ids = &IDS[from..(from + rg.r(2, 11)).min(IDS.len())];
    for _ in 0..if rg.p(93) { rg.r(1, 5) } else { rg.r(6, 14) } {
        t.push(rg.pick(ids).to_string());
        t.push("::=".into());
        let alts = if rg.p(94) { rg.r(0, 3) } else { rg.r(4, 9) };
        for a in 0..alts {
            if a > 0 {
                t.push("|".into());
            }
            for _ in 0..if rg.p(94) { rg.r(1, 4) } else { rg.r(5, 12) } {
                match rg.r(0, 9) {
                    0 => {
                        t.push("(".into());
                        t.push(")".into());
                    }
                    1 => {
                        t.push(rg.pick(ids).to_string());
                        t.push("*".into());
                    }
                    2 => {
                        t.push(rg.pick(ids).to_string());
                        t.push("+".into());
                    }
                    _ => t.push(rg.pick(ids).to_string()),
                }
            }
        }
        t.push(";".into());
    }
    t
}
/// A text that is probably refused, spread over lines.
fn c33(rg: &mut Rg) -> J {
    match rg.r(0, 2) {
        0 => basic(rg, 60, 30),
        1 => rich(rg, 75, 5),
        _ => rich(rg, 0, 25),
    }
}
fn c25(rg: &mut Rg) -> J {
    basic(rg, 25, 15)
}
fn basic(rg: &mut Rg, by_token: usize, by_char: usize) -> J {
    let mut t = basic_tokens(rg);
    let pool = ["A", "B", "::=", ";", "|", "+", "*", "(", ")", "::", "1", "\"s\"", "~", "é"];
    if rg.p(by_token) {
        mutate_tokens(rg, &mut t, &pool);
    }
    let mut s = join(rg, &t);
    if rg.p(by_char) {
        let chars = ['A', 'z', '_', '0', ':', '=', ';', '|', '+', '*', '(', ')', ' ', '\n', '\t', '\r', 'é', '-', '"', '\u{0}', '#'];
        s = mutate_chars(rg, &s, &chars);
    }
    op("load").with("t", jcodes(&s))
}

fn quote(rg: &mut Rg, s: &[usize]) -> String {
    let mut out = String::from("\"");
    for &c in s {
        let ch = char::from_u32(c as u32).unwrap();
        if ch == '"' || ch == '\\' || rg.p(10) {
            out.push('\\');
        }
        out.push(ch);
    }
    out.push('"');
    out
}
fn c26(rg: &mut Rg) -> J {
    rich(rg, 30, 5)
}
fn rich(rg: &mut Rg, damaged: usize, wrong: usize) -> J {
    let mutated = rg.p(damaged);
    let pools: &[&[usize]] =
        &[&[97, 98], &[97, 98, 34], &[97, 92, 98], &[97, 233], &[120], &[97, 10, 32], &[0x1F600, 97], &[107, 8490]];
    let mut al: Vec<usize> = rg.pick(pools).to_vec();
    if mutated {
        al.retain(|c| *c != 92);
    }
    let mut rx: Vec<J> = vec![];
    let mut t: Vec<String> = vec![];
    let mut all = ["A", "B", "C", "num", "_x", "d1", "lexeme", "g0", "lexers", "lexer_", "Lexer", "lex", "lexer1", "regexp", "a_very_long_name_for_a_rule"];
    if rg.p(50) {
        rg.shuffle(&mut all);
    }
    let ids = &all[..rg.r(3, 8)];
    let parser_ids = &ids[..ids.len() / 2 + 1];
    let lexer_ids = &ids[ids.len() / 2 + 1..];
    let shared = rg.p(wrong);
    let np = rg.r(0, 4);
    let has_lex = np == 0 || rg.p(60);
    let blocks = if has_lex { if rg.p(wrong) { 2 } else { 1 } } else { 0 };
    let mut decls: Vec<Vec<String>> = vec![];
    let mut rule = |rg: &mut Rg, lex: bool| -> Vec<String> {
        let mut t: Vec<String> = vec![];
        let pick_id = |rg: &mut Rg| -> String { rg.pick(ids).to_string() };
        let l = if shared || lexer_ids.is_empty() {
            pick_id(rg)
        } else if lex {
            rg.pick(lexer_ids).to_string()
        } else {
            rg.pick(parser_ids).to_string()
        };
        t.push(l);
        t.push("::=".into());
        let alts = rg.r(0, 3);
        if alts == 0 && rg.p(50) {
            t.push(">".into());
            t.push(pick_id(rg));
        }
        for a in 0..alts {
            if a > 0 {
                t.push("|".into());
            }
            let nf = rg.r(1, 3);
            for f in 0..nf {
                if f > 0 {
                    t.push("~".into());
                }
                match rg.r(0, 11) {
                    0 => {
                        t.push(pick_id(rg));
                        t.push("*".into());
                    }
                    1 => {
                        t.push(pick_id(rg));
                        t.push("+".into());
                    }
                    2 | 3 | 4 => {
                        let s: Vec<usize> = (0..rg.r(0, 3)).map(|_| *rg.pick(&al)).collect();
                        t.push(quote(rg, &s));
                    }
                    5 | 6 => {
                        t.push(if rg.p(wrong) { "Regex".into() } else { "Regexp".into() });
                        t.push("(".into());
                        if rg.p(wrong) {
                            let bad = *rg.pick(BAD);
                            let v: Vec<usize> = bad.chars().map(|c| c as usize).collect();
                            t.push(quote(rg, &v));
                        } else {
                            let d = rg.r(0, 3);
                            let a = regex(rg, &al, d);
                            let mut p = vec![];
                            show(&a, &mut p);
                            t.push(quote(rg, &p));
                            rx.push(J::obj().with("p", p).with("a", a));
                        }
                        t.push(")".into());
                    }
                    _ => t.push(pick_id(rg)),
                }
            }
            if rg.p(25) {
                t.push(">".into());
                t.push(pick_id(rg));
            }
        }
        t.push(";".into());
        t
    };
    for _ in 0..np {
        let r = rule(rg, false);
        decls.push(r);
    }
    for _ in 0..blocks {
        let mut b: Vec<String> = vec!["lexer".into(), "{".into()];
        for _ in 0..rg.r(1, 3) {
            b.extend(rule(rg, true));
        }
        b.push("}".into());
        let at = rg.r(0, decls.len());
        decls.insert(at, b);
    }
    for d in decls {
        t.extend(d);
    }
    let pool =
        ["A", "B", "::=", ";", "|", "+", "*", "(", ")", "~", "{", "}", ">", "lexer", "\"a\"", "\"", "::", "9", "Regexp"];
    let calls = t.iter().any(|x| x == "Regexp");
    if mutated {
        mutate_tokens(rg, &mut t, &pool);
    }
    let mut s = join(rg, &t);
    if mutated && !calls && !s.contains("Regexp") && rg.p(50) {
        let chars =
            ['A', 'z', '_', '0', ':', '=', ';', '|', '+', '*', '(', ')', ' ', '\n', '\r', 'é', '"', '\\', '~', '{', '}', '>'];
        s = mutate_chars(rg, &s, &chars);
    }
    op("loadadv").with("t", jcodes(&s)).with("al", al).with("rx", J::A(rx))
}

// ---------------------------------------------------------------- regular expressions

const BAD: &[&str] =
    &["(", ")", "[", "*", "+", "a{2,1}", "[b-a]", "\\", "(?z)", "a|(", "a{2", "(a", "a)", "|*", "(?P<"];

fn regex(rg: &mut Rg, al: &[usize], depth: usize) -> J {
    let k = |s: &str| J::obj().with("k", s);
    if depth == 0 {
        return match rg.r(0, 11) {
            0 => k("e"),
            1 => k("dot"),
            2 => {
                if rg.p(30) {
                    k("none")
                } else {
                    k("dot")
                }
            }
            3 | 4 | 5 => {
                let rs: Vec<J> = (0..rg.r(1, 3))
                    .map(|_| {
                        let c = *rg.pick(al);
                        match rg.r(0, 4) {
                            0 => jints(&[c, c + 1]),
                            1 => jints(&[c.saturating_sub(1), c]),
                            2 => jints(&[0x30, 0x39]),
                            _ => jints(&[c, c]),
                        }
                    })
                    .collect();
                k("cls").with("neg", rg.p(30) as i64).with("rs", J::A(rs))
            }
            _ => k("c").with("c", if rg.p(85) { *rg.pick(al) } else { *rg.pick(&[0x62, 0x2E, 0x5D, 0x394, 0x2B]) }),
        };
    }
    match rg.r(0, 9) {
        0 | 1 | 2 => {
            let n = rg.r(0, 3);
            k("cat").with("xs", J::A((0..n).map(|_| regex(rg, al, depth - 1)).collect()))
        }
        3 if rg.p(40) => {
            // literals of several letters, some of them empty
            let lit = |rg: &mut Rg| {
                let n = *rg.pick(&[0, 0, 1, 2, 3, 4, 5, 6]);
                k("cat").with("xs", J::A((0..n).map(|_| k("c").with("c", *rg.pick(al))).collect()))
            };
            let alt = k("alt").with("xs", J::A((0..rg.r(1, 3)).map(|_| lit(rg)).collect()));
            if rg.p(40) {
                return alt;
            }
            let alt = k("grp").with("cap", rg.r(0, 1)).with("x", alt);
            k("cat").with("xs", J::A(vec![regex(rg, al, 0), alt, regex(rg, al, 0)]))
        }
        4 if rg.p(40) => {
            // the same few words again and again, in groups within alternations
            let words: Vec<J> = (0..rg.r(1, 3))
                .map(|_| {
                    let n = *rg.pick(&[0, 1, 1, 2, 2, 3]);
                    k("cat").with("xs", J::A((0..n).map(|_| k("c").with("c", *rg.pick(al))).collect()))
                })
                .collect();
            let group = |rg: &mut Rg, min: usize| {
                let alt = k("alt").with("xs", J::A((0..rg.r(min, 3)).map(|_| rg.pick(&words).clone()).collect()));
                k("grp").with("cap", rg.p(75) as i64).with("x", alt)
            };
            let xs = (0..rg.r(2, 3)).map(|_| if rg.p(50) { rg.pick(&words).clone() } else { group(rg, 2) }).collect();
            let alt = k("alt").with("xs", J::A(xs));
            if rg.p(50) {
                return alt;
            }
            let alt = k("grp").with("cap", rg.r(0, 1)).with("x", alt);
            let first = if rg.p(50) { group(rg, 1) } else { regex(rg, al, 0) };
            k("cat").with("xs", J::A(vec![first, alt]))
        }
        3 | 4 | 5 => {
            let n = rg.r(1, 3);
            k("alt").with("xs", J::A((0..n).map(|_| regex(rg, al, depth - 1)).collect()))
        }
        6 | 7 => {
            let lo = if rg.p(85) { *rg.pick(&[0, 0, 0, 1, 1, 1, 2, 3, 4]) } else { rg.r(4, 11) as i64 };
            let far = lo + rg.r(0, 11) as i64;
            let hi = *rg.pick(&[-1, -1, lo, lo + 1, lo + 2, lo + 3, far]);
            k("rep")
                .with("lo", lo)
                .with("hi", hi)
                .with("lazy", rg.p(20) as i64)
                .with("x", regex(rg, al, depth - 1))
        }
        8 => {
            if rg.p(40) {
                k("ci").with("x", regex(rg, al, depth - 1))
            } else {
                k("grp").with("cap", rg.r(0, 1)).with("x", regex(rg, al, depth - 1))
            }
        }
        _ => regex(rg, al, depth - 1),
    }
}
fn lit(s: &str, out: &mut Vec<usize>) {
    out.extend(s.chars().map(|c| c as usize));
}
fn show_char(c: usize, out: &mut Vec<usize>) {
    if "\\.+*?()|[]{}^$#&-~".chars().any(|m| m as usize == c) {
        out.push(92);
    }
    out.push(c);
}
pub fn show(a: &J, out: &mut Vec<usize>) {
    let kind = a.at("k").str();
    let group = |x: &J, out: &mut Vec<usize>| {
        lit("(?:", out);
        show(x, out);
        lit(")", out);
    };
    match kind {
        "c" => show_char(a.at("c").us(), out),
        "cls" => {
            lit("[", out);
            if a.at("neg").int() == 1 {
                lit("^", out);
            }
            for r in a.at("rs").arr() {
                let r = r.ints();
                show_char(r[0], out);
                lit("-", out);
                show_char(r[1], out);
            }
            lit("]", out);
        }
        "dot" => lit(".", out),
        "none" => lit("[^\\s\\S]", out),
        "e" => lit("(?:)", out),
        "cat" => {
            for x in a.at("xs").arr() {
                if x.at("k").str() == "cat" {
                    group(x, out)
                } else {
                    show(x, out)
                }
            }
        }
        "alt" => {
            lit("(?:", out);
            for (i, x) in a.at("xs").arr().iter().enumerate() {
                if i > 0 {
                    lit("|", out);
                }
                show(x, out);
            }
            lit(")", out);
        }
        "rep" => {
            let x = a.at("x");
            if ["c", "cls", "dot", "none", "e", "alt", "grp", "ci"].contains(&x.at("k").str()) {
                show(x, out)
            } else {
                group(x, out)
            }
            let (lo, hi) = (a.at("lo").int(), a.at("hi").int());
            let s = match (lo, hi) {
                (0, -1) => "*".into(),
                (1, -1) => "+".into(),
                (0, 1) => "?".into(),
                (_, -1) => format!("{{{lo},}}"),
                _ if lo == hi => format!("{{{lo}}}"),
                _ => format!("{{{lo},{hi}}}"),
            };
            lit(&s, out);
            if a.at("lazy").int() == 1 {
                lit("?", out);
            }
        }
        "grp" => {
            lit(["(?:", "(", "(?P<n>"][a.at("cap").us()], out);
            show(a.at("x"), out);
            lit(")", out);
        }
        "ci" => {
            lit("(?i:", out);
            show(a.at("x"), out);
            lit(")", out);
        }
        x => panic!("HARNESS: regex {x}"),
    }
}

const ALPHABETS: &[&[usize]] = &[
    &[97],
    &[97, 98],
    &[97, 65],
    &[97, 98, 99],
    &[107, 8490],
    &[107, 75, 8490],
    &[115, 383],
    &[233, 201],
    &[10, 97],
    &[0x1F600, 97],
    &[48, 57, 0x661],
    &[46, 97],
    &[92, 97],
    &[127, 128],
    &[255, 256],
    &[0xD7FF, 0xE000],
    &[0x10FFFF, 97],
    &[0, 97],
];
fn c27(rg: &mut Rg) -> J {
    if rg.p(4) {
        let p = *rg.pick(BAD);
        return op("regexp").with("p", jcodes(p)).with("al", vec![97usize]).with("a", J::obj().with("k", "e"));
    }
    let al = rg.pick(ALPHABETS).to_vec();
    // characters of classes must exist
    let ok: Vec<usize> = al.clone();
    let d = rg.r(0, 4);
    let a = loop {
        let a = regex(rg, &ok, d);
        if valid(&a) {
            break a;
        }
    };
    let mut p = vec![];
    show(&a, &mut p);
    op("regexp").with("p", p).with("al", al).with("a", a)
}
/// regex_syntax negates ranges on both sides of the surrogates wrongly
fn gap(a: &J) -> bool {
    let rs: Vec<Vec<usize>> = a.at("rs").arr().iter().map(|r| r.ints()).collect();
    a.at("neg").int() == 1 && rs.iter().any(|r| r[1] == 0xD7FF) && rs.iter().any(|r| r[0] == 0xE000)
}
fn valid(a: &J) -> bool {
    if let Some(rs) = a.get("rs") {
        if gap(a) {
            return false;
        }
        if !rs.arr().iter().all(|r| r.ints().iter().all(|&c| char::from_u32(c as u32).is_some())) {
            return false;
        }
    }
    a.get("x").map_or(true, valid) && a.get("xs").map_or(true, |x| x.arr().iter().all(valid))
}

// ---------------------------------------------------------------- classes

fn c28(rg: &mut Rg) -> J {
    const PTS: &[usize] = &[
        0, 1, 9, 10, 31, 32, 48, 57, 65, 90, 97, 98, 99, 100, 122, 123, 125, 126, 127, 128, 129, 130, 200, 233, 254, 255,
        256, 257, 0x3B1, 0x7FF, 0x800, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xFFFF, 0x10000, 0x1F600, 0x10FFFE, 0x10FFFF,
    ];
    let local = rg.r(0, 3);
    let pt = |rg: &mut Rg| -> usize {
        if local == 0 {
            rg.r(97, 104)
        } else if local == 1 {
            rg.r(120, 136)
        } else {
            *rg.pick(PTS)
        }
    };
    let mut classes: Vec<J> = vec![];
    for _ in 0..if rg.p(92) { rg.r(0, 6) } else { rg.r(7, 16) } {
        if !classes.is_empty() && rg.p(15) {
            let c = rg.pick(&classes).clone();
            classes.push(c);
            continue;
        }
        let c = |k: &str, neg: bool, rs: Vec<[usize; 2]>| {
            J::obj()
                .with("k", k)
                .with("neg", neg as i64)
                .with("rs", J::A(rs.iter().map(|r| jints(r)).collect()))
        };
        let j = match rg.r(0, 6) {
            0 | 1 => {
                let x = pt(rg);
                c("ch", false, vec![[x, x]])
            }
            2 => {
                let x = pt(rg).min(255);
                c("u8", false, vec![[x, x]])
            }
            3 => {
                let rs = (0..rg.r(0, 3))
                    .map(|_| {
                        let a = pt(rg).min(127);
                        let b = pt(rg).min(127);
                        [a.min(b), a.max(b)]
                    })
                    .collect();
                c("by", false, rs)
            }
            _ => {
                let rs = (0..rg.r(0, 4))
                    .map(|_| {
                        let a = pt(rg);
                        let b = if rg.p(40) { a } else { pt(rg) };
                        [a.min(b), a.max(b)]
                    })
                    .collect();
                c("uni", rg.p(20), rs)
            }
        };
        if !gap(&j) {
            classes.push(j);
        }
    }
    let mut probes: Vec<usize> = vec![0, 127, 128, 255, 256, 0x10FFFF];
    for c in &classes {
        for r in c.at("rs").arr() {
            let r = r.ints();
            probes.extend([r[0].saturating_sub(1), r[0], r[0] + 1, r[1].saturating_sub(1), r[1], r[1] + 1, (r[0] + r[1]) / 2]);
        }
    }
    for _ in 0..6 {
        let p = pt(rg);
        probes.push(p);
    }
    if rg.p(10) {
        probes.extend(0..300);
    }
    probes.retain(|&c| char::from_u32(c as u32).is_some());
    probes.sort();
    probes.dedup();
    op("lexmap").with("classes", J::A(classes)).with("probes", probes)
}

// ---------------------------------------------------------------- JSON

fn wide(rg: &mut Rg) -> J {
    let v: u64 = match rg.r(0, 4) {
        0 => *rg.pick(&[0, 1, 254, 255, 256, 65534, 65535, 65536, 0xFFFF_FFFD, 0xFFFF_FFFE, 0xFFFF_FFFF]),
        1 => rg.r(0, 300) as u64,
        2 => rg.r(65000, 66000) as u64,
        _ => rg.next() & 0xFFFF_FFFF,
    };
    jints(&[(v >> 16) as usize, (v & 0xffff) as usize])
}
fn c30(rg: &mut Rg) -> J {
    match rg.r(0, 6) {
        0 | 1 => op("sersym")
            .with("w", *rg.pick(&[8, 16, 32]))
            .with("big", if rg.p(15) { rg.r(1, 5) } else { 0 })
            .with("v", wide(rg)),
        2 => {
            let (ty, t) = *rg.pick(&[
                ("sym", "-1"),
                ("sym8", "-1"),
                ("sym", "1.5"),
                ("sym", "\"1\""),
                ("sym", "null"),
                ("sym8", "255"),
                ("sym8", "256"),
                ("sym8", "257"),
                ("sym", "4294967295"),
                ("sym", "4294967296"),
                ("sym", "18446744073709551615"),
                ("sym", "[]"),
                ("names", "[1]"),
                ("set", "[]"),
                ("map", "{}"),
                ("map", "{\"to_internal\":[-1],\"to_external\":[]}"),
                ("map", "{\"to_internal\":[],\"to_external\":[4294967295]}"),
            ]);
            op("serbad").with("ty", ty).with("t", t)
        }
        3 => {
            let chars = ['a', 'Z', '"', '\\', '/', '\n', '\u{0}', '\u{1f}', 'é', '😀', ' ', '\u{2028}', '\u{7f}', '0'];
            let names: Vec<J> = (0..rg.r(0, 8))
                .map(|_| {
                    if rg.p(30) {
                        J::A(vec![])
                    } else if rg.p(10) {
                        J::A(vec![J::I(-1)])
                    } else {
                        J::A((0..rg.r(1, 6)).map(|_| J::I(*rg.pick(&chars) as i64)).collect())
                    }
                })
                .collect();
            op("sernames").with("names", J::A(names))
        }
        4 => {
            let n = match rg.r(0, 3) {
                0 => rg.r(0, 4),
                1 => rg.r(28, 36),
                2 => rg.r(60, 68),
                _ => rg.r(0, 200),
            };
            let d = rg.r(0, 100);
            let set: Vec<usize> = (0..n).filter(|_| rg.p(d)).collect();
            op("serset").with("n", n).with("set", set)
        }
        5 => {
            let ti: Vec<J> =
                (0..rg.r(0, 10)).map(|_| if rg.p(40) { J::I(-1) } else { rg.r(0, 4000).into() }).collect();
            let te: Vec<usize> = (0..rg.r(0, 10)).map(|_| rg.r(0, 4000)).collect();
            op("sermap").with("ti", J::A(ti)).with("te", te)
        }
        _ => op("serhist").with("a", wide(rg)).with("b", wide(rg)),
    }
}
