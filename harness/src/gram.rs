//! Random grammars, in several shapes, as `init` operations.
use crate::json::J;
use crate::rng::Rg;

#[derive(Clone, Debug)]
pub struct G {
    pub n: usize,
    pub nts: Vec<usize>,
    pub ts: Vec<usize>,
    pub rules: Vec<(usize, Vec<usize>)>,
    pub roots: Vec<usize>,
    pub weights: bool,
    pub names: bool,
}

#[derive(Clone)]
pub struct Opt {
    pub max_t: usize,
    pub max_nt: usize,
    pub max_rules: usize,
    pub long: bool,
    pub pad: bool,
    pub roots: bool,
    pub weights: bool,
    pub names: bool,
    pub example: bool,
}
impl Opt {
    pub fn std() -> Opt {
        Opt { max_t: 3, max_nt: 6, max_rules: 12, long: true, pad: true, roots: true, weights: false, names: false, example: false }
    }
}

/// A long chain of dependencies in random rule order, for fixpoints that need many rounds.
fn chain(rg: &mut Rg, o: &Opt) -> G {
    let nt = rg.r(3, 9);
    let t = rg.r(1, 3).min(o.max_t);
    let n = nt + t + if rg.p(20) { rg.r(1, 5) } else { 0 };
    let perm = match rg.r(0, 2) {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        _ => rg.perm(n),
    };
    let nts: Vec<usize> = perm[..nt].to_vec();
    let ts: Vec<usize> = perm[nt..nt + t].to_vec();
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    let style = rg.r(0, 4);
    for i in 0..nt {
        let next = if i + 1 < nt { nts[i + 1] } else { *rg.pick(&ts) };
        let mut r = match style {
            0 => vec![next],
            1 => vec![next, *rg.pick(&ts)],
            2 => vec![*rg.pick(&ts), next],
            3 => vec![next, next],
            _ => vec![next, *rg.pick(&nts)],
        };
        if i + 1 == nt {
            match rg.r(0, 3) {
                0 => r = vec![],
                1 => r = vec![nts[0]],
                _ => r = vec![next],
            }
        }
        rules.push((nts[i], r));
    }
    for _ in 0..rg.r(0, 3) {
        let k = rg.r(0, 3);
        let r = (0..k).map(|_| if rg.p(60) { *rg.pick(&nts) } else { *rg.pick(&ts) }).collect();
        rules.push((*rg.pick(&nts), r));
    }
    match rg.r(0, 2) {
        0 => rules.reverse(),
        1 => rg.shuffle(&mut rules),
        _ => {}
    }
    let mut roots = vec![];
    if o.roots {
        roots.push(nts[0]);
        if rg.p(20) {
            roots.push(*rg.pick(&nts));
        }
    }
    G { n, nts, ts, rules, roots, weights: o.weights, names: o.names }
}

/// One symbol with many alternatives, most of them starting with different terminals.
fn wide(rg: &mut Rg, o: &Opt) -> G {
    let nt = rg.r(1, 3);
    let t = rg.r(3, 10);
    let n = nt + t;
    let perm = if rg.p(50) { rg.perm(n) } else { (0..n).collect() };
    let nts: Vec<usize> = perm[..nt].to_vec();
    let ts: Vec<usize> = perm[nt..].to_vec();
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    let k = rg.r(4, 12);
    for i in 0..k {
        let l = if rg.p(75) { nts[0] } else { *rg.pick(&nts) };
        let mut r = vec![ts[i % t]];
        for _ in 0..rg.r(0, 2) {
            r.push(if rg.p(50) { *rg.pick(&nts) } else { *rg.pick(&ts) });
        }
        if rg.p(8) {
            r.clear();
        }
        rules.push((l, r));
    }
    let roots = if o.roots { vec![nts[0]] } else { vec![] };
    G { n, nts, ts, rules, roots, weights: o.weights, names: o.names }
}

/// Groups of symbols that refer to each other in a circle, and some references between groups.
fn groups(rg: &mut Rg, o: &Opt) -> G {
    let sizes: Vec<usize> = (0..rg.r(2, 3)).map(|_| *rg.pick(&[1, 2, 2, 3, 4])).collect();
    let nt: usize = sizes.iter().sum();
    let t = rg.r(1, 2).min(o.max_t);
    let n = nt + t + if rg.p(20) { rg.r(1, 5) } else { 0 };
    let perm = if rg.p(70) { rg.perm(n) } else { (0..n).collect() };
    let nts: Vec<usize> = perm[..nt].to_vec();
    let ts: Vec<usize> = perm[nt..nt + t].to_vec();
    let unit = rg.p(65);
    let rhs = |rg: &mut Rg, x: usize| {
        let mut r = vec![x];
        if !unit || rg.p(10) {
            for _ in 0..rg.r(0, 2) {
                let y = if rg.p(70) { *rg.pick(&ts) } else { *rg.pick(&nts) };
                r.insert(rg.r(0, r.len()), y);
            }
        }
        r
    };
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    let mut at = 0;
    for &k in &sizes {
        for i in 0..k {
            if k > 1 || rg.p(40) {
                rules.push((nts[at + i], rhs(rg, nts[at + (i + 1) % k])));
            }
        }
        at += k;
    }
    if rg.p(20) {
        // one circle is open
        let i = rg.r(0, rules.len().max(1) - 1);
        if !rules.is_empty() {
            rules.remove(i);
        }
    }
    for _ in 0..rg.r(1, 3) {
        let (a, b) = (rg.r(0, nt - 1), rg.r(0, nt - 1));
        // mostly in one direction, so that the groups stay apart
        let (a, b) = if rg.p(80) { (a.min(b), a.max(b)) } else { (a, b) };
        rules.push((nts[a], rhs(rg, nts[b])));
    }
    for _ in 0..rg.r(0, 3) {
        let k = rg.r(0, 2);
        let r = (0..k).map(|_| if rg.p(30) { *rg.pick(&nts) } else { *rg.pick(&ts) }).collect();
        rules.push((*rg.pick(&nts), r));
    }
    rg.shuffle(&mut rules);
    let roots = if o.roots { vec![if rg.p(60) { nts[0] } else { *rg.pick(&nts) }] } else { vec![] };
    G { n, nts, ts, rules, roots, weights: o.weights, names: o.names }
}

/// Sizes beyond what is usual: many symbols, rules, roots or a very long right-hand side.
fn large(rg: &mut Rg, o: &Opt) -> G {
    let kind = rg.r(0, 4);
    let (nt, nr, maxlen) = match kind {
        // many rules
        0 => (rg.r(4, 14), rg.r(18, 45), 4),
        // many symbols in use
        1 => (rg.r(12, 30), rg.r(14, 40), 3),
        // one very long rule
        2 => (rg.r(1, 3), rg.r(1, 4), 3),
        // one long chain
        3 => (rg.r(10, 24), 0, 2),
        // many roots
        _ => (rg.r(4, 9), rg.r(5, 14), 3),
    };
    let t = rg.r(1, 4).min(o.max_t);
    let extra = if o.pad { *rg.pick(&[0, 0, 30, 100, 230]) } else { 0 };
    let n = nt + t + extra;
    let perm = match rg.r(0, 2) {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        _ => rg.perm(n),
    };
    let nts: Vec<usize> = perm[..nt].to_vec();
    let ts: Vec<usize> = perm[nt..nt + t].to_vec();
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    let pnt = *rg.pick(&[20, 50, 70]);
    for i in 0..nr {
        let l = if i < nt && kind != 2 { nts[i] } else { *rg.pick(&nts) };
        let len = rg.r(0, maxlen);
        let r = (0..len).map(|_| if rg.p(pnt) { *rg.pick(&nts) } else { *rg.pick(&ts) }).collect();
        rules.push((l, r));
    }
    match kind {
        2 => {
            let len = rg.r(13, 70);
            let pnt = *rg.pick(&[0, 5, 20]);
            let mut r: Vec<usize> = (0..len).map(|_| if rg.p(pnt) { *rg.pick(&nts) } else { *rg.pick(&ts) }).collect();
            if rg.p(30) {
                let k = rg.r(0, len - 1);
                r[k] = *rg.pick(&nts);
            }
            rules.push((nts[0], r));
        }
        3 => {
            for i in 0..nt {
                let next = if i + 1 < nt {
                    nts[i + 1]
                } else if rg.p(50) {
                    *rg.pick(&ts)
                } else {
                    *rg.pick(&nts)
                };
                let mut r = vec![next];
                if rg.p(10) {
                    r.insert(rg.r(0, 1), *rg.pick(&ts));
                }
                rules.push((nts[i], r));
            }
            if rg.p(50) {
                rules.push((*rg.pick(&nts), if rg.p(50) { vec![] } else { vec![*rg.pick(&ts)] }));
            }
        }
        _ => {}
    }
    match rg.r(0, 2) {
        0 => rules.reverse(),
        1 => rg.shuffle(&mut rules),
        _ => {}
    }
    let mut roots = vec![];
    if o.roots {
        let k = if kind == 4 { rg.r(3, nt) } else { rg.r(1, 2).min(nt) };
        roots = nts[..k].to_vec();
    }
    G { n, nts, ts, rules, roots, weights: o.weights, names: o.names }
}

/// One rule made longer: a few more symbols among those it has.
pub fn lengthen(rg: &mut Rg, g: &mut G) {
    if g.rules.is_empty() || g.ts.is_empty() {
        return;
    }
    let i = rg.r(0, g.rules.len() - 1);
    let k = *rg.pick(&[1, 2, 3, 4, 5, 6, 8, 10]);
    let few = [*rg.pick(&g.ts), *rg.pick(&g.ts), if rg.p(70) { *rg.pick(&g.ts) } else { *rg.pick(&g.nts) }];
    for _ in 0..k {
        let at = rg.r(0, g.rules[i].1.len());
        let x = if rg.p(20) { *rg.pick(&g.nts) } else { *rg.pick(&few) };
        g.rules[i].1.insert(at, x);
    }
}

/// Several small grammars side by side, with few references between them.
fn islands(rg: &mut Rg, o: &Opt) -> G {
    let k = rg.r(2, 4);
    let sizes: Vec<usize> = (0..k).map(|_| rg.r(1, 3)).collect();
    let nt: usize = sizes.iter().sum();
    let t = rg.r(1, 3).min(o.max_t);
    let n = nt + t + if rg.p(20) { rg.r(1, 5) } else { 0 };
    let perm = if rg.p(60) { rg.perm(n) } else { (0..n).collect() };
    let nts: Vec<usize> = perm[..nt].to_vec();
    let ts: Vec<usize> = perm[nt..nt + t].to_vec();
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    let mut at = 0;
    for &k in &sizes {
        let own = &nts[at..at + k];
        for i in 0..rg.r(k, k + 2) {
            let l = if i < k { own[i] } else { *rg.pick(own) };
            let r = (0..*rg.pick(&[0, 1, 1, 2, 2, 3]))
                .map(|_| if rg.p(50) { *rg.pick(own) } else { *rg.pick(&ts) })
                .collect();
            rules.push((l, r));
        }
        at += k;
    }
    if rg.p(30) {
        let r = vec![*rg.pick(&nts)];
        rules.push((*rg.pick(&nts), r));
    }
    rg.shuffle(&mut rules);
    let mut roots = vec![];
    if o.roots {
        roots = (0..rg.r(1, 2)).map(|_| *rg.pick(&nts)).collect();
    }
    G { n, nts, ts, rules, roots, weights: o.weights, names: o.names }
}

pub fn random(rg: &mut Rg, o: &Opt) -> G {
    let mut g = shape(rg, o);
    if o.long && rg.p(7) && !g.rules.is_empty() {
        lengthen(rg, &mut g);
    }
    if rg.p(6) && !g.rules.is_empty() {
        // one rule followed by another that differs from it in one place
        let i = rg.r(0, g.rules.len() - 1);
        let mut d = g.rules[i].clone();
        if let Some(k) = d.1.len().checked_sub(1) {
            let k = if rg.p(60) { k } else { rg.r(0, k) };
            d.1[k] = if rg.p(60) { *rg.pick(&g.ts) } else { *rg.pick(&g.nts) };
        } else {
            d.0 = *rg.pick(&g.nts);
        }
        g.rules.insert(i + 1, d);
    }
    g
}

fn shape(rg: &mut Rg, o: &Opt) -> G {
    if o.long && rg.p(4) {
        return large(rg, o);
    }
    if rg.p(10) {
        return groups(rg, o);
    }
    if rg.p(5) && o.max_nt >= 5 {
        return islands(rg, o);
    }
    let profile = rg.r(0, 11);
    if profile == 10 || profile == 8 {
        return chain(rg, o);
    }
    if profile == 11 && o.max_t >= 3 {
        return wide(rg, o);
    }
    let (nt, t, nr, lens, pnt): (usize, usize, usize, &[usize], usize) = match profile {
        // small and dense
        0 | 1 => (rg.r(1, 3), rg.r(1, 2), rg.r(1, 6), &[0, 1, 1, 2, 2, 2, 3], 50),
        // many nullable symbols
        2 | 3 => (rg.r(2, 5), rg.r(1, 2), rg.r(3, 10), &[0, 0, 1, 2, 2, 3, 4], 75),
        // unit rules and cycles
        4 | 5 => (rg.r(2, 6), rg.r(1, 2), rg.r(3, 12), &[1, 1, 1, 1, 2, 0], 75),
        // long right-hand sides
        6 => (rg.r(1, 3), rg.r(1, 3), rg.r(1, 5), &[0, 1, 3, 4, 5, 6, 7, 9, 12], 40),
        // unproductive / unreachable parts likely
        7 => (rg.r(3, 7), rg.r(1, 2), rg.r(3, 9), &[1, 2, 2, 3], 70),
        // bigger
        _ => (rg.r(3, 7), rg.r(2, 4), rg.r(6, 16), &[0, 1, 1, 2, 2, 3, 3, 4], 50),
    };
    let nt = nt.min(o.max_nt);
    let t = t.min(o.max_t);
    let nr = nr.min(o.max_rules);
    let extra = if o.pad && rg.p(20) {
        match rg.r(0, 3) {
            0 => rg.r(20, 40),
            1 => rg.r(55, 70),
            2 => rg.r(90, 135),
            _ => rg.r(1, 10),
        }
    } else if rg.p(30) {
        rg.r(1, 3)
    } else {
        0
    };
    let n = nt + t + extra;
    let perm = rg.perm(n);
    let nts: Vec<usize> = perm[..nt].to_vec();
    let ts: Vec<usize> = perm[nt..nt + t].to_vec();
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    for i in 0..nr {
        // most nonterminals get a rule
        let l = if i < nt && rg.p(85) { nts[i] } else { *rg.pick(&nts) };
        let mut len = *rg.pick(lens);
        if !o.long {
            len = len.min(3);
        }
        let r: Vec<usize> =
            (0..len).map(|_| if rg.p(pnt) { *rg.pick(&nts) } else { *rg.pick(&ts) }).collect();
        rules.push((l, r));
    }
    if rg.p(25) {
        let k = rg.r(0, rules.len() - 1);
        let d = rules[k].clone();
        rules.push(d);
    }
    rg.shuffle(&mut rules);
    let mut roots = vec![];
    if o.roots {
        let k = if rg.p(70) { 1 } else { rg.r(2, 3).min(nts.len()) };
        let p = rg.perm(nts.len());
        roots = p[..k].iter().map(|&i| nts[i]).collect();
        if rg.p(6) {
            // a root listed twice
            let r = *rg.pick(&roots);
            roots.push(r);
        }
    }
    G { n, nts, ts, rules, roots, weights: o.weights, names: o.names }
}

/// The grammar of C that comes with the repository: about 200 rules and 150 symbols.
/// With `vary`, a changed copy of it.
pub fn example(rg: &mut Rg, o: &Opt, vary: bool) -> G {
    let c = cfg_examples::c::grammar();
    let n = c.num_syms();
    let mut rules: Vec<(usize, Vec<usize>)> =
        c.rules().map(|r| (r.lhs.usize(), r.rhs.iter().map(|x| x.usize()).collect())).collect();
    if vary {
        let p = rg.perm(n);
        let out = *rg.pick(&[0, 2, 10, 30]);
        rules.retain(|_| !rg.p(out));
        for _ in 0..rg.r(0, 8) {
            let len = *rg.pick(&[0, 0, 1, 1, 2, 3]);
            let l = rules[rg.r(0, rules.len() - 1)].0;
            rules.push((l, (0..len).map(|_| rg.r(0, n - 1)).collect()));
        }
        for r in &mut rules {
            r.0 = p[r.0];
            r.1.iter_mut().for_each(|x| *x = p[*x]);
        }
        match rg.r(0, 2) {
            0 => rules.reverse(),
            1 => rg.shuffle(&mut rules),
            _ => {}
        }
    }
    let nts: Vec<usize> = (0..n).filter(|i| rules.iter().any(|r| r.0 == *i)).collect();
    let ts = (0..n).filter(|i| !nts.contains(i)).collect();
    let roots = match (o.roots, vary) {
        (false, _) => vec![],
        (_, false) => c.roots().iter().map(|x| x.usize()).collect(),
        _ => (0..rg.r(1, 3)).map(|_| *rg.pick(&nts)).collect(),
    };
    G { n, nts, ts, rules, roots, weights: o.weights, names: o.names }
}

pub fn from_case(c: &J) -> G {
    let rules: Vec<(usize, Vec<usize>)> =
        c.at("rules").arr().iter().map(|r| (r.at("l").us(), r.at("r").ints())).collect();
    let n = c.at("n").us();
    let nts: Vec<usize> = (0..n).filter(|i| rules.iter().any(|r| r.0 == *i)).collect();
    let ts = (0..n).filter(|i| !nts.contains(i)).collect();
    let roots = c.get("roots").map_or(vec![], |x| x.ints());
    G { n, nts, ts, rules, roots, weights: false, names: false }
}

pub const NAMES: &[&str] =
    &["expr", "a", "b", "start", "x1", "~", "term", "\u{e9}t\u{e9}", "~", "g3", "root", "~", "c", "a", ""];

pub fn names(rg: &mut Rg, n: usize) -> J {
    J::A((0..n).map(|_| J::S(rg.pick(NAMES).to_string())).collect())
}

impl G {
    pub fn init(&self, rg: &mut Rg) -> J {
        let rules: Vec<J> = self
            .rules
            .iter()
            .enumerate()
            .map(|(i, (l, r))| {
                let mut x = J::obj().with("l", *l).with("r", r.clone()).with("o", i + 100);
                if self.weights && rg.p(60) {
                    x = x.with("w", rg.r(0, 5000));
                }
                x
            })
            .collect();
        let mut op = J::obj().with("op", "init").with("n", self.n).with("rules", J::A(rules));
        op = op.with("roots", self.roots.clone());
        if self.names {
            op = op.with("names", names(rg, self.n));
        }
        op
    }
    pub fn sym(&self, rg: &mut Rg) -> usize {
        rg.r(0, self.n - 1)
    }
    pub fn used(&self) -> Vec<usize> {
        let mut v: Vec<usize> = vec![];
        for (l, r) in &self.rules {
            v.push(*l);
            v.extend(r.iter().copied());
        }
        v.sort();
        v.dedup();
        v
    }
}
