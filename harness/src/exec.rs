//! Interpreter: executes one operation (a JSON object) against the real code and returns the event
//! (the operation's fields + `post` snapshot + `res`).
use std::borrow::Cow;
use std::collections::BTreeMap;

use cfg_classify::CfgClassifyExt;
use cfg_classify::cyclical::Cycles;
use cfg_classify::ll::{LlNonterminalClass, LlParseTable};
use cfg_classify::lr::{Lr0ClosureBuilder, Lr0FsmBuilder, Lr0Item, Lr0Items};
use cfg_classify::useful::Usefulness;
use cfg_grammar::precedenced_rule::Associativity;
use cfg_grammar::{Cfg, CfgRule, RhsPropertyMode, SymbolBitSet};
use cfg_history::earley::History;
use cfg_history::earley::rule_dot::RuleDot;
use cfg_history::{HistoryNodeBinarize, HistoryNodeWeight, LinkedHistoryNode, RootHistoryNode};
use cfg_predict_distance::{DistanceDirection, MinimalDistance};
use cfg_predict_sets::{CfgSetsExt, FirstSets, LastSets, PerSymbolSets, PredictSets};
use cfg_sequence::destination::SequenceDestination;
use cfg_sequence::{CfgSequenceExt, Separator};
use cfg_symbol::intern::Mapping;
use cfg_symbol::{Symbol, SymbolSource};
use cfg_symbol_bit_matrix::{CfgRemapSymbolsExt, CfgSymbolBitMatrixExt, SymbolBitMatrix};

use crate::json::J;

pub struct Sess {
    pub cfg: Cfg,
    pub names: bool,
}

pub fn sy(i: usize) -> Symbol {
    thread_local! {
        static S: Vec<Symbol> = SymbolSource::generate_fresh().take(4096).collect();
    }
    S.with(|s| s[i])
}
pub fn sys(v: &[usize]) -> Vec<Symbol> {
    v.iter().map(|&i| sy(i)).collect()
}
fn js(s: &[Symbol]) -> J {
    J::A(s.iter().map(|x| x.usize().into()).collect())
}

pub fn hist(op: &J) -> History {
    let o = op.get("o").map_or(0, |x| x.int());
    let root: RootHistoryNode = if o >= 0 {
        RootHistoryNode::Origin { origin: o as usize }
    } else {
        RootHistoryNode::NoOp
    };
    let w = op.get("w").map_or(-1, |x| x.int());
    let h: History = root.into();
    let mut h = if w >= 0 {
        HistoryNodeWeight { prev: h, weight: w as f64 / 1000.0 }.into()
    } else {
        h
    };
    if let Some(u) = op.get("u") {
        let u = u.ints();
        h.nullable = Some((sy(u[0]), u[1] == 1));
    }
    if let Some(d) = op.get("d") {
        for (k, d) in d.arr().iter().enumerate() {
            let d: Vec<i64> = d.arr().iter().map(|x| x.int()).collect();
            let mut dot = RuleDot::new(d[0] as u32, d[1] as u32);
            dot.event.id = d[2] as u32;
            dot.distance.distance = d[3] as u32;
            h.dots[k] = dot;
        }
    }
    h
}

thread_local! {
    /// whether the dots of rules are recorded
    static DOTS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn null(x: u32) -> J {
    if x == !0 { J::I(-1) } else { J::I(x as i64) }
}
/// what a dot traces to, its event and distance
fn jdot(d: RuleDot) -> J {
    let t = J::parse(&miniserde::json::to_string(&d.trace()));
    let (e, m) = d.event_and_distance();
    if e != d.event() || m != d.distance() {
        return J::A(vec![J::I(-9)]);
    }
    J::A(vec![null(t.at("id").int() as u32), null(t.at("pos").int() as u32), J::I(e.id as i64), null(m.distance)])
}

pub fn jrule(r: &CfgRule) -> J {
    let o = J::obj()
        .with("l", r.lhs.usize())
        .with("r", js(&r.rhs))
        .with("o", if r.history.origin().is_null() { -1i64 } else { r.history.origin().id as i64 })
        .with("w", r.history.weight.map_or(-1, |x| x as i64))
        .with(
            "u",
            match r.history.nullable() {
                None => J::A(vec![]),
                Some((s, right)) => J::A(vec![s.usize().into(), (right as i64).into()]),
            },
        );
    if DOTS.with(|d| d.get()) {
        o.with("d", J::A((0..3).map(|k| jdot(r.history.dot(k))).collect()))
    } else {
        o
    }
}
pub fn jnames(src: &SymbolSource) -> J {
    J::A(src
        .names()
        .iter()
        .map(|n| J::S(n.as_ref().map_or("~".to_string(), |n| n.to_string())))
        .collect())
}
pub fn snap(cfg: &Cfg, names: bool) -> J {
    let mut o = J::obj()
        .with("n", cfg.num_syms())
        .with("rules", J::A(cfg.rules().map(jrule).collect()))
        .with("roots", js(cfg.roots()))
        .with(
            "wr",
            J::A(cfg
                .wrapped_roots()
                .iter()
                .map(|w| js(&[w.root, w.start_of_input, w.inner_root, w.end_of_input]))
                .collect()),
        );
    if names {
        o = o.with("names", jnames(cfg.sym_source()));
    }
    o
}
fn plain(r: &CfgRule) -> J {
    J::obj().with("l", r.lhs.usize()).with("r", js(&r.rhs))
}
/// Everything an analysis of cycles says.
fn cycles<G: std::borrow::Borrow<Cfg>>(c: &mut Cycles<G>) -> J {
    let free = c.cycle_free();
    let cls: Vec<J> = c.classify().map(|(r, b)| plain(r).with("c", b)).collect();
    let yes: Vec<J> = c.cycle_participants(true).map(plain).collect();
    let no: Vec<J> = c.cycle_participants(false).map(plain).collect();
    J::obj()
        .with("free", free)
        .with("cls", J::A(cls))
        .with("yes", J::A(yes))
        .with("no", J::A(no))
}
fn bits(s: &SymbolBitSet) -> J {
    J::A(s.iter().map(|x| x.usize().into()).collect())
}
fn psets(s: &PerSymbolSets) -> J {
    J::A(s
        .iter()
        .map(|(k, v)| {
            J::obj()
                .with("s", k.usize())
                .with("e", v.has_none())
                .with("t", js(&v.list))
        })
        .collect())
}
fn rows(m: &SymbolBitMatrix, n: usize) -> J {
    J::A((0..n)
        .map(|i| J::A(m.iter_row_syms(sy(i)).map(|s| s.usize().into()).collect()))
        .collect())
}
/// the same relation, read through indexing
fn rows_ix(m: &SymbolBitMatrix, n: usize) -> J {
    J::A((0..n)
        .map(|i| {
            J::A((0..n)
                .filter(|&j| m[(sy(i), sy(j))])
                .map(|j| j.into())
                .collect())
        })
        .collect())
}
pub fn jmap(m: &Mapping) -> J {
    J::obj()
        .with(
            "ti",
            J::A(m
                .to_internal
                .iter()
                .map(|x| x.map_or(J::I(-1), |s| s.usize().into()))
                .collect()),
        )
        .with("te", js(&m.to_external))
}
fn mkmap(j: &J) -> Mapping {
    Mapping {
        to_internal: j
            .at("ti")
            .arr()
            .iter()
            .map(|x| if x.int() < 0 { None } else { Some(sy(x.us())) })
            .collect(),
        to_external: j.at("te").arr().iter().map(|x| sy(x.us())).collect(),
    }
}
fn opt(x: Option<u32>) -> J {
    x.map_or(J::I(-1), |v| J::I(v as i64))
}
fn name_arg(j: &J) -> Option<Cow<'static, str>> {
    match j.str() {
        "~" => None,
        s => Some(Cow::Owned(s.to_string())),
    }
}
fn jitems(it: &Lr0Items) -> J {
    J::A(it
        .map
        .iter()
        .map(|(id, x)| J::A(vec![(*id as i64).into(), (x.dot as i64).into(), js(&x.rhs)]))
        .collect())
}
fn mkitems(cfg: &Cfg, j: &J) -> Lr0Items {
    let rules: Vec<_> = cfg.rules().cloned().collect();
    let mut map = BTreeMap::new();
    for it in j.arr() {
        let id = it.arr()[0].us();
        map.insert(
            id as u32,
            Lr0Item { rhs: rules[id].rhs.to_vec(), dot: it.arr()[1].int() as u32 },
        );
    }
    Lr0Items { map }
}
fn add(cfg: &mut Cfg, op: &J) -> i64 {
    let l = sy(op.at("l").us());
    let r = sys(&op.at("r").ints());
    let how = op.get("how").map_or("b", |x| x.str());
    match how {
        // builder with a history
        "b" => {
            cfg.rule(l).history(hist(op)).rhs(&r);
            -1
        }
        // builder without a history
        "p" => {
            cfg.rule(l).rhs(&r);
            -1
        }
        // add_rule
        "a" => cfg.add_rule(CfgRule::new(l, &r, hist(op))) as i64,
        // rhs_with_history
        "h" => {
            cfg.rule(l).rhs_with_history(&r, hist(op));
            -1
        }
        // weight through a linked node
        "l" => {
            let w = op.at("w").int() as f64 / 1000.0;
            cfg.rule(l)
                .rhs_with_linked_history(&r, LinkedHistoryNode::Weight { weight: w });
            -1
        }
        _ => panic!("HARNESS: how {how}"),
    }
}
pub fn build(init: &J) -> Cfg {
    let mut cfg = Cfg::new();
    let n = init.at("n").us();
    for i in 0..n {
        let name = init.get("names").and_then(|v| v.arr().get(i).and_then(name_arg));
        cfg.next_sym(name);
    }
    for r in init.at("rules").arr() {
        add(&mut cfg, r);
    }
    if let Some(r) = init.get("roots") {
        cfg.set_roots(sys(&r.ints()));
    }
    cfg
}
fn sep_of(op: &J) -> Separator {
    let s = || sy(op.at("sep").us());
    match op.at("mode").str() {
        "null" => Separator::Null,
        "proper" => Separator::Proper(s()),
        "trailing" => Separator::Trailing(s()),
        "liberal" => Separator::Liberal(s()),
        m => panic!("HARNESS: mode {m}"),
    }
}
fn sequence_of(op: &J) -> cfg_sequence::Sequence {
    let end = op.at("e").int();
    cfg_sequence::Sequence {
        lhs: sy(op.at("l").us()),
        rhs: sy(op.at("x").us()),
        start: op.at("s").int() as u32,
        end: if end < 0 { None } else { Some(end as u32) },
        separator: sep_of(op),
        history: op.get("o").map(|_| hist(op)),
    }
}
/// The same, by the methods of a sequence.
fn sequence_by_methods(op: &J) -> cfg_sequence::Sequence {
    let end = op.at("e").int();
    let start = op.at("s").int() as u32;
    let q = cfg_sequence::Sequence {
        start: start + 3,
        end: None,
        separator: Separator::Null,
        ..sequence_of(op)
    };
    let q = if op.at("form").str() == "smeth" {
        q.inclusive(start, if end < 0 { None } else { Some(end as u32) })
    } else if end < 0 {
        q.range(start..)
    } else if start == 0 {
        q.range(..=end as u32)
    } else {
        q.range((std::ops::Bound::Excluded(start - 1), std::ops::Bound::Excluded(end as u32 + 1)))
    };
    q.separator(sep_of(op))
}
/// One sequence on a builder whose left-hand side is set.
fn seq_call<D: cfg_sequence::destination::SequenceDestination>(
    b: cfg_sequence::builder::SequenceRuleBuilder<D>,
    op: &J,
) -> cfg_sequence::builder::SequenceRuleBuilder<D> {
    use std::ops::Bound::{Excluded, Included, Unbounded};
    let start = op.at("s").int() as u32;
    let end = op.at("e").int();
    let x = sy(op.at("x").us());
    let b = match (op.at("form").str(), sep_of(op)) {
        ("inter", Separator::Proper(p)) => b.intersperse(p),
        (_, Separator::Null) => b,
        (_, p) => b.separator(p),
    };
    let b = if op.get("o").is_some() { b.history(hist(op)) } else { b };
    let top = if end < 0 { Unbounded } else { Included(end as u32) };
    match op.at("form").str() {
        "range" => {
            if end < 0 {
                b.range(start..).rhs(x)
            } else {
                b.range(start..end as u32 + 1).rhs(x)
            }
        }
        "rangei" => {
            if end < 0 {
                b.rhs_with_range(x, start..)
            } else {
                b.rhs_with_range(x, start..=end as u32)
            }
        }
        "to" if start == 0 => {
            if end < 0 {
                b.range(..).rhs(x)
            } else {
                b.range(..=end as u32).rhs(x)
            }
        }
        "tox" if start == 0 && end >= 0 => b.rhs_with_range(x, ..end as u32 + 1),
        "exs" if start > 0 => b.range((Excluded(start - 1), top)).rhs(x),
        "exx" if start > 0 && end >= 0 => b.range((Excluded(start - 1), Excluded(end as u32 + 1))).rhs(x),
        "hist" => {
            let h = op.get("o").map(|_| hist(op));
            b.range((Included(start), top)).rhs_with_history(x, h)
        }
        _ => b.inclusive(start, if end < 0 { None } else { Some(end as u32) }).rhs(x),
    }
}
fn roots_arg(op: &J) -> Option<Vec<Symbol>> {
    op.get("roots").map(|r| sys(&r.ints()))
}
fn usefulness(cfg: &mut Cfg, op: &J) -> Usefulness {
    let mut u = match roots_arg(op) {
        Some(r) => cfg.usefulness_with_roots(&r),
        None => cfg.usefulness(),
    };
    // further roots, in several calls
    if let Some(more) = op.get("more") {
        for r in more.arr() {
            u.reachable(r.ints().into_iter().map(sy).collect::<Vec<_>>());
        }
    }
    u
}

/// Returns (result, does the grammar state change / is to be logged)
pub fn step(s: &mut Sess, op: &J) -> (Option<J>, bool) {
    let cfg = &mut s.cfg;
    match op.op() {
        "init" => {
            s.names = op.get("names").is_some();
            DOTS.with(|d| d.set(op.get("dots").is_some()));
            s.cfg = build(op);
            (None, true)
        }
        "sym" => {
            let names: Vec<Option<Cow<'static, str>>> =
                op.at("names").arr().iter().map(name_arg).collect();
            let res: Vec<Symbol> = match op.at("how").str() {
                "next" => names.into_iter().map(|x| cfg.next_sym(x)).collect(),
                "src" => names.into_iter().map(|x| cfg.sym_source_mut().next_sym(x)).collect(),
                "lexeme" => names.into_iter().map(|x| cfg.lexeme(x)).collect(),
                "sym" => match names.len() {
                    1 => cfg.sym::<1>().to_vec(),
                    2 => cfg.sym::<2>().to_vec(),
                    3 => cfg.sym::<3>().to_vec(),
                    _ => cfg.sym::<7>().to_vec(),
                },
                "ssym" => match names.len() {
                    1 => cfg.sym_source_mut().sym::<1>().to_vec(),
                    2 => cfg.sym_source_mut().sym::<2>().to_vec(),
                    3 => cfg.sym_source_mut().sym::<3>().to_vec(),
                    _ => cfg.sym_source_mut().sym::<7>().to_vec(),
                },
                "gen" => {
                    let k = names.len();
                    cfg.sym_source_mut().generate().take(k).collect()
                }
                "named" => {
                    let mut it = names.into_iter();
                    match it.len() {
                        1 => cfg.sym_source_mut().with_names([it.next().unwrap()]).to_vec(),
                        2 => cfg
                            .sym_source_mut()
                            .with_names([it.next().unwrap(), it.next().unwrap()])
                            .to_vec(),
                        _ => cfg
                            .sym_source_mut()
                            .with_names([it.next().unwrap(), it.next().unwrap(), it.next().unwrap()])
                            .to_vec(),
                    }
                }
                h => panic!("HARNESS: how {h}"),
            };
            (Some(js(&res)), true)
        }
        "truncate" => {
            cfg.sym_source_mut().truncate(op.at("k").us());
            (None, true)
        }
        "names" => {
            // every way of reading names
            let src = cfg.sym_source();
            let n = cfg.num_syms();
            let disp: Vec<J> = (0..n + 2).map(|i| J::S(src.name_of(sy(i)).to_string())).collect();
            let orig: Vec<J> = (0..n + 2)
                .map(|i| J::S(src.original_name_of(sy(i)).unwrap_or("~").to_string()))
                .collect();
            let map = src.name_map();
            let mut m: Vec<(String, usize)> =
                map.iter().map(|(k, v)| (k.to_string(), v.usize())).collect();
            m.sort();
            let m = J::A(m
                .into_iter()
                .map(|(k, v)| J::A(vec![J::S(k), v.into()]))
                .collect());
            (
                Some(
                    J::obj()
                        .with("disp", J::A(disp))
                        .with("orig", J::A(orig))
                        .with("map", m)
                        .with("n", src.num_syms()),
                ),
                false,
            )
        }
        "rule" => {
            let r = add(cfg, op);
            (Some(J::I(r)), true)
        }
        "rules" => {
            // several alternatives through one builder chain
            let mut b = cfg.rule(sy(op.at("l").us()));
            for a in op.at("alts").arr() {
                if a.get("nl").is_some() {
                    if a.get("lost").is_some() {
                        // a history given before a new rule is started
                        b = b.history(History::new(a.at("lost").us() as u32));
                    }
                    b = b.rule(sy(a.at("nl").us()));
                }
                let r = sys(&a.at("r").ints());
                if a.get("o").is_some() {
                    b = b.history(hist(a));
                }
                b = b.rhs(&r);
            }
            drop(b);
            (None, true)
        }
        "extend" => {
            let mut other = Cfg::with_sym_source(cfg.sym_source().clone());
            for r in op.at("rules").arr() {
                add(&mut other, r);
            }
            cfg.extend(&other);
            (None, true)
        }
        "clear" => {
            cfg.clear_rules();
            (None, true)
        }
        "retain" => {
            let (m, k) = (op.at("m").us(), op.at("k").us());
            cfg.retain(|r| (r.lhs.usize() + r.rhs.len() + r.rhs.iter().map(|s| s.usize()).sum::<usize>()) % m != k);
            (None, true)
        }
        "sort" => {
            cfg.sort();
            (None, true)
        }
        "sortby" => {
            match op.at("key").str() {
                "len" => cfg.sort_by(|a, b| a.rhs.len().cmp(&b.rhs.len())),
                "lenrev" => cfg.sort_by(|a, b| b.rhs.len().cmp(&a.rhs.len())),
                _ => cfg.sort_by(|a, b| b.lhs.cmp(&a.lhs)),
            }
            (None, true)
        }
        "dedup" => {
            cfg.dedup();
            (None, true)
        }
        "reverse" => {
            cfg.reverse();
            (None, true)
        }
        "clone" => {
            let c = cfg.clone();
            s.cfg = c;
            (None, true)
        }
        "rootsrev" => {
            let r: Vec<Symbol> = cfg.roots().iter().copied().rev().collect();
            cfg.set_roots(&r[..]);
            (None, true)
        }
        "roots" => {
            cfg.set_roots(sys(&op.at("v").ints()));
            (Some(J::B(cfg.has_roots())), true)
        }
        "wrap" => {
            cfg.wrap_input();
            (None, true)
        }
        "empty" => (Some(J::B(cfg.is_empty())), false),
        "equiv" => {
            let other = build(op);
            (Some(J::A(vec![J::B(cfg.equivalent(&other)), J::B(other.equivalent(cfg))])), false)
        }
        "equivcopy" => {
            // compare with a copy that was changed in one place
            let mut rules: Vec<CfgRule> = cfg.rules().cloned().collect();
            let x = sy(op.at("x").us());
            let at = op.at("at").us();
            let n = rules.len();
            match op.at("mut").str() {
                "none" => {}
                "add" => rules.push(CfgRule::new(x, [], RootHistoryNode::NoOp.into())),
                _ if n == 0 => {}
                "drop" => {
                    rules.remove(at % n);
                }
                "droplast" => {
                    rules.pop();
                }
                "sym" => {
                    let r = &mut rules[at % n];
                    let mut v = r.rhs.to_vec();
                    if !v.is_empty() {
                        let k = at % v.len();
                        v[k] = x;
                    }
                    r.rhs = v.into();
                }
                "short" => {
                    let r = &mut rules[at % n];
                    let mut v = r.rhs.to_vec();
                    v.pop();
                    r.rhs = v.into();
                }
                "long" => {
                    let r = &mut rules[at % n];
                    let mut v = r.rhs.to_vec();
                    v.push(x);
                    r.rhs = v.into();
                }
                "lhs" => rules[at % n].lhs = x,
                "hist" => rules[at % n].history = RootHistoryNode::Origin { origin: 4321 }.into(),
                "swap" => rules.swap(0, at % n),
                m => panic!("HARNESS: {m}"),
            }
            let mut other = Cfg::with_sym_source(cfg.sym_source().clone());
            for r in rules {
                other.add_rule(r);
            }
            let o = J::A(other.rules().map(plain).collect());
            (
                Some(
                    J::obj()
                        .with("other", o)
                        .with("ab", cfg.equivalent(&other))
                        .with("ba", other.equivalent(cfg)),
                ),
                false,
            )
        }
        "narrow" => {
            fn go<T: cfg_symbol::SymbolPrimitive>(a: usize, t: usize, b: usize) -> J {
                let mut src = SymbolSource::<T>::new();
                let x: Vec<usize> = (0..a).map(|i| src.next_sym(Some(format!("n{i}").into())).usize()).collect();
                let na = src.num_syms();
                src.truncate(t);
                let nt = src.num_syms();
                let y: Vec<usize> = src.generate().take(b).map(|s| s.usize()).collect();
                J::obj()
                    .with("x", x)
                    .with("y", y)
                    .with("n", vec![na, nt, src.num_syms()])
                    .with("names", src.names().iter().map(|n| n.as_ref().map_or("~".to_string(), |n| n.to_string())).collect::<Vec<_>>())
            }
            let (a, t, b) = (op.at("a").us(), op.at("t").us(), op.at("b").us());
            let r = match op.at("ty").str() {
                "u8" => go::<std::num::NonZeroU8>(a, t, b),
                "u16" => go::<std::num::NonZeroU16>(a, t, b),
                _ => go::<std::num::NonZeroU32>(a, t, b),
            };
            (Some(r), false)
        }
        "binhist" => {
            let h: History = HistoryNodeBinarize {
                prev: hist(op),
                height: op.at("h").us() as u32,
                full_len: op.at("len").us(),
                is_top: op.at("top").int() == 1,
            }
            .into();
            let o = if h.origin().is_null() { -1 } else { h.origin().id as i64 };
            let d = J::A((0..3).map(|k| jdot(h.dot(k))).collect());
            (Some(J::obj().with("o", o).with("w", h.weight.map_or(-1, |x| x as i64)).with("d", d)), false)
        }
        "coldots" => {
            let c: Vec<J> = cfg.column(op.at("k").us()).map(|d| d.earley.map_or(J::A(vec![]), jdot)).collect();
            (Some(J::A(c)), false)
        }
        "column" => {
            let c: Vec<J> = cfg
                .column(op.at("k").us())
                .map(|d| {
                    J::A(vec![
                        d.lhs.usize().into(),
                        d.predot.map_or(J::I(-1), |x| x.usize().into()),
                        d.postdot.map_or(J::I(-1), |x| x.usize().into()),
                    ])
                })
                .collect();
            (Some(J::A(c)), false)
        }
        "limit" => {
            let k = op.at("k").int();
            cfg.limit_rhs_len(if k < 0 { None } else { Some(k as usize) });
            (None, true)
        }
        "elim" => {
            let nul = cfg.binarize_and_eliminate_nulling_rules();
            (Some(snap(&nul, s.names)), true)
        }
        "cyc" => (Some(cycles(&mut Cycles::new(&*cfg))), false),
        "cycrm" | "cycrw" => {
            let mut c = Cycles::new(&mut *cfg);
            if op.get("q").is_some() {
                c.cycle_free();
            }
            if op.op() == "cycrm" { c.remove_cycles() } else { c.rewrite_cycles() }
            (Some(cycles(&mut c)), true)
        }
        "useful" => {
            let u = usefulness(cfg, op);
            let prod: Vec<J> = (0..cfg.num_syms())
                .filter(|&i| u.productivity(sy(i)))
                .map(|i| i.into())
                .collect();
            let per: Vec<J> = cfg
                .rules()
                .map(|r| {
                    let x = u.usefulness(r);
                    J::A(vec![
                        J::B(x.usefulness().reachable),
                        J::B(x.usefulness().productive),
                        plain(x.rule()),
                    ])
                })
                .collect();
            let useless: Vec<J> = u
                .useless_rules(cfg)
                .map(|x| {
                    plain(x.rule())
                        .with("a", x.usefulness().reachable)
                        .with("p", x.usefulness().productive)
                })
                .collect();
            (
                Some(
                    J::obj()
                        .with("prod", J::A(prod))
                        .with("per", J::A(per))
                        .with("useless", J::A(useless))
                        .with("all", vec![u.all_useful(), u.all_productive(), u.all_reachable()]),
                ),
                false,
            )
        }
        "rmuseless" => {
            let u = usefulness(cfg, op);
            u.remove_useless_rules(cfg);
            (None, true)
        }
        "proper" => {
            let r = cfg.make_proper();
            (Some(J::B(r)), true)
        }
        "remap" => {
            let mut r = cfg.remap();
            for st in op.at("steps").arr() {
                match st.at("t").str() {
                    "reorder" => {
                        let (a, b, m) = (st.at("a").us(), st.at("b").us(), st.at("m").us());
                        let k = |s: Symbol| (s.usize() * a + b) % m;
                        r.reorder_symbols(|x, y| k(x).cmp(&k(y)));
                    }
                    "unused" => r.remove_unused_symbols(),
                    "map" => {
                        let k = st.at("map").ints();
                        r.remap_symbols(|a| sy(k[a.usize()]));
                    }
                    x => panic!("HARNESS: {x}"),
                }
            }
            let m = r.get_mapping();
            (Some(jmap(&m)), true)
        }
        "translate" => {
            let mut a = mkmap(op.at("a"));
            let b = mkmap(op.at("b"));
            a.translate(&b);
            (Some(jmap(&a)), false)
        }
        "seq" => {
            let l = sy(op.at("l").us());
            if op.at("form").str() == "direct" {
                let mut r = cfg_sequence::rewrite::SequencesToProductions::new(cfg);
                r.rewrite(sequence_of(op));
                return (None, true);
            }
            if matches!(op.at("form").str(), "smeth" | "srange") {
                let mut r = cfg_sequence::rewrite::SequencesToProductions::new(cfg);
                r.add_sequence(sequence_by_methods(op));
                return (None, true);
            }
            let b = cfg.sequence(l);
            seq_call(b, op);
            (None, true)
        }
        "seqs" => {
            // several sequences through one builder or one list
            let list = op.at("list").arr();
            if op.get("vec").is_some() {
                let mut v: Vec<cfg_sequence::Sequence> = vec![];
                if op.at("vec").int() == 1 {
                    let mut b = cfg_sequence::builder::SequenceRuleBuilder::new(&mut v);
                    for q in list {
                        b = seq_call(b.sequence(sy(q.at("l").us())), q);
                    }
                    drop(b);
                } else {
                    for q in list {
                        drop(seq_call((&mut v).sequence(sy(q.at("l").us())), q));
                    }
                }
                let mut r = cfg_sequence::rewrite::SequencesToProductions::new(cfg);
                for q in v {
                    r.rewrite(q);
                }
            } else {
                let mut b = cfg.sequence(sy(list[0].at("l").us()));
                for (k, q) in list.iter().enumerate() {
                    if k > 0 {
                        b = b.sequence(sy(q.at("l").us()));
                    }
                    b = seq_call(b, q);
                }
            }
            (None, true)
        }
        "prec" => {
            // prog: [["rhs", [syms], o], ["assoc", "L"|"R"|"G"], ["lower"]], chained builders via ["next", lhs]
            let mut b = cfg.precedenced_rule(sy(op.at("l").us()));
            for i in op.at("prog").arr() {
                let a = i.arr();
                match a[0].str() {
                    "rhs" => {
                        let r = sys(&a[1].ints());
                        if a.len() > 3 {
                            b = b.rhs_with_history(&r, RootHistoryNode::Origin { origin: a[2].us() }.into());
                        } else {
                            if a.len() > 2 {
                                b = b.history(RootHistoryNode::Origin { origin: a[2].us() }.into());
                            }
                            b = b.rhs(&r);
                        }
                    }
                    "assoc" => {
                        b = b.associativity(match a[1].str() {
                            "L" => Associativity::Left,
                            "R" => Associativity::Right,
                            _ => Associativity::Group,
                        })
                    }
                    "lower" => b = b.lower_precedence(),
                    "next" => b = b.precedenced_rule(sy(a[1].us())),
                    x => panic!("HARNESS: {x}"),
                }
            }
            if let Some(t) = op.get("then") {
                // a plain rule through the same builder
                let a = t.arr();
                let h = RootHistoryNode::Origin { origin: a[2].us() }.into();
                drop(b.rule(sy(a[0].us())).rhs_with_history(sys(&a[1].ints()), h));
            } else {
                drop(b.finalize());
            }
            (None, true)
        }
        "sets" => {
            let n = cfg.num_syms();
            let mut used = SymbolBitSet::new();
            used.used(cfg);
            // one set that is filled again and again
            let mut again = SymbolBitSet::new();
            let mut chain = vec![];
            for k in 0..8 {
                match k {
                    0 | 7 => again.used(cfg),
                    1 => again.terminal(cfg),
                    2 => again.nulling(cfg),
                    3 => again.unused(cfg),
                    4 => again.productive(cfg),
                    5 => again.terminal(cfg),
                    _ => {
                        again.set_all(cfg.sym_source());
                        again.subtract_productive(cfg)
                    }
                }
                chain.push(bits(&again));
            }
            let mut unused2 = SymbolBitSet::new();
            unused2.unused(cfg);
            let mut term2 = SymbolBitSet::new();
            term2.terminal(cfg);
            let mut nul2 = SymbolBitSet::new();
            nul2.nulling(cfg);
            let mut lhs = SymbolBitSet::new();
            lhs.productive(cfg);
            let mut sub = SymbolBitSet::new();
            sub.subtract_productive(cfg);
            let r = J::obj()
                .with("term", bits(&cfg.terminal_symbols()))
                .with("term2", bits(&term2))
                .with("nul", bits(&cfg.nulling_symbols()))
                .with("nul2", bits(&nul2))
                .with("unused", bits(&cfg.unused_symbols()))
                .with("unused2", bits(&unused2))
                .with("used", bits(&used))
                .with("lhs", bits(&lhs))
                .with("sub", bits(&sub))
                .with("space", vec![used.space(), term2.space(), lhs.space()])
                .with("chain", J::A(chain))
                .with("n", n);
            (Some(r), false)
        }
        "matrix" => {
            let n = cfg.num_syms();
            let d: SymbolBitMatrix = cfg.direct_derivation_matrix().into();
            let re: SymbolBitMatrix = cfg.reachability_matrix().into();
            let re2: SymbolBitMatrix = cfg.direct_derivation_matrix().reachability().into();
            let rr: SymbolBitMatrix = cfg.reachability_matrix().reflexive().into();
            let u: SymbolBitMatrix = cfg.unit_derivation_matrix().into();
            let e = cfg.empty_matrix();
            let r = J::obj()
                .with("direct", rows(&d, n))
                .with("directx", rows_ix(&d, n))
                .with("reach", rows(&re, n))
                .with("reachx", rows_ix(&re2, n))
                .with("refl", rows(&rr, n))
                .with("unit", rows(&u, n))
                .with("unitx", rows_ix(&u, n))
                .with("empty", rows(&e, n))
                .with("by", {
                    // through the matrix types themselves
                    let mut m = cfg.direct_derivation_matrix();
                    m.transitive_closure();
                    let mut q = cfg.reachability_matrix();
                    q.reflexive_closure();
                    let mut un = cfg.unit_derivation_matrix();
                    un.transitive_closure();
                    J::A(vec![rows_ix(&m, n), rows(&q, n), rows_ix(&un, n)])
                })
                .with("rt", rows(&SymbolBitMatrix::try_from(bit_matrix::BitMatrix::from(re)).unwrap(), n))
                .with("odd", SymbolBitMatrix::try_from(bit_matrix::BitMatrix::new(n, n + 1)).is_err());
            (Some(r), false)
        }
        "bits" => {
            let n = op.at("n").us();
            let mut c = Cfg::new();
            for _ in 0..n {
                c.next_sym(None);
            }
            let mut b = SymbolBitSet::from_elem(&c, op.at("elem").us() != 0);
            let mut out = vec![];
            let st = |b: &SymbolBitSet| {
                let idx: Vec<J> =
                    (0..b.space()).filter(|&i| b[sy(i)]).map(|i| i.into()).collect();
                J::obj()
                    .with("m", bits(b))
                    .with("ix", J::A(idx))
                    .with("bv", J::A(b.bit_vec().iter().enumerate().filter(|x| x.1).map(|x| x.0.into()).collect()))
                    .with("iv", J::A(b.clone().into_bit_vec().iter().enumerate().filter(|x| x.1).map(|x| x.0.into()).collect()))
                    .with("all", b.all())
                    .with("empty", b.is_empty())
                    .with("space", b.space())
            };
            out.push(st(&b));
            for i in op.at("prog").arr() {
                let a = i.arr();
                match a[0].str() {
                    "set" => b.set(sy(a[1].us()), a[2].us() != 0),
                    "neg" => b.negate(),
                    "union" => {
                        let mut o = if b.space() < n { SymbolBitSet::new() } else { SymbolBitSet::from_elem(&c, false) };
                        o.reserve(b.space());
                        for x in a[1].ints() {
                            o.set(sy(x), true);
                        }
                        b.union(&o);
                    }
                    "reserve" => b.reserve(a[1].us()),
                    "reset" => b.reset(c.sym_source()),
                    "setall" => b.set_all(c.sym_source()),
                    "clone" => b = b.clone(),
                    "default" => b = SymbolBitSet::default(),
                    x => panic!("HARNESS: {x}"),
                }
                out.push(st(&b));
            }
            (Some(J::A(out)), false)
        }
        "first" => {
            let f = FirstSets::new(cfg);
            let f2 = cfg.first_sets();
            let strs: Vec<J> = op
                .at("strs")
                .arr()
                .iter()
                .map(|x| {
                    let v = f2.first_set_for_string(&sys(&x.ints()));
                    J::obj().with("e", v.has_none()).with("t", js(&v.list))
                })
                .collect();
            let l = LastSets::new(cfg);
            (
                Some(
                    J::obj()
                        .with("first", psets(f.predict_sets()))
                        .with("last", psets(l.predict_sets()))
                        .with("strs", J::A(strs)),
                ),
                false,
            )
        }
        "follow" => {
            let f = cfg.first_sets();
            let a = cfg.follow_sets_with_first(&f);
            let b = cfg.follow_sets();
            (
                Some(
                    J::obj()
                        .with("follow", psets(a.predict_sets()))
                        .with("follow2", psets(b.predict_sets())),
                ),
                false,
            )
        }
        "ll" => {
            let t = if op.get("ext").is_some() {
                cfg.ll_parse_table().classify()
            } else {
                LlParseTable::new(cfg).classify()
            };
            let c: Vec<J> = t
                .classes()
                .iter()
                .map(|(s, c)| {
                    J::A(vec![s.usize().into(), J::I((*c == LlNonterminalClass::ContextFree) as i64)])
                })
                .collect();
            (Some(J::A(c)), false)
        }
        "lrclos" => {
            let mut it = mkitems(cfg, op.at("items"));
            if op.get("ext").is_some() {
                cfg.lr0_closure_builder().closure(&mut it);
            } else {
                Lr0ClosureBuilder::new(cfg).closure(&mut it);
            }
            (Some(jitems(&it)), true)
        }
        "lradv" => {
            let it = mkitems(cfg, op.at("items"));
            let r = Lr0ClosureBuilder::new(cfg).advance(&it, sy(op.at("x").us()));
            (
                Some(J::obj().with("some", r.is_some()).with(
                    "items",
                    r.map_or(J::A(vec![]), |x| jitems(&x)),
                )),
                true,
            )
        }
        "lrfsm" => {
            let starts = op.at("s").ints();
            let mut b = if op.get("ext").is_some() { cfg.lr0_fsm_builder() } else { Lr0FsmBuilder::new(cfg) };
            let r: Vec<J> = starts
                .iter()
                .map(|&x| {
                    J::A(b
                        .make_lr0_fsm(sy(x))
                        .iter()
                        .map(|n| {
                            J::obj().with("items", jitems(&n.items)).with(
                                "link",
                                J::A(n
                                    .link
                                    .iter()
                                    .map(|(t, id)| J::A(vec![t.usize().into(), (*id as i64).into()]))
                                    .collect()),
                            )
                        })
                        .collect())
                })
                .collect();
            (Some(J::A(r)), true)
        }
        "rec" => {
            let rec = cfg.recursion();
            let f = |x: cfg_classify::recursive::RecursiveRule| {
                plain(x.rule)
                    .with("o", x.rule.history.origin().id)
                    .with("a", x.recursion.left)
                    .with("m", x.recursion.middle)
                    .with("z", x.recursion.right)
                    .with(
                        "d",
                        x.distances.map_or(J::A(vec![]), |(a, b)| {
                            let c = |v: usize| if v >= u32::MAX as usize { -1 } else { v as i64 };
                            J::A(vec![J::I(c(a)), J::I(c(b))])
                        }),
                    )
            };
            let a: Vec<J> = rec.recursive_rules().map(f).collect();
            let r = J::obj().with("rec", J::A(a));
            let r = if op.get("d").is_some() {
                let b: Vec<J> = rec.minimal_distances().map(f).collect();
                r.with("dist", J::A(b))
            } else {
                r
            };
            (Some(r), false)
        }
        "dist" => {
            let dots: Vec<(usize, usize)> = op
                .at("dots")
                .arr()
                .iter()
                .map(|d| (d.arr()[0].us(), d.arr()[1].us()))
                .collect();
            let dir = match op.at("dir").str() {
                "f" => DistanceDirection::Forward,
                "b" => DistanceDirection::Backward,
                _ => DistanceDirection::Symmetric,
            };
            let mut m = MinimalDistance::new(cfg);
            let r = m.minimal_distances(&dots, dir).to_vec();
            let r: Vec<J> = r
                .into_iter()
                .map(|v| J::A(v.into_iter().map(opt).collect()))
                .collect();
            (Some(J::A(r)), false)
        }
        "clos" => {
            let mut b = SymbolBitSet::from_elem(cfg, false);
            for x in op.at("set").ints() {
                b.set(sy(x), true);
            }
            match op.at("mode").str() {
                "all" => cfg.rhs_closure_for_all(&mut b),
                "any" => cfg.rhs_closure_for_any(&mut b),
                "All" => cfg.rhs_closure(&mut b, RhsPropertyMode::All),
                _ => cfg.rhs_closure(&mut b, RhsPropertyMode::Any),
            }
            (Some(bits(&b)), false)
        }
        "vals" => {
            let mut v: Vec<Option<u32>> = op
                .at("vals")
                .arr()
                .iter()
                .map(|x| if x.int() < 0 { None } else { Some(x.int() as u32) })
                .collect();
            // symbols that came later have no value
            v.resize(v.len().max(cfg.num_syms()), None);
            cfg.rhs_closure_with_values(&mut v);
            (Some(J::A(v.into_iter().map(opt).collect())), true)
        }
        _ => crate::exec2::step2(s, op),
    }
}
