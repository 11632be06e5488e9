//! Operations that are not about a grammar in memory: loading, regular expressions, generation, JSON.
use std::cell::RefCell;
use std::num::{NonZeroU8, NonZeroU16, NonZeroU32};
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use std::rc::Rc;

use cfg_generate::weighted::random::{ByteSource, GenRange, Limits, RandomGenError};
use cfg_generate::weighted::{NegativeRule, Random, Weight, WeightedRhsByLhs};
use cfg_grammar::{Cfg, NamedCfgRule, SymbolBitSet, named_cfg_rule};
use cfg_history::earley::rule_dot::RuleDot;
use cfg_history::earley::{EventId, ExternalOrigin, MinimalDistance};
use cfg_load::{CfgLoadAdvancedExt, CfgLoadExt, LoadError};
use cfg_regexp_logic::{CfgRegexpExt, LexerClasses, LexerMap};
use cfg_symbol::intern::Mapping;
use cfg_symbol::{Symbol, SymbolName, SymbolPrimitive, SymbolSource};
use miniserde::json;
use rand::SeedableRng;
use rand::rngs::SmallRng;
use regex_syntax::hir::{Class, ClassBytes, ClassBytesRange, ClassUnicode, ClassUnicodeRange};

use crate::exec::*;
use crate::json::J;

fn chr(c: usize) -> char {
    char::from_u32(c as u32).expect("HARNESS: not a character")
}
fn text(j: &J) -> String {
    j.ints().into_iter().map(chr).collect()
}
fn codes(s: &str) -> J {
    J::A(s.chars().map(|c| J::I(c as i64)).collect())
}
fn jsyms<'a>(s: impl IntoIterator<Item = &'a Symbol>) -> J {
    J::A(s.into_iter().map(|x| x.usize().into()).collect())
}
fn code_names(src: &SymbolSource) -> J {
    J::A(src.names().iter().map(|n| n.as_ref().map_or(J::A(vec![]), |n| codes(n))).collect())
}
fn jcfg(cfg: &Cfg) -> J {
    J::obj()
        .with("ok", true)
        .with("n", cfg.num_syms())
        .with("rules", J::A(cfg.rules().map(jrule).collect()))
        .with("roots", jsyms(cfg.roots()))
        .with("names", code_names(cfg.sym_source()))
}
fn failed() -> J {
    J::obj().with("ok", false)
}
/// A refusal with its place.
fn refused(e: LoadError) -> J {
    failed().with("at", vec![e.line as usize, e.col as usize])
}
fn gets(map: &LexerMap, al: &[usize]) -> J {
    J::A(al.iter().map(|&c| jsyms(map.get(chr(c)))).collect())
}

// ---------------------------------------------------------------- random sources

#[derive(Clone)]
enum Src {
    Tape(Rc<Vec<(usize, usize)>>, usize),
    Bytes(ByteSource<std::vec::IntoIter<u8>>),
    Small(SmallRng),
}
#[derive(Default)]
struct Log {
    draws: Vec<f64>,
    muts: Vec<u64>,
    chars: usize,
    work: usize,
}
#[derive(Clone)]
struct Source(Src, Rc<RefCell<Log>>);
const BUDGET: usize = 2000;
impl Source {
    fn new(j: &J) -> Source {
        let src = match j.at("k").str() {
            "tape" => Src::Tape(
                Rc::new(
                    j.at("v")
                        .arr()
                        .iter()
                        .map(|p| {
                            let p = p.ints();
                            (p[0], p[1])
                        })
                        .collect(),
                ),
                0,
            ),
            "bytes" => Src::Bytes(ByteSource::new(
                j.at("v").ints().into_iter().map(|b| b as u8).collect::<Vec<_>>().into_iter(),
            )),
            _ => Src::Small(SmallRng::seed_from_u64(j.at("v").us() as u64)),
        };
        Source(src, Rc::new(RefCell::new(Log::default())))
    }
    fn tick(&self) {
        let mut l = self.1.borrow_mut();
        l.work += 1;
        if l.work > BUDGET {
            drop(l);
            panic!("BUDGET");
        }
    }
}
impl GenRange for Source {
    fn generate(&mut self, limit: f64) -> f64 {
        self.tick();
        self.1.borrow_mut().draws.push(limit);
        match &mut self.0 {
            Src::Tape(v, i) => {
                let (n, d) = v[*i % v.len()];
                *i += 1;
                limit * n as f64 / d as f64
            }
            Src::Bytes(b) => b.generate(limit),
            Src::Small(r) => GenRange::generate(r, limit),
        }
    }
    fn mutate_start(&mut self, attempt: u64) {
        self.tick();
        self.1.borrow_mut().muts.push(attempt);
        match &mut self.0 {
            Src::Tape(_, i) => *i += attempt as usize + 1,
            Src::Bytes(b) => b.mutate_start(attempt),
            Src::Small(r) => GenRange::mutate_start(r, attempt),
        }
    }
}

fn generate(cfg: &Cfg, op: &J, limited: bool) -> J {
    let mut src = Source::new(op.at("src"));
    let log = src.1.clone();
    let lim = op.at("lim").int();
    let limits = if lim >= 0 && limited {
        Some(Limits { terminals: lim as u64, negative_rule_attempts: op.at("att").us() as u64 })
    } else {
        None
    };
    let negs: Vec<NegativeRule> = op
        .at("negs")
        .arr()
        .iter()
        .map(|x| NegativeRule {
            sym: sy(x.arr()[0].us()),
            chars: Box::leak(text(&x.arr()[1]).into_boxed_str()),
        })
        .collect();
    let chars: Vec<(Symbol, i64)> =
        op.at("chars").arr().iter().map(|x| (sy(x.arr()[0].us()), x.arr()[1].int())).collect();
    let to_char = |s: Symbol, r: &mut Source| {
        r.tick();
        r.1.borrow_mut().chars += 1;
        chars.iter().find(|x| x.0 == s).and_then(|x| if x.1 < 0 { None } else { Some(chr(x.1 as usize)) })
    };
    let r = catch_unwind(AssertUnwindSafe(|| {
        cfg.random(sy(op.at("s").us()), limits, &mut src, &negs, to_char)
    }));
    let log = log.borrow();
    let (st, syms, cs) = match r {
        Ok(Ok((a, b))) => ("ok", a, b),
        Ok(Err(RandomGenError::LimitExceeded)) => ("limit", vec![], vec![]),
        Ok(Err(RandomGenError::NegativeRuleAttemptsExceeded)) => ("neg", vec![], vec![]),
        Err(e) if e.downcast_ref::<&str>() == Some(&"BUDGET") => ("budget", vec![], vec![]),
        Err(e) => resume_unwind(e),
    };
    J::obj()
        .with("st", st)
        .with("syms", jsyms(&syms))
        .with("chars", J::A(cs.iter().map(|&c| J::I(c as i64)).collect()))
        .with("calls", log.chars)
        .with("muts", J::A(log.muts.iter().map(|&m| J::I(m as i64)).collect()))
}

fn picks<W: Weight>(op: &J, conv: fn(usize) -> W) -> J {
    let mut table = WeightedRhsByLhs::<W>::new();
    for a in op.at("alts").arr() {
        table.add_weight(conv(a.at("w").us()), sy(a.at("l").us()), &sys(&a.at("r").ints()));
    }
    J::A(op
        .at("picks")
        .arr()
        .iter()
        .map(|p| {
            let p = p.ints();
            let mut src =
                Source(Src::Tape(Rc::new(vec![(p[1], p[2])]), 0), Rc::new(RefCell::new(Log::default())));
            let rhs = jsyms(table.pick_rhs(sy(p[0]), &mut src));
            let log = src.1.borrow();
            let lim = log.draws.first().map_or(-1, |x| (x * 8.0).round() as i64);
            J::A(vec![rhs, J::I(lim), J::I(log.draws.len() as i64)])
        })
        .collect())
}

// ---------------------------------------------------------------- classes

fn ranges(j: &J) -> Vec<(usize, usize)> {
    j.arr()
        .iter()
        .map(|p| {
            let p = p.ints();
            (p[0], p[1])
        })
        .collect()
}
fn class(j: &J) -> LexerClasses {
    let rs = ranges(j.at("rs"));
    match j.at("k").str() {
        "ch" => chr(rs[0].0).into(),
        "u8" => (rs[0].0 as u8).into(),
        "by" => {
            let c = ClassBytes::new(rs.iter().map(|r| ClassBytesRange::new(r.0 as u8, r.1 as u8)));
            Class::Bytes(c).into()
        }
        _ => {
            let mut c =
                ClassUnicode::new(rs.iter().map(|r| ClassUnicodeRange::new(chr(r.0), chr(r.1))));
            if j.at("neg").int() == 1 {
                c.negate();
            }
            Class::Unicode(c).into()
        }
    }
}

// ---------------------------------------------------------------- JSON

fn sersym<T: SymbolPrimitive + PartialEq>(t: &str) -> J {
    match json::from_str::<Symbol<T>>(t) {
        Err(_) => failed(),
        Ok(s) => {
            let v = s.usize() as u64;
            let again = json::from_str::<Symbol<T>>(&json::to_string(&s));
            J::obj()
                .with("ok", true)
                .with("v", vec![(v >> 16) as usize, (v & 0xffff) as usize])
                .with("eq", again.map_or(false, |x| x == s))
        }
    }
}
fn wide(j: &J) -> u64 {
    let v = j.ints();
    ((v[0] as u64) << 16) | v[1] as u64
}

pub fn step2(s: &mut Sess, op: &J) -> (Option<J>, bool) {
    let cfg = &mut s.cfg;
    let res = match op.op() {
        "bnf" => J::obj().with("full", cfg.stringify_to_bnf()).with("basic", cfg.to_bnf()),
        "rulenames" => {
            let rules: Vec<NamedCfgRule> = cfg.rules().map(|r| r.named(cfg.sym_source())).collect();
            let eq: Vec<J> = op
                .at("names")
                .arr()
                .iter()
                .map(|q| {
                    let q: Vec<&str> = q.arr().iter().map(|x| x.str()).collect();
                    let own = match q[..] {
                        ["a"] => named_cfg_rule!(a ::=),
                        ["a", "b1"] => named_cfg_rule!(a ::= b1),
                        ["b1", "a", "a"] => named_cfg_rule!(b1 ::= a a),
                        _ => NamedCfgRule::new(
                            q.iter().map(|&x| if x == "~" { None } else { Some(x.into()) }).collect(),
                        ),
                    };
                    J::A(rules.iter().map(|r| (own == *r && *r == own).into()).collect())
                })
                .collect();
            let pair: Vec<J> =
                rules.iter().map(|a| J::A(rules.iter().map(|b| (a == b).into()).collect())).collect();
            // names together with the history of each rule
            let own: Vec<J> = op
                .at("names")
                .arr()
                .iter()
                .map(|q| {
                    let q: Vec<Option<SymbolName>> = q
                        .arr()
                        .iter()
                        .map(|x| if x.str() == "~" { None } else { Some(x.str().into()) })
                        .collect();
                    J::A(cfg
                        .rules()
                        .zip(&rules)
                        .map(|(r, n)| (NamedCfgRule::with_history(q.clone(), r.history) == *n).into())
                        .collect())
                })
                .collect();
            let shown: Vec<J> = rules
                .iter()
                .map(|r| J::S(format!("{r:?}").split(", history: ").next().unwrap().to_string()))
                .collect();
            J::obj().with("eq", J::A(eq)).with("pair", J::A(pair)).with("own", J::A(own)).with("shown", J::A(shown))
        }
        "load" => match Cfg::load(&text(op.at("t"))) {
            Err(e) => refused(e),
            Ok(c) => {
                let bnf = c.to_bnf();
                let mut r = jcfg(&c).with("bnf", codes(&bnf));
                if c.sym_source().names().iter().all(|n| n.is_some()) {
                    r = r.with("re", Cfg::load(&bnf).map_or(failed(), |c| jcfg(&c)));
                }
                r
            }
        },
        "loadadv" => match Cfg::load_advanced(&text(op.at("t"))) {
            Err(e) => refused(e),
            Ok(mut a) => {
                a.lexer_map.compute();
                jcfg(&a.cfg)
                    .with("get", gets(&a.lexer_map, &op.at("al").ints()))
                    .with("lex", J::A(a.sbs.iter().map(|x| x.usize().into()).collect()))
                    .with(
                        "actions",
                        J::A(a
                            .actions
                            .iter()
                            .map(|(k, v)| {
                                J::A(vec![(*k).into(), v.as_ref().map_or(J::A(vec![]), |x| codes(x))])
                            })
                            .collect()),
                    )
                    .with(
                        "map",
                        J::A(a.sym_map.iter().map(|(k, v)| J::A(vec![codes(k), v.usize().into()])).collect()),
                    )
            }
        },
        "regexp" => match Cfg::from_regexp(&text(op.at("p"))) {
            Err(_) => failed(),
            Ok((c, mut map)) => {
                map.compute();
                jcfg(&c).with("get", gets(&map, &op.at("al").ints()))
            }
        },
        "lexmap" => {
            let mut map = LexerMap::new();
            let mut src = SymbolSource::new();
            let sy: Vec<Symbol> = op
                .at("classes")
                .arr()
                .iter()
                .map(|c| *map.classes.entry(class(c)).or_insert_with(|| src.next_sym(None)))
                .collect();
            map.compute();
            let iter: Vec<J> = op
                .at("classes")
                .arr()
                .iter()
                .map(|c| J::A(class(c).iter().map(|(a, b)| J::from(vec![a as usize, b as usize])).collect()))
                .collect();
            J::obj().with("iter", J::A(iter)).with("sy", jsyms(&sy)).with("get", gets(&map, &op.at("probes").ints()))
        }
        "gen" => {
            let a = generate(cfg, op, true);
            let b = generate(cfg, op, true);
            let un = if op.at("negs").arr().is_empty() && op.at("lim").int() >= 0 {
                generate(cfg, op, false)
            } else {
                J::obj().with("st", "none")
            };
            let again = a.text() == b.text();
            a.with("again", again).with("un", un)
        }
        "pick" => match op.at("ty").str() {
            "u8" => picks::<u8>(op, |w| (w / 8) as u8),
            "u16" => picks::<u16>(op, |w| (w / 8) as u16),
            "u32" => picks::<u32>(op, |w| (w / 8) as u32),
            "f32" => picks::<f32>(op, |w| w as f32 / 8.0),
            _ => picks::<f64>(op, |w| w as f64 / 8.0),
        },
        "wgen" => J::A(op
            .at("picks")
            .arr()
            .iter()
            .map(|p| {
                let p = p.ints();
                let mut src =
                    Source(Src::Tape(Rc::new(vec![(p[0], p[1])]), 0), Rc::new(RefCell::new(Log::default())));
                let r = cfg
                    .random(sy(op.at("s").us()), None, &mut src, &[], |_, _| None)
                    .map(|x| x.0)
                    .unwrap_or_default();
                let log = src.1.borrow();
                let lim = log.draws.first().map_or(-1, |x| (x * 1000.0).round() as i64);
                J::A(vec![jsyms(&r), J::I(lim), J::I(log.draws.len() as i64)])
            })
            .collect()),
        "sersym" => {
            let t = if op.at("big").int() == 0 {
                wide(op.at("v")).to_string()
            } else {
                // far beyond any width
                format!("{}", (op.at("big").us() as u64) << 32 | wide(op.at("v")))
            };
            match op.at("w").int() {
                8 => sersym::<NonZeroU8>(&t),
                16 => sersym::<NonZeroU16>(&t),
                _ => sersym::<NonZeroU32>(&t),
            }
        }
        "serbad" => {
            let t = op.at("t").str();
            let ok = match op.at("ty").str() {
                "sym8" => json::from_str::<Symbol<NonZeroU8>>(t).is_ok(),
                "sym" => json::from_str::<Symbol>(t).is_ok(),
                "names" => json::from_str::<Vec<Option<SymbolName>>>(t).is_ok(),
                "set" => json::from_str::<SymbolBitSet>(t).is_ok(),
                _ => json::from_str::<Mapping>(t).is_ok(),
            };
            J::obj().with("ok", ok)
        }
        "sernames" => {
            let mut src: SymbolSource = SymbolSource::new();
            for n in op.at("names").arr() {
                // nothing: no name; [-1]: the empty name
                let empty = n.arr().first().map_or(false, |c| c.int() < 0);
                let t = if empty { String::new() } else { text(n) };
                src.next_sym(if t.is_empty() && !empty { None } else { Some(t.into()) });
            }
            let name = |n: &SymbolName| if n.is_empty() { J::A(vec![J::I(-1)]) } else { codes(n) };
            match json::from_str::<Vec<Option<SymbolName>>>(&json::to_string(&src.names())) {
                Err(_) => failed(),
                Ok(x) => J::obj().with("ok", true).with(
                    "names",
                    J::A(x.iter().map(|n| n.as_ref().map_or(J::A(vec![]), name)).collect()),
                ),
            }
        }
        "serset" => {
            let mut src: SymbolSource = SymbolSource::new();
            for _ in 0..op.at("n").us() {
                src.next_sym(None);
            }
            let mut set = SymbolBitSet::new();
            set.reset(&src);
            for x in op.at("set").ints() {
                set.set(sy(x), true);
            }
            match json::from_str::<SymbolBitSet>(&json::to_string(&set)) {
                Err(_) => failed(),
                Ok(mut x) => {
                    let m: Vec<Symbol> = x.iter().collect();
                    x.negate();
                    let neg: Vec<Symbol> = x.iter().collect();
                    J::obj().with("ok", true).with("set", jsyms(&m)).with("neg", jsyms(&neg))
                }
            }
        }
        "sermap" => {
            let m = Mapping {
                to_internal: op
                    .at("ti")
                    .arr()
                    .iter()
                    .map(|x| if x.int() < 0 { None } else { Some(sy(x.us())) })
                    .collect(),
                to_external: sys(&op.at("te").ints()),
            };
            match json::from_str::<Mapping>(&json::to_string(&m)) {
                Err(_) => failed(),
                Ok(x) => jmap(&x).with("ok", true),
            }
        }
        "serhist" => {
            let a = wide(op.at("a")) as u32;
            let b = wide(op.at("b")) as u32;
            let trace = RuleDot::new(a, b).trace();
            let eq = json::from_str(&json::to_string(&trace)).map_or(false, |x| trace == x)
                && json::from_str(&json::to_string(&ExternalOrigin { id: a }))
                    .map_or(false, |x| ExternalOrigin { id: a } == x)
                && json::from_str(&json::to_string(&EventId { id: a })).map_or(false, |x| EventId { id: a } == x)
                && json::from_str(&json::to_string(&MinimalDistance { distance: b }))
                    .map_or(false, |x| MinimalDistance { distance: b } == x);
            J::obj().with("ok", true).with("eq", eq)
        }
        x => panic!("HARNESS: unknown op {x}"),
    };
    (Some(res), false)
}
