//! Explicit-state exploration of the product of two programs (input and
//! output of a conversion). The environment (host functions) answers
//! nondeterministically, both programs get the same answers, and every
//! reachable joint state is visited once.
use crate::vm::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

/// A value the environment can hand to a program.
#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Nil,
    Bool(bool),
    Num(f64),
    Str(&'static str),
    /// A fresh table with the given list items.
    List(Vec<Ans>),
    Host(u8),
}
impl Ans {
    fn make(&self, m: &mut M, s: &mut Strs) -> V {
        match self {
            Ans::Nil => V::Nil,
            Ans::Bool(b) => V::Bool(*b),
            Ans::Num(n) => V::Num(*n),
            Ans::Str(x) => V::Str(s.id(x.as_bytes())),
            Ans::Host(h) => V::Host(*h),
            Ans::List(v) => {
                let items: Vec<(V, V)> =
                    v.iter().enumerate().map(|(i, a)| (V::Num(i as f64 + 1.0), a.make(m, s))).collect();
                m.new_table(&items)
            }
        }
    }
    /// Token understood by the stock driver.
    pub fn token(&self) -> String {
        match self {
            Ans::Nil => "n".into(),
            Ans::Bool(true) => "t".into(),
            Ans::Bool(false) => "f".into(),
            Ans::Num(x) => format!("d{x:?}"),
            Ans::Str(x) => format!("s{x}"),
            Ans::Host(h) => format!("h{}", HOSTS[*h as usize]),
            Ans::List(v) => {
                let mut o = format!("l{}", v.len());
                for a in v {
                    o += " ";
                    o += &a.token();
                }
                o
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub ask: Vec<Vec<Ans>>,
    pub multi: Vec<Vec<Ans>>,
    pub it: Vec<Vec<Ans>>,
    pub num: Vec<Vec<Ans>>,
    pub any: Vec<Vec<Ans>>,
    /// Alternative argument lists of the main function.
    pub args: Vec<Vec<Ans>>,
    pub presets: Vec<(&'static str, Ans)>,
    pub max_states: usize,
    pub max_events: usize,
    pub budget: u64,
    /// Compare lines and visible local variables of every active function.
    pub debug: bool,
    /// Compare the sequence of executed lines between events.
    pub lines: bool,
    pub ignore_n: bool,
    pub max_traces: usize,
}
pub fn one(a: Ans) -> Vec<Ans> {
    vec![a]
}
impl Default for Cfg {
    fn default() -> Self {
        use Ans::*;
        Cfg {
            ask: vec![one(Bool(false)), one(Bool(true))],
            multi: vec![vec![], one(Num(71.0)), vec![Num(72.0), Str("b")], vec![Nil, Num(73.0), Bool(false)]],
            it: vec![one(Nil), one(Num(1.0)), vec![Num(2.0), Num(22.0), Num(222.0)]],
            num: vec![one(Num(0.0)), one(Num(1.0)), one(Num(2.0))],
            any: vec![one(Nil), one(Bool(false)), one(Num(0.0)), one(Str("s"))],
            args: vec![vec![]],
            presets: vec![],
            max_states: 4000,
            max_events: 40,
            budget: 4000,
            debug: false,
            lines: false,
            ignore_n: false,
            max_traces: 3,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Trace {
    /// Answers in the order they are consumed (first: main arguments).
    pub answers: Vec<Vec<Ans>>,
    /// What the second program was observed to do (plain rendering).
    pub events: Vec<String>,
    /// Lines of the active functions at each host call, innermost first.
    pub lines: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Fail {
    pub trace: Trace,
    pub what: String,
}
#[derive(Clone, Debug, Default)]
pub struct Out {
    pub states: usize,
    pub transitions: usize,
    /// All joint states within the bounds were visited.
    pub complete: bool,
    pub invalid: Option<String>,
    pub fail: Option<Fail>,
    pub traces: Vec<Trace>,
    /// Number of distinct host functions reached, events in total.
    pub events: usize,
    pub diverged: usize,
}

fn hash128(b: &[u8]) -> u128 {
    let mut h1 = std::collections::hash_map::DefaultHasher::new();
    b.hash(&mut h1);
    let mut h2 = std::collections::hash_map::DefaultHasher::new();
    0x5bd1e995u32.hash(&mut h2);
    b.hash(&mut h2);
    (h1.finish() as u128) << 64 | h2.finish() as u128
}

fn user_globals(m: &M, s: &Strs, names: &HashSet<u32>) -> (Vec<V>, String) {
    let mut g: Vec<(u32, V)> = m.globals.iter().filter(|g| names.contains(&g.0) && g.1 != V::Nil).cloned().collect();
    g.sort_by(|a, b| s.v[a.0 as usize].cmp(&s.v[b.0 as usize]));
    let n = g.iter().map(|x| String::from_utf8_lossy(&s.v[x.0 as usize]).into_owned()).collect::<Vec<_>>().join(" ");
    (g.into_iter().map(|x| x.1).collect(), n)
}

/// Names of the globals an input program uses: everything else in the second
/// program is an implementation detail of the conversion.
fn program_names(p: &Prog) -> HashSet<u32> {
    let mut h = HashSet::new();
    for q in &p.protos {
        for k in &q.k {
            if let V::Str(s) = k {
                h.insert(*s);
            }
        }
    }
    h
}
pub fn global_names(p: &Prog, s: &Strs) -> Vec<String> {
    let mut v: Vec<String> =
        program_names(p).into_iter().map(|i| String::from_utf8_lossy(&s.v[i as usize]).into_owned()).collect();
    // the stock driver takes the names as words
    v.retain(|n| !n.is_empty() && n.chars().all(|c| !c.is_whitespace() && !c.is_control()));
    v.sort();
    v
}

struct Node {
    a: M,
    b: M,
    stop: Stop,
    path: Trace,
}

pub fn lines_of(m: &M, p: &Prog, s: &Strs) -> String {
    m.debug(p, s)
        .iter()
        .rev()
        .map(|(_, l, _)| l.map(|x| x.to_string()).unwrap_or("?".into()))
        .collect::<Vec<_>>()
        .join(" ")
}

/// Explore the joint behaviour of `p` (reference) and `q`.
pub fn explore(p: &Prog, q: &Prog, s: &mut Strs, cfg: &Cfg) -> Out {
    let mut out = Out { complete: true, ..Default::default() };
    let names = program_names(p);
    let mut seen: HashSet<u128> = HashSet::new();
    let mut todo: Vec<Node> = vec![];
    let mut buf = vec![];

    // One joint step: run both to their next event and compare.
    let mut advance = |mut a: M, mut b: M, mut path: Trace, s: &mut Strs, out: &mut Out| -> Option<Node> {
        out.transitions += 1;
        let sa = a.run(p, s, cfg.budget);
        if let Stop::Ub(x) = &sa {
            out.invalid = Some(x.clone());
            return None;
        }
        let sb = b.run(q, s, cfg.budget * 4 + 2000);
        let mut bad = None;
        if let Stop::Ub(x) = &sb {
            bad = Some(format!("undefined behaviour in the output: {x}"))
        }
        let show = |m: &M, p: &Prog, s: &Strs, st: &Stop, plain: bool| -> String {
            let (g, gn) = user_globals(m, s, &names);
            let r = |mut v: Vec<V>| {
                v.extend(&g);
                m.render(p, s, &v, plain, cfg.ignore_n)
            };
            match st {
                Stop::Host(h, args) => format!("{}/{} {} | {}", HOSTS[*h as usize], args.len(), r(args.clone()), gn),
                Stop::Done(v) => format!("done/{} {} | {}", v.len(), r(v.clone()), gn),
                Stop::Error(_) => format!("error/0 {} | {}", r(vec![]), gn),
                Stop::Budget => "diverges".into(),
                Stop::Ub(x) => format!("undefined behaviour: {x}"),
            }
        };
        let plain = match &sb {
            Stop::Budget => "diverges".to_string(),
            x => show(&b, q, s, x, true),
        };
        path.events.push(plain);
        path.lines.push(match sb {
            Stop::Host(..) => lines_of(&b, q, s),
            _ => String::new(),
        });
        if bad.is_none() {
            let (ea, eb) = (show(&a, p, s, &sa, false), show(&b, q, s, &sb, false));
            if ea != eb {
                bad = Some(format!("expected {ea}, got {eb}"));
            } else if cfg.lines && a.line_hash != b.line_hash {
                bad = Some(format!("executed lines differ: expected {:?}, got {:?}", a.line_log, b.line_log));
            } else if cfg.debug && matches!(sa, Stop::Host(..)) {
                let (da, db) = (a.debug(p, s), b.debug(q, s));
                // The value of a register that a call of the conversion's own left
                // behind is not compared: records are about names and ranges.
                type D = [(String, Option<i64>, Vec<(u32, V)>)];
                let txt = |m: &M, p: &Prog, d: &D, e: &D, s: &Strs| {
                    d.iter()
                        .enumerate()
                        .map(|(i, (path, l, v))| {
                            let vars: Vec<String> = v
                                .iter()
                                .enumerate()
                                .map(|(k, (n, x))| {
                                    let other = e.get(i).and_then(|o| o.2.get(k)).map(|o| o.1);
                                    let unknown = *x == V::Undef || other == Some(V::Undef);
                                    format!(
                                        "{}={}",
                                        String::from_utf8_lossy(&s.v[*n as usize]),
                                        if unknown { "-".into() } else { m.render(p, s, &[*x], false, cfg.ignore_n) }
                                    )
                                })
                                .collect();
                            format!("{path}:{l:?}[{}]", vars.join(","))
                        })
                        .collect::<Vec<_>>()
                        .join(" ")
                };
                let (ta, tb) = (txt(&a, p, &da, &db, s), txt(&b, q, &db, &da, s));
                if ta != tb {
                    bad = Some(format!("debug information differs: expected {ta}, got {tb}"));
                }
            }
        }
        if let Some(what) = bad {
            out.fail = Some(Fail { trace: path, what });
            return None;
        }
        out.events += 1;
        match sa {
            Stop::Budget => {
                out.diverged += 1;
                out.complete = false;
                None
            }
            Stop::Done(_) | Stop::Error(_) => {
                if out.traces.len() < cfg.max_traces {
                    out.traces.push(path);
                }
                None
            }
            Stop::Host(..) => {
                buf.clear();
                a.canon(p, s, &mut buf);
                b.canon(q, s, &mut buf);
                if !seen.insert(hash128(&buf)) {
                    if out.traces.len() < cfg.max_traces {
                        out.traces.push(path);
                    }
                    return None;
                }
                out.states += 1;
                Some(Node { a, b, stop: sa, path })
            }
            Stop::Ub(_) => unreachable!(),
        }
    };

    let bound = |m: &mut M, s: &mut Strs, args: &[Ans]| -> Vec<V> { args.iter().map(|x| x.make(m, s)).collect() };
    for args in &cfg.args {
        let start = |pr: &Prog, s: &mut Strs| -> M {
            let mut t = M::new(pr, s, &[]);
            let vals = bound(&mut t, s, args);
            let mut m = M::new(pr, s, &vals);
            // tables among the arguments
            let vals2 = bound(&mut m, s, args);
            debug_assert_eq!(vals.len(), vals2.len());
            for (n, v) in &cfg.presets {
                let id = s.id(n.as_bytes());
                let v = v.make(&mut m, s);
                m.set_global(id, v);
            }
            m
        };
        let (a, b) = (start(p, s), start(q, s));
        let path = Trace { answers: vec![args.clone()], ..Default::default() };
        if let Some(n) = advance(a, b, path, s, &mut out) {
            todo.push(n)
        }
        if out.fail.is_some() || out.invalid.is_some() {
            return out;
        }
    }
    while let Some(n) = todo.pop() {
        if out.states >= cfg.max_states || n.path.events.len() >= cfg.max_events {
            out.complete = false;
            if out.traces.len() < cfg.max_traces {
                out.traces.push(n.path);
            }
            if out.states >= cfg.max_states {
                break;
            }
            continue;
        }
        let Stop::Host(h, args) = &n.stop else { unreachable!() };
        let none: Vec<Vec<Ans>> = vec![vec![]];
        let choices: &Vec<Vec<Ans>> = match *h {
            H_ASK => &cfg.ask,
            H_MULTI => &cfg.multi,
            H_IT => &cfg.it,
            H_NUM => &cfg.num,
            H_ANY => &cfg.any,
            _ => &none,
        };
        let branch = !matches!(*h, H_EMIT | H_VAL);
        for c in choices.iter().rev() {
            let (mut a, mut b) = (n.a.clone(), n.b.clone());
            let mut path = n.path.clone();
            if *h == H_VAL {
                let v = args.clone();
                a.resume(p, &v);
                // the same objects in the other machine
                let w = match b.pending_args() {
                    Some(w) => w,
                    None => vec![],
                };
                b.resume(q, &w);
            } else if *h == H_EMIT {
                a.resume(p, &[]);
                b.resume(q, &[]);
            } else {
                let v = bound(&mut a, s, c);
                a.resume(p, &v);
                let v = bound(&mut b, s, c);
                b.resume(q, &v);
            }
            if branch {
                path.answers.push(c.clone());
            }
            if let Some(m) = advance(a, b, path, s, &mut out) {
                todo.push(m)
            }
            if out.fail.is_some() || out.invalid.is_some() {
                return out;
            }
        }
    }
    out
}
