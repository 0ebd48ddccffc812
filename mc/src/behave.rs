//! Behaviour preservation: explore the product of an input program and what
//! the real conversion makes of it.
use crate::cx::Cx;
use crate::oracle;
use crate::stock;
use crate::sut::{self, Sets, R};
use lunify::LunifyError;
use model::ast::S;
use model::chunk::{self, Fmt, Proto};
use model::gen;
use model::ops::*;
use model::product::{self, Cfg};
use model::vm::{Prog, Strs};
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone)]
pub struct Case {
    pub order: usize,
    pub key: String,
    pub ver: Ver,
    pub sets: Sets,
    pub cfg: Cfg,
    /// Replay at most this many traces on a stock interpreter.
    pub replay: usize,
    pub lines: bool,
}
impl Case {
    pub fn new(order: usize, key: String, ver: Ver, sets: Sets) -> Case {
        Case { order, key, ver, sets, cfg: Cfg::default(), replay: 2, lines: false }
    }
}

/// The stock interpreter that can run output made for these settings.
pub fn variant(s: &Sets) -> Option<String> {
    if s.out.layout != LAYOUT51 || s.out.limit != 250 || s.out.sig != "\x1bLua" {
        return None;
    }
    let v = s.out.flush.to_string();
    stock::available(&v).then_some(v)
}

pub fn convert(cx: &Cx, c: &Case, p: &Proto) -> Option<(Vec<u8>, R)> {
    let input = chunk::write(c.ver, &in_fmt(c.ver), c.sets.input(c.ver), p);
    cx.eval();
    let r = sut::unify(&input, &Fmt::NATIVE, &c.sets);
    Some((input, r))
}
/// A format that is not the output format, so that a conversion always happens.
pub fn in_fmt(v: Ver) -> Fmt {
    match v {
        Ver::L50 => Fmt::NATIVE,
        Ver::L51 => Fmt { size_t: 4, ..Fmt::NATIVE },
    }
}

/// Compile, convert, explore the product. Returns the parsed output.
pub fn check_source(cx: &Cx, src: &str, c: &Case) -> Option<Proto> {
    let body = model::parse::parse(src);
    check_ast(cx, &body, src, c)
}
pub fn check_ast(cx: &Cx, body: &[S], src: &str, c: &Case) -> Option<Proto> {
    let side = c.sets.input(c.ver);
    match gen::comp(body, c.ver, side) {
        Ok(p) => check_proto(cx, &p, src, c),
        Err(e) => {
            cx.count(&format!("not compilable: {e}"));
            None
        }
    }
}
/// Does an instruction use a constant that the operands of the output cannot
/// number? (Lua 5.0 compilers use up to 262 constants directly.)
fn far_constants(p: &Proto, c: &Case) -> bool {
    let most = (1u64 << (c.sets.out.layout.size(Fld::B) - 1)) - 1;
    let far = |w: u64| match canon(c.ver, c.sets.input(c.ver), w) {
        Some(Canon { op, x, y, .. }) => !matches!(op, Op::LoadK | Op::GetGlobal | Op::SetGlobal) && [x, y].iter().any(|a| matches!(a, Arg::K(i) if *i > most)),
        None => false,
    };
    p.code.iter().any(|w| far(*w)) || p.p.iter().any(|q| far_constants(q, c))
}
pub fn check_proto(cx: &Cx, p: &Proto, src: &str, c: &Case) -> Option<Proto> {
    let (input, r) = convert(cx, c, p)?;
    let extra = format!("source:\n{src}\n");
    let bad = |what: &str, more: &str| {
        cx.bad(c.order, &c.key, what, &input, &Fmt::NATIVE, &c.sets, &format!("{extra}{more}"));
    };
    let out = match r {
        R::Ok(b) => b,
        R::Err(e) => {
            let fits = matches!(e, LunifyError::ValueTooBigForOperand | LunifyError::StackTooLarge(_));
            if fits {
                cx.count("reported as not representable");
                if cx.id != "C17" && cx.id != "C06" && p.maxstack < 200 && !src.contains("--big") && !far_constants(p, c) {
                    bad(&format!("a small program is rejected: {e:?}"), "");
                }
                return None;
            }
            bad(&format!("a valid program is rejected: {e:?}"), "");
            return None;
        }
        R::Panic(e) => {
            bad(&format!("the conversion panicked: {e}"), "");
            return None;
        }
    };
    let (_, q) = match chunk::read(Ver::L51, &c.sets.out, &out) {
        Ok(x) => x,
        Err(e) => {
            bad(&format!("the output is not a Lua 5.1 chunk: {e:?}"), "");
            return None;
        }
    };
    // the same program in other formats, one of which may need no conversion
    let others = match c.ver {
        Ver::L50 => [Fmt { little: false, int: 8, size_t: 4, ..Fmt::NATIVE }, Fmt { size_t: 4, ins: 8, ..Fmt::NATIVE }],
        Ver::L51 => [Fmt::NATIVE, Fmt { little: false, int: 8, ins: 8, ..Fmt::NATIVE }],
    };
    let f = &others[c.order % 5 % 2];
    let second = chunk::write(c.ver, f, c.sets.input(c.ver), p);
    cx.eval();
    let r = sut::unify(&second, &Fmt::NATIVE, &c.sets);
    if r != R::Ok(out.clone()) {
        let d = match &r {
            R::Ok(o) => match chunk::read(Ver::L51, &c.sets.out, o) {
                Ok((_, x)) => oracle::differ(&q, &x, &c.sets.out, "0"),
                Err(e) => Some(format!("the output is not a Lua 5.1 chunk: {e:?}")),
            },
            r => Some(r.brief()),
        };
        if let Some(d) = d {
            cx.bad(c.order, &c.key, &format!("the result is not that of the same program in another format: {d}"), &second, &Fmt::NATIVE, &c.sets, &extra);
            return None;
        }
    }
    explore(cx, p, &q, &input, &out, src, c).then_some(q)
}

pub fn explore(cx: &Cx, p: &Proto, q: &Proto, input: &[u8], out: &[u8], src: &str, c: &Case) -> bool {
    let mut s = Strs::default();
    let pi = Prog::load(c.ver, c.sets.input(c.ver), p, &mut s);
    let po = Prog::load(Ver::L51, &c.sets.out, q, &mut s);
    let r = product::explore(&pi, &po, &mut s, &c.cfg);
    cx.states.fetch_add(r.states as u64, Relaxed);
    cx.transitions.fetch_add(r.transitions as u64, Relaxed);
    if !r.complete {
        cx.incomplete.fetch_add(1, Relaxed);
    }
    if let Some(e) = r.invalid {
        cx.count("input programs outside the model");
        if std::env::var("VP_DEBUG").is_ok() {
            eprintln!("INVALID {} : {e} : {src}", c.key)
        }
        return false;
    }
    if r.events > 1 {
        cx.seen(&(src, &c.sets));
    }
    if let Some(f) = r.fail {
        let more = format!(
            "source:\n{src}\nanswers: {:?}\nevents of the output: {:#?}\n",
            f.trace.answers, f.trace.events
        );
        cx.bad(c.order, &c.key, &f.what, input, &Fmt::NATIVE, &c.sets, &more);
        return false;
    }
    if r.states > 3 {
        cx.sample(|| {
            let t = r.traces.last();
            format!(
                "{}: {} [{}]: {} joint states, {} transitions; a trace: {}",
                c.key,
                src,
                c.sets.describe(),
                r.states,
                r.transitions,
                t.map(|t| t.events.join(" ; ")).unwrap_or_default()
            )
        });
    }
    if c.replay > 0 {
        if let Some(v) = variant(&c.sets) {
            let names = product::global_names(&pi, &s);
            for t in r.traces.iter().take(c.replay) {
                if t.events.iter().any(|e| e.starts_with("diverges")) {
                    continue;
                }
                match stock::conforms(&v, out, t, &c.cfg, &names, c.lines) {
                    Ok(()) => {
                        cx.traces.fetch_add(1, Relaxed);
                    }
                    Err(e) => {
                        let more = format!("source:\n{src}\nanswers: {:?}\nevents: {:#?}\n", t.answers, t.events);
                        cx.bad(
                            c.order,
                            &c.key,
                            &format!("stock Lua 5.1 disagrees: {e}"),
                            input,
                            &Fmt::NATIVE,
                            &c.sets,
                            &more,
                        );
                        return false;
                    }
                }
            }
        }
    }
    true
}

/// One program to convert and compare.
#[derive(Clone)]
pub struct Job {
    pub family: &'static str,
    pub src: String,
    pub ver: Ver,
    pub sets: std::sync::Arc<Sets>,
    pub cfg: std::sync::Arc<Cfg>,
    pub replay: usize,
    pub lines: bool,
    /// Every instruction gets a line of its own.
    pub spread: bool,
    /// A raw program instead of source text (`src` then only describes it).
    pub raw: Option<std::sync::Arc<Proto>>,
}
impl Job {
    pub fn key(&self) -> String {
        let mut s: String = self.src.chars().take(160).collect();
        if s.len() < self.src.len() {
            s += &format!("...#{:016x}", crate::cx::hash64(&self.src))
        }
        let i = self.sets.input(self.ver);
        format!("{}/{:?}/{}->{}: {s}", self.family, self.ver, i.flush, self.sets.out.flush)
    }
}
pub struct Jobs {
    pub v: Vec<Job>,
    pub ver: Ver,
    pub sets: std::sync::Arc<Sets>,
    pub cfg: std::sync::Arc<Cfg>,
    pub replay: usize,
    pub lines: bool,
    pub spread: bool,
    known: std::collections::HashSet<(String, Ver, usize)>,
}
impl Jobs {
    pub fn new(ver: Ver, sets: Sets, cfg: Cfg) -> Jobs {
        Jobs { v: vec![], ver, sets: sets.into(), cfg: cfg.into(), replay: 1, lines: false, spread: false, known: Default::default() }
    }
    pub fn sets(&mut self, s: Sets) {
        self.sets = s.into()
    }
    pub fn cfg(&mut self, c: Cfg) {
        self.cfg = c.into()
    }
    pub fn add(&mut self, family: &'static str, src: impl Into<String>) {
        let src = src.into();
        if !self.known.insert((src.clone(), self.ver, std::sync::Arc::as_ptr(&self.sets) as usize)) {
            return;
        }
        self.v.push(Job {
            family,
            src,
            ver: self.ver,
            sets: self.sets.clone(),
            cfg: self.cfg.clone(),
            replay: self.replay,
            lines: self.lines,
            spread: self.spread,
            raw: None,
        })
    }
    pub fn raw(&mut self, family: &'static str, desc: String, p: Proto) {
        self.v.push(Job {
            family,
            src: desc,
            ver: self.ver,
            sets: self.sets.clone(),
            cfg: self.cfg.clone(),
            replay: self.replay,
            lines: self.lines,
            spread: self.spread,
            raw: Some(p.into()),
        })
    }
    /// Convert and explore everything; `more` judges the pair of trees too.
    pub fn run(&self, cx: &Cx, more: impl Fn(&Case, &str, &Proto, &Proto) + Sync) {
        cx.par(&self.v, |i, j| {
            let key = j.key();
            if cx.only.as_ref().is_some_and(|o| !key.contains(o.as_str())) {
                return;
            }
            let c = Case {
                order: i,
                key,
                ver: j.ver,
                sets: (*j.sets).clone(),
                cfg: (*j.cfg).clone(),
                replay: j.replay,
                lines: j.lines,
            };
            let mut p = match &j.raw {
                Some(p) => p.clone(),
                None => match gen::comp(&model::parse::parse(&j.src), j.ver, c.sets.input(j.ver)) {
                    Ok(p) => p.into(),
                    Err(e) => {
                        cx.count(&format!("not compilable: {e}"));
                        return;
                    }
                },
            };
            if j.spread {
                spread(j.ver, c.sets.input(j.ver), std::sync::Arc::make_mut(&mut p), &mut 0)
            }
            cx.count(&format!("programs: {}", j.family));
            if let Some(q) = check_proto(cx, &p, &j.src, &c) {
                more(&c, &j.src, &p, &q)
            }
        })
    }
}

/// Put every instruction on a line of its own, except for jumps that are part
/// of the instruction before them.
pub fn spread(ver: Ver, side: &Side, p: &mut Proto, next: &mut i64) {
    let op = |w: u64| canon(ver, side, w).map(|c| c.op);
    let mut v: Vec<i64> = vec![];
    for (i, &w) in p.code.iter().enumerate() {
        if !(i > 0 && op(w) == Some(Op::Jmp) && op(p.code[i - 1]) == Some(Op::TForLoop)) {
            *next += 1;
        }
        v.push(*next);
    }
    p.lines = v;
    for q in &mut p.p {
        spread(ver, side, q, next)
    }
}
