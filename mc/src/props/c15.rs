//! Stripped byte code.
use super::util::*;
use crate::behave::{self, Jobs};
use crate::cx::Cx;
use crate::sut::{self, Sets, R};
use crate::Meta;
use model::chunk::{self, Fmt, Proto};
use model::gen;
use model::ops::*;
use model::product::Cfg;

pub const META: Meta = Meta {
    id: "C15",
    level: "model_checking",
    rule: "programs with every construct x every subset of removed debug information (line info, local names, upvalue names, source; everywhere or in nested functions only), everything from each single function, and every prefix and suffix of the local variable records x versions x flush sizes; the stripped input is compared with the conversion of the unstripped chunk instruction by instruction and explored against the reference machine; non-trivial: more than one observable event",
    assumptions: &["reference machines (bound to stock Lua 5.1 in C20)"],
    run,
};

fn cfg() -> Cfg {
    use model::product::{one, Ans::*};
    Cfg {
        it: vec![one(Nil), one(Num(1.0)), vec![Num(2.0), Num(22.0)]],
        num: vec![one(Num(0.0)), one(Num(2.0))],
        any: vec![one(Nil), one(Num(0.0))],
        presets: vec![("tab", List(vec![Num(5.0), Num(6.0)]))],
        ignore_n: true,
        max_states: 120,
        max_events: 10,
        ..Cfg::default()
    }
}

/// Everything but the debug information.
fn core(a: &Proto, b: &Proto, path: &str) -> Option<String> {
    if (a.nups, a.nparams, a.vararg, a.maxstack, a.line, a.last_line) != (b.nups, b.nparams, b.vararg, b.maxstack, b.line, b.last_line) {
        return Some(format!("function {path}: header {:?} became {:?}", (a.nups, a.nparams, a.vararg, a.maxstack), (b.nups, b.nparams, b.vararg, b.maxstack)));
    }
    if a.code != b.code {
        let i = a.code.iter().zip(&b.code).position(|(x, y)| x != y).unwrap_or(a.code.len().min(b.code.len()));
        return Some(format!("function {path}: instruction {i} differs ({} and {} instructions)", a.code.len(), b.code.len()));
    }
    if a.k.len() != b.k.len() || a.k.iter().zip(&b.k).any(|(x, y)| !x.same(y)) {
        return Some(format!("function {path}: constants {:?} became {:?}", a.k, b.k));
    }
    if a.p.len() != b.p.len() {
        return Some(format!("function {path}: nested functions"));
    }
    a.p.iter().zip(&b.p).enumerate().find_map(|(i, (x, y))| core(x, y, &format!("{path}.{i}")))
}

/// What to remove.
#[derive(Clone, Copy, Debug)]
enum Way {
    Parts(Strip),
    /// Everything from one function only, counted from the outside.
    One(usize),
    /// The local variable records from this one on, or up to it.
    Locals(usize),
    LocalsTo(usize),
}
impl Way {
    fn apply(&self, p: &Proto) -> Proto {
        let mut q = p.clone();
        let mut k = 0;
        match *self {
            Way::Parts(s) => return s.apply(p),
            Way::One(n) => each(&mut q, &mut |f| {
                if k == n {
                    f.lines.clear();
                    f.locals.clear();
                    f.upnames.clear();
                    f.source.clear();
                }
                k += 1;
            }),
            Way::Locals(n) => each(&mut q, &mut |f| f.locals.truncate(n)),
            Way::LocalsTo(n) => each(&mut q, &mut |f| drop(f.locals.drain(..n.min(f.locals.len())))),
        }
        q
    }
}
fn ways(p: &Proto) -> Vec<Way> {
    let mut o: Vec<Way> = Strip::subsets().into_iter().map(Way::Parts).collect();
    let (mut n, mut l) = (0, 0);
    each(&mut p.clone(), &mut |f| {
        n += 1;
        l = l.max(f.locals.len());
    });
    o.extend((0..n).map(Way::One));
    o.extend((1..l.min(12)).flat_map(|k| [Way::Locals(k), Way::LocalsTo(k)]));
    o
}

fn run(cx: &Cx) {
    let t = cx.thorough;
    for ver in vers() {
        for (fi, fo) in [(32, 50), (2, 3), (3, 1), (3, 3)] {
            let sets = Sets::flush(fi, fo);
            let mut j = Jobs::new(ver, sets.clone(), cfg());
            let mut srcs = zoo();
            if t {
                srcs.extend(crate::corpus::control(3, 0, &["emit", "local", "break", "if", "while", "repeat", "nfor", "gfor2", "closure"]).iter().map(|s| format!("local x = 1 {s} emit(x)")));
            }
            if ver == Ver::L51 {
                srcs.retain(|s| !s.contains("arg") && !s.contains("in tab"));
            }
            let full: Vec<(String, Proto)> = srcs.into_iter().filter_map(|s| Some((s.clone(), gen::comp(&model::parse::parse(&s), ver, sets.input(ver)).ok()?))).collect();
            for (s, p) in &full {
                j.raw("stripped", format!("stripped: {s}"), Strip::ALL.apply(p));
            }
            j.run(cx, |_, _, _, _| {});
            cx.par(&full, |i, (s, p)| {
                let conv = |p: &Proto| -> Result<Proto, String> {
                    let input = chunk::write(ver, &behave::in_fmt(ver), sets.input(ver), p);
                    cx.eval();
                    match sut::unify(&input, &Fmt::NATIVE, &sets) {
                        R::Ok(o) => chunk::read(Ver::L51, &sets.out, &o).map(|x| x.1).map_err(|e| format!("unreadable output: {e}")),
                        r => Err(r.brief()),
                    }
                };
                let whole = conv(p);
                for st in ways(p) {
                    let key = format!("{ver:?}/{fi}->{fo}/{st:?}: {}", s.chars().take(140).collect::<String>());
                    let stripped = st.apply(p);
                    let d = match (&whole, conv(&stripped)) {
                        (Ok(w), Ok(q)) => {
                            cx.seen(&key);
                            core(w, &q, "0").or_else(|| debug(&st.apply(w), &q, "0"))
                        }
                        (Err(a), Err(b)) if *a == b => None,
                        (a, b) => Some(format!("unstripped: {:?}, stripped: {:?}", a.as_ref().map(|_| "converted"), b.map(|_| "converted"))),
                    };
                    if let Some(d) = d {
                        let input = chunk::write(ver, &behave::in_fmt(ver), sets.input(ver), &stripped);
                        cx.bad(i, &key, &d, &input, &Fmt::NATIVE, &sets, s);
                    }
                }
            });
        }
    }
}

/// What was stripped stays absent, the rest is converted as before.
fn debug(e: &Proto, g: &Proto, path: &str) -> Option<String> {
    if e.lines != g.lines {
        return Some(format!("function {path}: line info {:?}, expected {:?}", g.lines, e.lines));
    }
    if e.locals != g.locals {
        return Some(format!("function {path}: local variables {:?}, expected {:?}", g.locals, e.locals));
    }
    if e.upnames != g.upnames {
        return Some(format!("function {path}: upvalue names {:?}, expected {:?}", g.upnames, e.upnames));
    }
    if e.source != g.source {
        return Some(format!("function {path}: source {:?}, expected {:?}", g.source, e.source));
    }
    e.p.iter().zip(&g.p).enumerate().find_map(|(i, (x, y))| debug(x, y, &format!("{path}.{i}")))
}
