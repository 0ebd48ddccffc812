//! Line info and local variable records.
use super::util::*;
use crate::behave::{Case, Jobs};
use crate::corpus;
use crate::cx::Cx;
use crate::samples;
use crate::sut::{self, Sets, R};
use crate::Meta;
use model::chunk::{self, Fmt, Proto};
use model::gen;
use model::ops::*;
use model::product::Cfg;
use std::collections::HashMap;

pub const META: Meta = Meta {
    id: "C16",
    level: "model_checking",
    rule: "programs with every construct, written one statement per line, x versions x flush sizes; at every host call of every explored execution the current line and the visible local variables of all active functions are compared, and the sequence of executed lines between calls; stock Lua 5.1 confirms the lines; nine numberings of the lines and several orders and names of the records of every program, and records that last until the end; functions large in one dimension; non-trivial: more than one observable event",
    assumptions: &["reference machines (bound to stock Lua 5.1 in C20)"],
    run,
};

pub fn cfg() -> Cfg {
    use model::product::{one, Ans::*};
    Cfg {
        it: vec![one(Nil), one(Num(1.0)), vec![Num(2.0), Num(22.0)]],
        num: vec![one(Num(0.0)), one(Num(2.0))],
        any: vec![one(Nil), one(Num(0.0))],
        presets: vec![("tab", List(vec![Num(5.0), Num(6.0)]))],
        ignore_n: true,
        debug: true,
        max_states: 120,
        max_events: 12,
        ..Cfg::default()
    }
}

/// Is every instruction covered by the same records as the one it stems from?
/// (The lines tell which one that is.)
fn covered(ver: Ver, sets: &Sets, p: &Proto, q: &Proto, path: &str) -> Option<String> {
    let op = |v: Ver, side: &Side, w: u64| canon(v, side, w).map(|c| c.op);
    if p.lines.len() == p.code.len() && q.lines.len() == q.code.len() && p.locals.len() == q.locals.len() {
        let (mut count, mut last, mut kind) = (HashMap::new(), HashMap::new(), HashMap::new());
        for line in &p.lines {
            *count.entry(*line).or_insert(0) += 1;
        }
        for (k, line) in q.lines.iter().enumerate() {
            last.insert(*line, k);
            kind.insert((*line, op(Ver::L51, &sets.out, q.code[k])), k);
        }
        for (i, line) in p.lines.iter().enumerate() {
            if count[line] > 1 {
                continue;
            }
            // the last one of the same kind, or the last one
            let Some(&k) = kind.get(&(*line, op(ver, sets.input(ver), p.code[i]))).or_else(|| last.get(line)) else { continue };
            for (a, b) in p.locals.iter().zip(&q.locals) {
                let (was, is) = ((a.start..a.end).contains(&(i as i64)), (b.start..b.end).contains(&(k as i64)));
                if was != is {
                    return Some(format!(
                        "function {path}: instruction {i} is {} by the local variable record {a:?}, instruction {k} which stems from it is {} by {b:?}",
                        if was { "covered" } else { "not covered" },
                        if is { "covered" } else { "not covered" }
                    ));
                }
            }
        }
    }
    p.p.iter().zip(&q.p).enumerate().find_map(|(i, (a, b))| covered(ver, sets, a, b, &format!("{path}.{i}")))
}
/// What is wrong with the debug information of a tree.
fn wrong(p: &Proto, q: &Proto, path: &str) -> Option<String> {
    if q.lines.len() != q.code.len() {
        return Some(format!("function {path}: {} line entries for {} instructions", q.lines.len(), q.code.len()));
    }
    if let Some(l) = q.lines.iter().find(|l| !p.lines.contains(l)) {
        return Some(format!("function {path}: line {l} does not occur in the original"));
    }
    let names = |x: &Proto| x.locals.iter().map(|l| l.name.clone()).collect::<Vec<_>>();
    if names(p) != names(q) {
        return Some(format!("function {path}: local variables {:?}, expected {:?}", names(q), names(p)));
    }
    for l in &q.locals {
        if l.start > l.end || l.start < 0 || l.end > q.code.len() as i64 {
            return Some(format!("function {path}: local variable record {l:?} with {} instructions", q.code.len()));
        }
    }
    p.p.iter().zip(&q.p).enumerate().find_map(|(i, (a, b))| wrong(a, b, &format!("{path}.{i}")))
}

pub fn records(cx: &Cx, c: &Case, src: &str, p: &Proto, q: &Proto) {
    if let Some(d) = wrong(p, q, "0").or_else(|| covered(c.ver, &c.sets, p, q, "0")) {
        cx.violation(c.order, c.key.clone(), d.clone(), format!("property: {}\n{}\n{d}\nsource:\n{src}\n", cx.id, c.sets.describe()))
    }
}

fn run(cx: &Cx) {
    let t = cx.thorough;
    let kinds = ["emit", "local", "break", "return", "if", "ifelse", "while", "repeat", "do", "nfor", "gfor1", "gfor2", "closure"];
    let ctl = corpus::control(if t { 4 } else { 3 }, 0, &kinds);
    for ver in vers() {
        let mut j = Jobs::new(ver, Sets::default(), cfg());
        j.lines = true;
        for (fi, fo) in [(32, 50), (2, 3), (3, 1), (3, 3)] {
            j.sets(Sets::flush(fi, fo));
            for s in zoo() {
                if ver == Ver::L51 && (s.contains("arg") || s.contains("in tab")) {
                    continue;
                }
                j.add("zoo", s);
            }
            for (i, s) in ctl.iter().enumerate() {
                if fi == 32 {
                    j.add("control", format!("local x = 1 {s} local y = 2 emit(x, y)"));
                } else if fi != fo {
                    let f = super::c08::fatten(s, i);
                    let f = if ver == Ver::L51 { f.replace("in tab", "in it") } else { f };
                    j.add("resized", format!("local x = 1 {f} local y = 2 emit(x, y)"));
                }
            }
        }
        crate::large::deep(&mut j, cfg(), &[(if ver == Ver::L50 { 32 } else { 50 }, 50), (2, 3)], &["local q = {y, 2, 3, 4} emit(q)", "for i = 1, 2 do local q = i emit(q) end"], t);
        crate::large::add(
            &mut j,
            cfg(),
            &[(if ver == Ver::L50 { 32 } else { 50 }, 50), (2, 3)],
            &[
                "local a = {1, y} % for i = 1, 2 do local b = {i, 2, 3, 4} emit(a, b) end local c = 2 emit(a, c)",
                "for k, v in it do % local q = {k, v, 3, 4, 5} emit(k, q) end emit(y)",
                "local function f(a, b) % emit(a, b) if ask() then local c = 1 emit(c) end return a end emit(f(1, {1, 2, 3, 4, 5}), y)",
            ],
            t,
        );
        // every instruction on a line of its own
        let mut c = cfg();
        c.lines = true;
        j.cfg(c);
        j.spread = true;
        for (i, o, s) in super::c12::positions(t) {
            if !t && ([(1, 4), (4, 1), (2, 1)].contains(&(i, o)) || (ver == Ver::L51 && i == o)) {
                continue;
            }
            if (j.sets.input(ver).flush, j.sets.out.flush) != (i, o) {
                j.sets(Sets::flush(i, o));
            }
            j.add("positions", s);
        }
        for (fi, fo) in [(32, 50), (2, 3), (3, 1), (2, 6)] {
            j.sets(Sets::flush(fi, fo));
            for s in zoo() {
                if ver == Ver::L51 && (s.contains("arg") || s.contains("in tab")) {
                    continue;
                }
                j.add("zoo", s);
            }
            for (i, s) in ctl.iter().enumerate().filter(|x| t || x.0 % 2 == 0) {
                let f = super::c08::fatten(s, i);
                let f = if ver == Ver::L51 { f.replace("in tab", "in it") } else { f };
                j.add("resized", format!("local x = 1 {f} local y = 2 emit(x, y)"));
            }
        }
        j.run(cx, |c, src, p, q| records(cx, c, src, p, q));
    }
    shapes(cx);
}

/// Every line number and every local variable record is treated like any
/// other: all kinds of numberings, and every order of the records.
fn shapes(cx: &Cx) {
    type F = fn(usize) -> i64;
    let numberings: [(&str, F); 9] = [
        ("all zero", |_| 0),
        ("all one", |_| 1),
        ("first zero", |i| i as i64),
        ("only the last", |i| (i == 0) as i64 * 7),
        ("descending", |i| 1000 - i as i64),
        ("alternating", |i| (i % 2) as i64),
        ("negative", |i| -1 - i as i64),
        ("huge", |i| i32::MAX as i64 - i as i64),
        ("far apart", |i| (i as i64) << 20),
    ];
    let mut work = vec![];
    for v in vers() {
        for (fi, fo) in [(32, 50), (2, 3), (3, 1), (4, 4)] {
            for s in zoo() {
                work.push((v, fi, fo, s));
            }
        }
    }
    cx.par(&work, |i, (v, fi, fo, src)| {
        let s = Sets::flush(*fi, *fo);
        let Ok(p) = gen::comp(&model::parse::parse(src), *v, s.input(*v)) else { return };
        let go = |p: &Proto| {
            cx.eval();
            let input = chunk::write(*v, &Fmt::NATIVE, s.input(*v), p);
            match sut::unify(&input, &samples::NATIVE4, &s) {
                R::Ok(o) => (input, chunk::read(Ver::L51, &s.out, &o).map(|x| x.1).map_err(|e| e.to_string())),
                r => (input, Err(r.brief())),
            }
        };
        let (_, Ok(base)) = go(&p) else { return };
        let judge = |name: &str, p: &Proto, extra: &dyn Fn(&Proto) -> Option<String>| {
            let (input, q) = go(p);
            let d = match &q {
                Err(e) => Some(e.clone()),
                Ok(q) => wrong(p, q, "0").or_else(|| extra(q)),
            };
            let key = format!("shapes/{name}/{v:?}/{fi}->{fo}/{src}");
            if let Some(d) = d {
                cx.bad(20_000_000 + i, &key, &d, &input, &samples::NATIVE4, &s, src);
            } else {
                cx.seen(&key);
                cx.count("debug information of all shapes");
            }
        };
        for (name, f) in numberings {
            let mut q = p.clone();
            each(&mut q, &mut |x| x.lines = (0..x.code.len()).map(f).collect());
            // the instructions do not depend on the lines
            judge(name, &q, &|out| (!same_code(out, &base)).then(|| "the instructions depend on the line numbers".into()));
        }
        // a record may last until the very end
        for all in [false, true] {
            let (mut q, mut want) = (p.clone(), base.clone());
            let last = |x: &mut Proto| {
                let (n, most) = (x.code.len() as i64, x.locals.iter().map(|l| l.end).max().unwrap_or(0));
                for l in &mut x.locals {
                    if all || l.end == most {
                        l.end = n
                    }
                }
            };
            let picks = |x: &Proto| x.locals.iter().map(|l| all || l.end == x.locals.iter().map(|l| l.end).max().unwrap_or(0)).collect::<Vec<_>>();
            both(&p, &mut want, &mut |x, w| {
                let n = w.code.len() as i64;
                picks(x).into_iter().zip(&mut w.locals).filter(|x| x.0).for_each(|x| x.1.end = n);
            });
            each(&mut q, &mut |x| last(x));
            judge("records until the end", &q, &|out| same_locals(out, &want));
        }
        // the order of the records is kept, and each of them is converted on
        // its own
        for (name, turn) in [("reversed records", None), ("rotated records", Some(1)), ("rotated records", Some(2))] {
            let order = |x: &mut Proto| match turn {
                None => x.locals.reverse(),
                Some(k) if x.locals.len() > k => x.locals.rotate_left(k),
                _ => {}
            };
            let (mut q, mut want) = (p.clone(), base.clone());
            each(&mut q, &mut |x| order(x));
            each(&mut want, &mut |x| order(x));
            judge(name, &q, &|out| same_locals(out, &want));
        }
        // the name of a record does not matter
        for name in [&b""[..], b"(for index)", b"arg", b"(", b"\0"] {
            let (mut q, mut want) = (p.clone(), base.clone());
            each(&mut q, &mut |x| x.locals.iter_mut().for_each(|l| l.name = name.to_vec()));
            each(&mut want, &mut |x| x.locals.iter_mut().for_each(|l| l.name = name.to_vec()));
            judge("names", &q, &|out| same_locals(out, &want).or_else(|| (!same_code(out, &base)).then(|| "the instructions depend on the names of local variables".into())));
        }
    });
}
fn both(a: &Proto, b: &mut Proto, f: &mut dyn FnMut(&Proto, &mut Proto)) {
    f(a, b);
    a.p.iter().zip(&mut b.p).for_each(|(a, b)| both(a, b, f));
}
fn same_code(a: &Proto, b: &Proto) -> bool {
    a.code == b.code && a.p.len() == b.p.len() && a.p.iter().zip(&b.p).all(|(a, b)| same_code(a, b))
}
fn same_locals(a: &Proto, b: &Proto) -> Option<String> {
    if a.locals != b.locals {
        return Some(format!("local variable records {:?}, expected {:?}", a.locals, b.locals));
    }
    a.p.iter().zip(&b.p).find_map(|(a, b)| same_locals(a, b))
}
