//! Declared stack sizes and stack limits.
use super::util::*;
use crate::behave::{self, Jobs};
use crate::corpus;
use crate::cx::Cx;
use crate::large;
use crate::sut::{self, Sets, R};
use crate::Meta;
use lunify::LunifyError;
use model::chunk::{self, Fmt, Proto};
use model::gen;
use model::ops::*;
use model::product::Cfg;
use model::verify;

pub const META: Meta = Meta {
    id: "C17",
    level: "model_checking",
    rule: "programs with every construct x every shift of all registers of the main function that brings the registers of the conversion below, to and above the limit x stack limits x flush sizes; constructors of simple items, whose registers are known; constructs at the end of functions that are large in one dimension; every register every output instruction uses is compared with the declared size, and the programs are explored on a machine that checks each access; non-trivial: the conversion succeeded with a larger stack than the input",
    assumptions: &["the limit concerns what the conversion adds: an input above the limit that needs no more registers is out of scope"],
    run,
};

fn tree(p: &Proto, q: &Proto, side: &Side, limit: u64, path: &str) -> Option<String> {
    let need = verify::registers(side, q);
    if need > q.maxstack as u64 {
        return Some(format!("function {path}: register {} is used, the stack has {}", need - 1, q.maxstack));
    }
    if q.maxstack < p.maxstack {
        return Some(format!("function {path}: the stack shrinks from {} to {}", p.maxstack, q.maxstack));
    }
    if q.maxstack as u64 > limit && q.maxstack > p.maxstack {
        return Some(format!("function {path}: stack {} above the limit {limit}", q.maxstack));
    }
    p.p.iter().zip(&q.p).enumerate().find_map(|(i, (a, b))| tree(a, b, side, limit, &format!("{path}.{i}")))
}

/// Move every register of a function without parameters up by `k`.
fn shift(ver: Ver, side: &Side, p: &Proto, k: u64) -> Option<Proto> {
    let mut q = p.clone();
    if p.nparams != 0 {
        return None;
    }
    let mut pseudo = 0;
    for w in &mut q.code {
        let mut c = canon(ver, side, *w)?;
        let up = |a: Arg| if let Arg::R(r) = a { Arg::R(r + k) } else { a };
        if pseudo > 0 {
            pseudo -= 1;
            c.x = up(c.x);
            *w = encode(ver, side, &c)?;
            continue;
        }
        if c.op == Op::Closure {
            pseudo = p.p[side.layout.dec(*w).bx as usize].nups;
        }
        if !matches!(c.op, Op::Eq | Op::Lt | Op::Le) {
            c.a = c.a.map(|a| a + k);
        }
        c.x = up(c.x);
        c.y = up(c.y);
        *w = encode(ver, side, &c)?;
    }
    q.maxstack = u8::try_from(p.maxstack as u64 + k).ok()?;
    // records of local variables count registers from zero
    q.locals.clear();
    Some(q)
}

fn run(cx: &Cx) {
    let t = cx.thorough;
    let mut cfg = Cfg { ignore_n: true, ..super::c16::cfg() };
    cfg.debug = false;
    cfg.max_states = 60;
    // every construct, and control flow around it
    for ver in vers() {
        let mut j = Jobs::new(ver, Sets::default(), cfg.clone());
        for (fi, fo) in [(32, 50), (2, 3), (3, 1), (2, 9)] {
            j.sets(Sets::flush(fi, fo));
            for s in zoo() {
                if ver == Ver::L51 && (s.contains("arg") || s.contains("in tab")) {
                    continue;
                }
                j.add("zoo", s);
            }
            if fi == 2 {
                for (i, s) in corpus::control(if t { 4 } else { 3 }, 0, &["emit", "local", "if", "while", "repeat", "nfor", "gfor1", "gfor2", "closure"]).iter().enumerate() {
                    let f = super::c08::fatten(s, i);
                    j.add("control", if ver == Ver::L51 { f.replace("in tab", "in it") } else { f });
                }
            }
        }
        for (i, o, s) in super::c12::positions(t) {
            if (j.sets.input(ver).flush, j.sets.out.flush) != (i, o) {
                j.sets(Sets::flush(i, o));
            }
            j.add("positions", s);
        }
        large::deep(&mut j, cfg.clone(), &[(if ver == Ver::L50 { 32 } else { 50 }, 50), (2, 3)], &["for i = 1, 2 do emit({i, y, 3, 4, 5}) end"], t);
        j.run(cx, |c, src, p, q| {
            if let Some(d) = tree(p, q, &c.sets.out, c.sets.out.limit, "0") {
                cx.violation(c.order, c.key.clone(), d.clone(), format!("property: C17\n{}\n{d}\nsource:\n{src}\n", c.sets.describe()))
            }
        });
    }
    limits(cx, t);
    tight(cx);
    late(cx, t);
}

/// The same limits for constructs at the end of large functions.
fn late(cx: &Cx, t: bool) {
    let srcs = [
        "for i = 1, 3 do end",
        "for i = 1, 3 do for j = 1, 3 do emit(i) end end",
        "for k in it do end",
        "for a, b, c, d, e, f, g, h, i, j in it do emit(a, j) end",
        "for k in tab do end",
        "emit({1, 2, 3, 4, 5, 6, 7, 8, 9})",
        "local t = {y, nil, nil, nil, nil, nil, nil, nil, nil, multi()}",
        "local function f(...) for i in it do end end emit(f(1))",
    ];
    let mut work = vec![];
    for ver in vers() {
        for (fi, fo) in [(32, 50), (2, 3), (2, 9)] {
            for dim in large::DIMS {
                for n in large::sizes(dim, t) {
                    for src in srcs {
                        if ver == Ver::L51 && (src.contains("tab") || src.contains("...") || fi > 30) {
                            continue;
                        }
                        work.push((ver, fi, fo, dim, n, src));
                    }
                }
            }
        }
    }
    cx.par(&work, |i, &(ver, fi, fo, dim, n, src)| {
        let mut s = Sets::flush(fi, fo);
        s.out.limit = 255;
        let text = format!("local y, z = 5, {{}} {} {src}", large::fill(dim, n));
        let Ok(p) = gen::comp(&model::parse::parse(&text), ver, s.input(ver)) else { return };
        let input = chunk::write(ver, &behave::in_fmt(ver), s.input(ver), &p);
        let key = format!("late/{ver:?}/{fi}->{fo}: {n} {dim}, {src}");
        cx.eval();
        let q = match sut::unify(&input, &Fmt::NATIVE, &s) {
            R::Ok(o) => chunk::read(Ver::L51, &s.out, &o).ok().map(|x| x.1),
            R::Err(LunifyError::ValueTooBigForOperand) if p.k.len() > 250 => return cx.count("constants above the operand size"),
            R::Err(LunifyError::StackTooLarge(_)) if p.maxstack > 200 => return,
            _ => None,
        };
        let Some(q) = q else { return cx.bad(i, &key, "rejected", &input, &Fmt::NATIVE, &s, src) };
        if let Some(d) = tree(&p, &q, &s.out, 255, "0") {
            return cx.bad(i, &key, &d, &input, &Fmt::NATIVE, &s, src);
        }
        let need = most(&q, &|x| verify::registers(&s.out, x));
        let has = most(&p, &|x| x.maxstack as u64);
        for limit in need.saturating_sub(2)..=need + 1 {
            if limit < has {
                continue;
            }
            s.out.limit = limit;
            cx.eval();
            let r = sut::unify(&input, &Fmt::NATIVE, &s);
            let ok = match &r {
                R::Ok(_) => need <= limit,
                R::Err(LunifyError::StackTooLarge(_)) => need > limit,
                _ => false,
            };
            if !ok {
                cx.bad(i, &format!("{key} limit {limit}"), &format!("{need} registers with a limit of {limit}: {}", r.brief()), &input, &Fmt::NATIVE, &s, src);
            }
            cx.seen(&key);
        }
    });
}
fn most(p: &Proto, f: &dyn Fn(&Proto) -> u64) -> u64 {
    p.p.iter().map(|x| most(x, f)).max().unwrap_or(0).max(f(p))
}

/// Constructors of simple items need no register but those of a page.
fn tight(cx: &Cx) {
    let mut work = vec![];
    for ver in vers() {
        let mut sizes: Vec<(u64, u64)> = vec![(32, 50), (50, 32), (50, 60), (60, 50), (50, 200), (200, 50), (60, 128), (120, 240), (100, 200), (240, 100)];
        for i in 1..8 {
            for o in 1..8 {
                sizes.push((i, o))
            }
        }
        for (i, o) in sizes {
            for n in if i < 8 { (0..18).collect::<Vec<u64>>() } else { vec![1, 31, 32, 33, 49, 50, 51, 59, 60, 61, 63, 64, 65, 66, 67, 68, 99, 100, 101, 119, 120, 121, 127, 128, 129, 130, 199, 200, 201, 239, 240, 241, 245] } {
                for kind in 0..6 {
                    work.push((ver, i, o, n, kind));
                }
            }
        }
    }
    cx.par(&work, |i, &(ver, fi, fo, n, kind)| {
        let items: Vec<&str> = (0..n)
            .map(|k| match kind {
                0 => "nil",
                1 => "7",
                2 => ["nil", "7"][(k >= n / 2) as usize],
                3 => ["7", "nil"][(k >= n / 2) as usize],
                4 => ["7", "nil", "nil", "nil", "nil"][k as usize % 5],
                _ => ["x", "{}", "true", "G", "function() return x end", "nil", "nil"][k as usize % 7],
            })
            .collect();
        let s = Sets::flush(fi, fo);
        for locals in [0, 3] {
            let src = format!("local x = 1 {} local t = {{{}}} emit(t)", "local y = 2 ".repeat(locals), items.join(", "));
            let Ok(p) = gen::comp(&model::parse::parse(&src), ver, s.input(ver)) else { continue };
            let input = chunk::write(ver, &behave::in_fmt(ver), s.input(ver), &p);
            cx.eval();
            let key = format!("tight/{ver:?}/{fi}->{fo}: {n} items of kind {kind} above {} locals", locals + 1);
            // the constructor, or the call at the end
            let most = (locals as u64 + 2 + n.min(fo)).max(locals as u64 + 4);
            if p.maxstack as u64 > 250 {
                continue;
            }
            let mut s = s.clone();
            s.out.limit = most.max(p.maxstack as u64);
            let r = sut::unify(&input, &Fmt::NATIVE, &s);
            match &r {
                R::Ok(o) => match chunk::read(Ver::L51, &s.out, o) {
                    Ok((_, q)) => {
                        let need = verify::registers(&s.out, &q);
                        if need > s.out.limit {
                            cx.bad(i, &key, &format!("{need} registers are used with a limit of {}", s.out.limit), &input, &Fmt::NATIVE, &s, &src)
                        } else {
                            cx.seen(&key)
                        }
                    }
                    Err(e) => cx.bad(i, &key, &format!("the output cannot be read: {e}"), &input, &Fmt::NATIVE, &s, &src),
                },
                r if most <= 250 => cx.bad(i, &key, &format!("{most} registers are enough, but it is not converted: {}", r.brief()), &input, &Fmt::NATIVE, &s, &src),
                _ => cx.count("above the limit"),
            }
        }
    });
}

fn limits(cx: &Cx, t: bool) {
    let srcs = [
        "emit(1)",
        "for i = 1, 3 do emit(i) end",
        "for i = 1, 3 do end",
        "for i = 1, 3 do for j = 1, 3 do end end",
        "for k in it do end",
        "for k in it do emit(k) end",
        "for k, v in it do end",
        "for k, v in it do emit(k, v) end",
        "for k, v, w in it do end",
        "for k, v, w, x, y in it do end",
        "for a, b, c, d, e, f, g, h, i, j in it do emit(a, j) end",
        "for k in tab do end",
        "emit({1, 2, 3, 4, 5, 6, 7, 8, 9})",
        "local t = {1, 2, 3, {4, 5, 6, 7}, 8}",
        "local t = {1, 2, multi()}",
        "local t = {val(1), {}, function() return 1 end, nil, nil, ask() and 2}",
        "emit(multi(1, 2, 3))",
        "local a, b, c, d = multi()",
        "obj:m(1, 2)",
        "emit(\"a\" .. val(1) .. \"b\" .. val(2))",
        "local a, b, c, d, e",
        "return 1, 2, 3, 4",
        "local function f(...) return arg end emit(f(1))",
        "local a, b local function f() a = b return a end emit(f)",
        "local x = not (ask() and val(2) == 3)",
    ];
    let mut work = vec![];
    for ver in vers() {
        for (fi, fo) in [(32, 50), (2, 3), (2, 9), (4, 1), (1, 50)] {
            for s in srcs {
                if ver == Ver::L51 && (s.contains("arg") || s.contains("tab")) {
                    continue;
                }
                work.push((ver, fi, fo, s));
            }
        }
    }
    cx.par(&work, |i, &(ver, fi, fo, src)| {
        let mut sets = Sets::flush(fi, fo);
        sets.out.limit = 255;
        let p = gen::comp(&model::parse::parse(src), ver, sets.input(ver)).unwrap();
        let conv = |p: &Proto, s: &Sets| {
            let input = chunk::write(ver, &behave::in_fmt(ver), s.input(ver), p);
            cx.eval();
            let r = sut::unify(&input, &Fmt::NATIVE, s);
            (input, r)
        };
        let tree_of = |r: &R, s: &Sets| match r {
            R::Ok(o) => chunk::read(Ver::L51, &s.out, o).ok().map(|x| x.1),
            _ => None,
        };
        let (input, r) = conv(&p, &sets);
        let key0 = format!("limits/{ver:?}/{fi}->{fo}: {src}");
        let Some(q0) = tree_of(&r, &sets) else {
            cx.bad(i, &key0, &format!("a small program is rejected: {}", r.brief()), &input, &Fmt::NATIVE, &sets, src);
            return;
        };
        let need0 = verify::registers(&sets.out, &q0);
        let inner = |f: &dyn Fn(&Proto) -> u64| {
            let mut m = 0;
            for x in &q0.p {
                m = m.max(f(x));
            }
            m
        };
        let need_inner = inner(&|x| verify::registers(&sets.out, x));
        // shifts that bring the registers to the limit; every limit around it
        for limit in [250u64, 255, 200, 100, 2, 300, 1000, u64::MAX].into_iter().chain(if t { 3..60 } else { 10..20 }) {
            let eff = limit.min(255);
            let mut shifts: Vec<u64> = (0..4).collect();
            for x in [need0, p.maxstack as u64] {
                for d in 0..8u64 {
                    shifts.push((eff + 4).saturating_sub(x + d));
                }
            }
            shifts.sort();
            shifts.dedup();
            let mut s = sets.clone();
            s.out.limit = limit;
            for k in shifts {
                let Some(ps) = shift(ver, s.input(ver), &p, k) else { continue };
                if ps.maxstack as u64 > eff || need_inner > eff || (p.p.iter().any(|x| x.maxstack as u64 > eff)) {
                    continue;
                }
                let key = format!("{key0} shift {k} limit {limit}");
                let (input, r) = conv(&ps, &s);
                let bad = |w: String| cx.bad(i, &key, &w, &input, &Fmt::NATIVE, &s, src);
                let need = need0 + k;
                match &r {
                    R::Ok(_) => match tree_of(&r, &s) {
                        None => bad("the output cannot be read".into()),
                        Some(q) => {
                            if let Some(d) = tree(&ps, &q, &s.out, limit, "0") {
                                bad(d)
                            } else if verify::registers(&s.out, &q) > eff {
                                bad(format!("{} registers are used with a limit of {limit}", verify::registers(&s.out, &q)))
                            }
                            if q.maxstack > ps.maxstack {
                                cx.seen(&key);
                                cx.sample(|| format!("{key}: stack {} -> {}", ps.maxstack, q.maxstack));
                            }
                        }
                    },
                    R::Err(LunifyError::StackTooLarge(n)) => {
                        if need <= eff {
                            bad(format!("{need} registers are enough, but the conversion reports a stack of {n} for a limit of {limit}"))
                        } else {
                            cx.count("above the limit");
                        }
                    }
                    R::Err(LunifyError::ValueTooBigForOperand) if need > 255 => cx.count("above the operand size"),
                    r => bad(format!("{need} registers with a limit of {limit}: {}", r.brief())),
                }
            }
        }
    });
}
