//! Lua 5.1 to Lua 5.1: the function tree survives in every format.
use super::util::*;
use crate::cx::Cx;
use crate::oracle;
use crate::samples;
use crate::sut::{self, Sets, R};
use crate::Meta;
use model::chunk::{self, raw, Fmt, Local, Proto, K};
use model::ops::*;

pub const META: Meta = Meta {
    id: "C03",
    level: "exploration",
    rule: "all 64x64 format pairs x (a corpus of compiled chunks, and one rich chunk with every field in turn at every boundary value, every list in turn with up to 300 entries), 4 formats x every list with 65535 to 70000 entries, every one of the 256 bytes as a boolean constant; non-trivial: output decoded and compared field by field, or the precise overflow reported",
    assumptions: &["operands without effect on execution (NEWTABLE size hints, unused fields) are not compared"],
    run,
};

/// The rich chunk with one thing changed.
pub fn variants(base: &Proto) -> Vec<(String, Proto)> {
    let mut out = vec![];
    let ints = [0, 1, -1, 127, 128, 255, 256, 65535, 65536, 0x7fff_ffff, -0x8000_0000, 0x8000_0000, 1 << 32, (1 << 40) + 3, -(1i64 << 33), i64::MAX, i64::MIN];
    let fields: &[(&str, fn(&mut Proto, i64))] = &[
        ("line", |p, x| p.line = x),
        ("last line", |p, x| p.last_line = x),
        ("line 0", |p, x| p.lines[0] = x),
        ("line 2", |p, x| p.lines[2] = x),
        ("local 0 start", |p, x| p.locals[0].start = x),
        ("local 0 end", |p, x| p.locals[0].end = x),
        ("inner line", |p, x| p.p[0].line = x),
        ("inner last line", |p, x| p.p[0].last_line = x),
        ("inner line 1", |p, x| p.p[0].lines[1] = x),
        ("inner local end", |p, x| p.p[0].locals[0].end = x),
        ("leaf line", |p, x| p.p[0].p[0].line = x),
    ];
    for (n, f) in fields {
        for x in ints {
            let mut p = base.clone();
            f(&mut p, x);
            out.push((format!("{n}={x}"), p));
        }
    }
    let bytes: &[(&str, fn(&mut Proto, u8))] = &[
        ("nups", |p, x| p.nups = x),
        ("parameters", |p, x| p.nparams = x),
        ("vararg", |p, x| p.vararg = x),
        ("stack", |p, x| p.maxstack = x),
        ("inner nups", |p, x| p.p[0].nups = x),
        ("inner parameters", |p, x| p.p[0].nparams = x),
        ("inner vararg", |p, x| p.p[0].vararg = x),
        ("inner stack", |p, x| p.p[0].maxstack = x),
    ];
    for (n, f) in bytes {
        for x in [0, 1, 2, 3, 4, 5, 6, 7, 8, 31, 127, 128, 200, 250, 251, 254, 255] {
            let mut p = base.clone();
            f(&mut p, x);
            out.push((format!("{n}={x}"), p));
        }
    }
    let mut add = |n: &str, f: &dyn Fn(&mut Proto)| {
        let mut p = base.clone();
        f(&mut p);
        out.push((n.to_string(), p));
    };
    add("source absent", &|p| p.source.clear());
    add("source empty", &|p| p.source = raw(""));
    add("inner source absent", &|p| p.p[0].source.clear());
    add("no instructions", &|p| {
        p.code.clear();
        p.lines.clear()
    });
    add("inner no instructions", &|p| {
        p.p[0].code.clear();
        p.p[0].lines.clear()
    });
    add("no line info", &|p| each(p, &mut |q| q.lines.clear()));
    add("line info in inner only", &|p| p.lines.clear());
    add("no constants", &|p| p.k.clear());
    add("inner no constants", &|p| p.p[0].k.clear());
    add("no functions", &|p| p.p.clear());
    add("functions swapped", &|p| p.p.reverse());
    add("no locals", &|p| p.locals.clear());
    add("upvalue names", &|p| p.upnames = vec![raw("a"), raw("b"), raw("c")]);
    add("no upvalue names", &|p| each(p, &mut |q| q.upnames.clear()));
    add("more line info than instructions", &|p| p.lines.extend([1, 2, 3]));
    add("less line info than instructions", &|p| p.lines.truncate(3));
    for n in [3, 255, 256, 257, 300] {
        add(&format!("{n} constants"), &|p| p.k = (0..n).map(|i| K::Flt(i as f64)).collect());
        add(&format!("{n} string constants"), &|p| p.p[0].k = (0..n).map(|i| K::s(&format!("s{i}"))).collect());
        add(&format!("{n} functions"), &|p| {
            let l = p.p[1].clone();
            p.p = (0..n)
                .map(|i| {
                    let mut l = l.clone();
                    l.line = i;
                    l
                })
                .collect()
        });
        add(&format!("{n} locals"), &|p| p.locals = (0..n).map(|i| Local { name: raw(&format!("l{i}")), start: i, end: i + 1 }).collect());
        add(&format!("{n} upvalue names"), &|p| p.upnames = (0..n).map(|i| raw(&format!("u{i}"))).collect());
        add(&format!("{n} instructions"), &|p| {
            let w = p.code[0];
            p.code = vec![w; n as usize];
            p.lines = (0..n).collect()
        });
    }
    for d in 1..=12 {
        add(&format!("depth {d}"), &|p| {
            let mut q = p.p[1].clone();
            for i in 0..d {
                let mut o = p.p[1].clone();
                o.line = i;
                o.p = vec![q.clone(), p.p[0].clone()];
                o.k = vec![K::s(&format!("level {i}"))];
                if i > 6 {
                    o.p.truncate(1)
                }
                q = o;
            }
            p.p.push(q)
        });
    }
    out
}

/// Lists whose lengths need more than two bytes, one kind at a time.
fn long(base: &Proto) -> Vec<(String, Proto)> {
    let mut out = vec![];
    for n in [65_535i64, 65_536, 65_537, 70_000] {
        let mut add = |what: &str, f: &dyn Fn(&mut Proto)| {
            let mut p = base.clone();
            f(&mut p);
            out.push((format!("{n} {what}"), p));
        };
        add("constants", &|p| p.p[0].k = (0..n).map(|i| K::Flt(i as f64)).collect());
        add("functions", &|p| p.p = vec![p.p[1].clone(); n as usize]);
        add("locals", &|p| p.locals = (0..n).map(|i| Local { name: raw("l"), start: i, end: n - i }).collect());
        add("upvalue names", &|p| p.p[0].upnames = (0..n).map(|i| raw(&format!("{i}"))).collect());
        add("lines", &|p| p.p[0].lines = (0..n).collect());
        add("instructions", &|p| {
            p.code = vec![p.code[0]; n as usize];
            p.lines = (0..n).collect()
        });
        add("source bytes", &|p| p.source = raw(&"s".repeat(n as usize - 1)));
    }
    out
}

/// Functions nested in each other, with others in front of and behind them.
fn nested(base: &Proto) -> Vec<(String, Proto)> {
    let mut out = vec![];
    for depth in 1..=197usize {
        for (side, at) in [("only", 0), ("last", 1), ("middle", 2)] {
            let mut p = base.p[0].clone();
            for level in (0..depth).rev() {
                let mut q = base.p[level % base.p.len()].clone();
                q.line = level as i64 + 1000;
                q.last_line = level as i64 * 3 + 1000;
                q.nups = (level % 7) as u8;
                let mut leaf = base.p[0].clone();
                leaf.p = vec![];
                leaf.line = level as i64 + 5000;
                q.p = match at {
                    0 => vec![p],
                    1 => vec![leaf, p],
                    _ => vec![leaf.clone(), p, leaf],
                };
                p = q;
            }
            let mut main = base.clone();
            main.p = vec![p];
            out.push((format!("{depth} nested functions, {side}"), main));
        }
    }
    out
}

fn long_lists(cx: &Cx, base: usize) {
    let s = Sets::default();
    let fs: Vec<Fmt> = Fmt::all().into_iter().filter(|f| !f.integral && f.num == 8 && (cx.thorough || (f.int == f.size_t && f.int == f.ins))).collect();
    let mut items = vec![];
    for (n, p) in long(&samples::rich(Ver::L51, &s.l51)) {
        for fi in &fs {
            items.push((n.clone(), p.clone(), *fi));
        }
    }
    for (n, p) in nested(&samples::rich(Ver::L51, &s.l51)) {
        for fi in fs.iter().filter(|f| f.int == f.size_t && f.int == f.ins) {
            items.push((n.clone(), p.clone(), *fi));
        }
    }
    cx.par(&items, |i, (n, p, fi)| {
        let p = samples::adapt(p, fi);
        let input = chunk::try_write(Ver::L51, fi, &s.l51, &p).unwrap();
        for fo in fs.iter().filter(|f| *f != fi) {
            cx.eval();
            let key = format!("{n}/{}->{}", short(fi), short(fo));
            let bad = |w: &str| cx.bad(base + i, &key, w, &input, fo, &s, "");
            let Ok(e) = oracle::expect51(&p, &s.l51, &s.out, fo) else {
                continue;
            };
            match sut::unify(&input, fo, &s) {
                R::Ok(o) => match chunk::read(Ver::L51, &s.out, &o) {
                    Ok((_, q)) => {
                        if let Some(d) = oracle::differ(&e, &q, &s.out, "main") {
                            bad(&d)
                        }
                        cx.seen(&key)
                    }
                    Err(x) => bad(&format!("output does not decode: {x}")),
                },
                r => bad(&format!("a representable chunk is not converted: {}", r.brief())),
            }
        }
    });
}

fn run(cx: &Cx) {
    boolean_bytes(cx, Ver::L51, 10_000_000);
    long_lists(cx, 20_000_000);
    let s = Sets::default();
    let mut work = vec![];
    for (n, p) in variants(&samples::rich(Ver::L51, &s.l51)) {
        work.push((n, p))
    }
    work.extend(samples::compiled(Ver::L51, &s.l51));
    cx.add("chunks", work.len() as u64);
    // the combination of formats is complete; big chunks meet fewer of them
    let mut items = vec![];
    for (n, p) in &work {
        for fi in Fmt::all() {
            items.push((n, p, fi));
        }
    }
    cx.par(&items, |i, (n, p, fi)| {
        let p = samples::adapt(p, fi);
        let Ok(input) = chunk::try_write(Ver::L51, fi, &s.l51, &p) else {
            return;
        };
        for fo in Fmt::all() {
            if !cx.thorough && input.len() > 3000 && (fo.num == 4 || fo.integral) {
                continue;
            }
            cx.eval();
            let key = format!("{n}/{}->{}", short(fi), short(&fo));
            let r = sut::unify(&input, &fo, &s);
            let bad = |w: &str| cx.bad(i, &key, w, &input, &fo, &s, "");
            if *fi == fo {
                // identity: the chunk is returned as is
                if r != R::Ok(input.clone()) {
                    bad(&format!("a chunk already in the requested format changed: {}", r.brief()))
                }
                continue;
            }
            match oracle::expect51(&p, &s.l51, &s.out, &fo) {
                Ok(e) => match &r {
                    R::Ok(o) => match chunk::read(Ver::L51, &s.out, o) {
                        Ok((_, q)) => {
                            if let Some(d) = oracle::differ(&e, &q, &s.out, "main") {
                                bad(&d)
                            }
                            cx.seen(&key);
                            cx.sample(|| format!("{key}: {} -> {} bytes, {} functions compared", input.len(), o.len(), 1 + q.p.len()));
                        }
                        Err(x) => bad(&format!("output does not decode: {x}")),
                    },
                    r => bad(&format!("a representable chunk is not converted: {}", r.brief())),
                },
                Err(why) => {
                    if !oracle::unrepresentable(&r, &why) {
                        bad(&format!("the output cannot hold a value ({why:?}), yet: {}", r.brief()))
                    } else {
                        cx.seen(&key);
                        cx.count("unrepresentable values reported")
                    }
                }
            }
        }
    });
}
