//! Identity, idempotence and independence of the path of formats.
use super::util::*;
use crate::cx::Cx;
use crate::oracle;
use crate::samples;
use crate::sut::{self, Sets, R};
use crate::Meta;
use model::chunk::{self, Fmt, Proto};
use model::gen;
use model::ops::*;

pub const META: Meta = Meta {
    id: "C19",
    level: "exploration",
    rule: "chunks x input versions x all input formats x all intermediate formats x all output formats (64 each), longer chains, all pairs of equal settings; non-trivial: both paths converted and the bytes compared",
    assumptions: &["intermediate formats that cannot hold all values exactly are not used"],
    run,
};

/// The whole format, or every format of a coarser set.
fn formats(all: bool) -> Vec<Fmt> {
    Fmt::all().into_iter().filter(|f| all || (f.little as u8 + (f.int == 4) as u8 + (f.size_t == 4) as u8 + (f.ins == 4) as u8) % 2 == 0).collect()
}
fn holds(p: &Proto, f: &Fmt) -> bool {
    let small = |v: i64| f.int == 8 || i32::try_from(v).is_ok();
    p.k.iter().all(|k| match oracle::number(k, f) {
        Ok(x) => match (k, x) {
            (chunk::K::Flt(a), chunk::K::Flt(b)) => a.to_bits() == b.to_bits(),
            (chunk::K::Flt(a), chunk::K::Int(b)) => *a == b as f64 && !(*a == 0.0 && a.is_sign_negative()),
            (chunk::K::Int(a), chunk::K::Flt(b)) => *a as f64 == b && b as i64 == *a,
            _ => true,
        },
        Err(_) => false,
    }) && p.code.iter().all(|&w| f.ins == 8 || w <= u32::MAX as u64)
        && p.lines.iter().all(|&l| small(l))
        && small(p.line)
        && small(p.last_line)
        && p.locals.iter().all(|l| small(l.start) && small(l.end))
        && p.p.iter().all(|q| holds(q, f))
}

fn run(cx: &Cx) {
    let t = cx.thorough;
    let d = Sets::default();
    let mut chunks: Vec<(String, Ver, Sets, Proto)> = vec![];
    for v in vers() {
        let side = d.input(v);
        chunks.push(("rich".into(), v, d.clone(), samples::rich(v, side)));
        for (n, p) in samples::compiled(v, side) {
            chunks.push((n, v, d.clone(), p));
        }
    }
    // values at the limits of some formats
    let rich = samples::rich(Ver::L51, &d.l51);
    for (n, p) in super::c03::variants(&rich) {
        if n.contains('=') && (n.contains("line") || n.contains("local")) || n.contains("absent") || n.contains("strip") || n.starts_with("no ") {
            chunks.push((n, Ver::L51, d.clone(), p));
        }
    }
    for x in [0.5, 1e100, -0.0, 16777217.0, 9007199254740993.0, f64::INFINITY, 2147483648.0, 5e-324] {
        let mut p = rich.clone();
        p.k[1] = chunk::K::Flt(x);
        chunks.push((format!("number {x}"), Ver::L51, d.clone(), p));
    }
    // settings other than the default ones, equal for input and output
    for (n, f) in [
        ("layout", (|s: &mut Side| s.layout = LAYOUT50) as fn(&mut Side)),
        ("flush", |s| s.flush = 7),
        ("signature", |s| s.sig = "\x1bLux".into()),
        ("limit", |s| s.limit = 100),
    ] {
        let mut s = d.clone();
        f(&mut s.l51);
        f(&mut s.out);
        for (m, p) in samples::compiled(Ver::L51, &s.l51) {
            chunks.push((format!("{n}: {m}"), Ver::L51, s.clone(), p));
        }
        for (m, p) in samples::compiled(Ver::L50, &s.l50) {
            chunks.push((format!("{n}: {m}"), Ver::L50, s.clone(), p));
        }
    }
    cx.add("chunks", chunks.len() as u64);
    for v in vers() {
        for s in zoo().into_iter().step_by(if t { 1 } else { 5 }) {
            if let Ok(p) = gen::comp(&model::parse::parse(&s), v, d.input(v)) {
                chunks.push((s, v, d.clone(), p));
            }
        }
    }
    large(cx);
    let mut work = vec![];
    for (ci, c) in chunks.iter().enumerate() {
        for fi in formats(t || ci < 30) {
            work.push((ci, c, fi));
        }
    }
    cx.par(&work, |i, (ci, (n, v, s, p), fi)| {
        let full = t && *ci < 60 || *ci < 4;
        let p = samples::adapt(p, fi);
        let Ok(input) = chunk::try_write(*v, fi, s.input(*v), &p) else { return };
        let key = |path: &[&Fmt]| format!("{}/{v:?}/{}", n.chars().take(100).collect::<String>(), path.iter().map(|f| short(f)).collect::<Vec<_>>().join("->"));
        let conv = |x: &[u8], f: &Fmt| {
            cx.eval();
            sut::unify(x, f, s)
        };
        if *v == Ver::L51 {
            let r = conv(&input, fi);
            if r != R::Ok(input.clone()) {
                cx.bad(i, &key(&[fi, fi]), &format!("a chunk that already is in the requested format is not returned unchanged: {}", r.brief()), &input, fi, s, "");
                return;
            }
            cx.count("returned unchanged");
        }
        // Every output, once.
        let outs: Vec<(Fmt, R)> = Fmt::all().into_iter().map(|f| (f, conv(&input, &f))).collect();
        for (f, r) in &outs {
            let R::Ok(o) = r else {
                if let R::Panic(e) = r {
                    cx.bad(i, &key(&[fi, f]), &format!("the conversion panicked: {e}"), &input, f, s, "")
                } else if holds(&p, f) {
                    cx.bad(i, &key(&[fi, f]), &format!("a representable chunk is not converted: {}", r.brief()), &input, f, s, "")
                }
                continue;
            };
            // reading the output again needs the settings it was written for
            let again = conv_as(cx, o, f, s);
            if again != R::Ok(o.clone()) {
                cx.bad(i, &key(&[fi, f, f]), &format!("converting the output again changes it: {}", again.brief()), o, f, s, "");
                return;
            }
            if !holds(&p, f) {
                continue;
            }
            let mine = formats(full);
            for (g, direct) in &outs {
                if !full && !mine.contains(g) {
                    continue;
                }
                // rounding is allowed from one floating format to another only
                if !holds(&p, g) && f.integral != fi.integral {
                    continue;
                }
                let via = conv_as(cx, o, g, s);
                let same = match (&via, direct) {
                    (R::Ok(a), R::Ok(b)) => a == b || (fi == g && *v == Ver::L51 && hints(s, a, b)),
                    (R::Err(a), R::Err(b)) => a == b,
                    _ => false,
                };
                if !same {
                    cx.bad(i, &key(&[fi, f, g]), &format!("the result depends on the path: directly {}, through {} {}", direct.brief(), short(f), via.brief()), &input, g, s, "");
                    return;
                }
            }
        }
        // chains of four formats
        if *ci % 5 == 0 || t {
            let all = Fmt::all();
            for a in 0..64 {
                let chain = [all[a], all[(a * 7 + 3) % 64], all[(a * 11 + 40) % 64], *fi];
                if !chain.iter().all(|f| holds(&p, f)) {
                    continue;
                }
                let mut x = input.clone();
                let mut ok = true;
                for (k, f) in chain.iter().enumerate() {
                    let r = if k == 0 { conv(&x, f) } else { conv_as(cx, &x, f, s) };
                    match r {
                        R::Ok(o) => x = o,
                        r => {
                            cx.bad(i, &key(&chain.iter().collect::<Vec<_>>()), &format!("step {k} of a chain fails: {}", r.brief()), &input, f, s, "");
                            ok = false;
                            break;
                        }
                    }
                }
                let direct = conv(&input, fi);
                if ok && direct != R::Ok(x.clone()) && !matches!(&direct, R::Ok(d) if *v == Ver::L51 && hints(s, d, &x)) {
                    cx.bad(i, &key(&chain.iter().collect::<Vec<_>>()), "a chain of formats ends in other bytes", &input, fi, s, "");
                }
            }
        }
        cx.seen(&(n, v, fi, s));
        cx.sample(|| format!("{}: 64 outputs, each converted again and through the others", key(&[fi])));
    });
}
/// Inputs around every power of two of a size up to a few mebibytes, with
/// instructions whose operands carry information that only an unchanged chunk
/// keeps: returned unchanged, and stable.
fn large(cx: &Cx) {
    let d = Sets::default();
    let mut work = vec![];
    for bit in 9..=if cx.thorough { 24 } else { 21 } {
        for delta in [-3i64, -1, 0, 1, 5] {
            for kind in 0..3 {
                for fi in [Fmt::NATIVE, Fmt { little: false, int: 8, size_t: 4, ins: 8, num: 4, ..Fmt::NATIVE }] {
                    work.push((((1i64 << bit) + delta) as usize, kind, fi));
                }
            }
        }
    }
    cx.par(&work, |i, (size, kind, fi)| {
        let l = &d.l51;
        let mut p = samples::rich(Ver::L51, l).p[0].p[0].clone();
        let table = l.layout.abc(Ver::L51.code_of(Op::NewTable).unwrap(), 0, 9, 17).unwrap();
        let ret = *p.code.last().unwrap();
        p.code = vec![table, ret];
        p.lines = vec![1, 2];
        p = samples::adapt(&p, fi);
        p.k = vec![chunk::K::Nil];
        let len = |p: &Proto| chunk::write(Ver::L51, fi, l, p).len();
        let room = match size.checked_sub(len(&p)) {
            Some(r) => r,
            None => return,
        };
        // fill up with one kind of data, the rest in a name
        match kind {
            0 => {}
            1 => {
                for _ in 0..room / (fi.ins as usize + fi.int as usize) {
                    p.code.insert(0, table);
                    p.lines.insert(0, 1);
                }
            }
            _ => p.k = vec![chunk::K::Nil; 1 + room],
        }
        let left = size - len(&p);
        let mut pad = vec![b'a'; left];
        pad.extend(&p.source);
        p.source = pad;
        let input = chunk::write(Ver::L51, fi, l, &p);
        let key = format!("large/{}/{size}/{kind}", short(fi));
        cx.eval();
        let r = sut::unify(&input, fi, &d);
        if r != R::Ok(input.clone()) {
            return cx.bad(800_000 + i, &key, &format!("a chunk of {} bytes that already is in the requested format is not returned unchanged: {}", input.len(), r.brief()), &input, fi, &d, "");
        }
        cx.count("large: returned unchanged");
        // there and back: only the hints may change, and only once
        let f = Fmt { little: !fi.little, ..*fi };
        cx.eval();
        let R::Ok(there) = sut::unify(&input, &f, &d) else { return cx.bad(800_000 + i, &key, "not converted", &input, &f, &d, "") };
        let back = sut::unify(&there, fi, &d);
        match &back {
            R::Ok(b) if *b == input || b.len() == input.len() && hints(&d, b, &input) => cx.count("large: there and back"),
            _ => cx.bad(800_000 + i, &key, &format!("there and back is something else: {}", back.brief()), &input, fi, &d, ""),
        }
        cx.eval();
        if let (R::Ok(b), again) = (&back, sut::unify(&there, &f, &d)) {
            if again != R::Ok(there.clone()) || sut::unify(b, &f, &d) != R::Ok(there.clone()) {
                cx.bad(800_000 + i, &key, "the result depends on the path", &input, &f, &d, "");
            }
        }
    });
}
/// Convert an output of this conversion again.
fn conv_as(cx: &Cx, x: &[u8], f: &Fmt, s: &Sets) -> R {
    cx.eval();
    if s.l51 == s.out {
        return sut::unify(x, f, s);
    }
    let mut s = s.clone();
    s.l51 = s.out.clone();
    sut::unify(x, f, &s)
}
/// Equal but for the size hints of NEWTABLE.
fn hints(s: &Sets, a: &[u8], b: &[u8]) -> bool {
    match (chunk::read(Ver::L51, &s.out, a), chunk::read(Ver::L51, &s.out, b)) {
        (Ok((f, mut x)), Ok((g, mut y))) => {
            let zero = |p: &mut Proto| {
                for w in &mut p.code {
                    let d = s.out.layout.dec(*w);
                    if d.op == Ver::L51.code_of(Op::NewTable).unwrap() {
                        *w = s.out.layout.abc(d.op, d.a, 0, 0).unwrap()
                    }
                }
            };
            each(&mut x, &mut |p| zero(p));
            each(&mut y, &mut |p| zero(p));
            f == g && oracle::differ(&x, &y, &s.out, "0").is_none() && oracle::differ(&y, &x, &s.out, "0").is_none()
        }
        _ => false,
    }
}
