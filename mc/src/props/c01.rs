//! Malformed byte code: single faults, pairs of faults, all short instruction
//! sequences, hostile counts, deep nesting.
use super::util::*;
use crate::cx::Cx;
use crate::samples;
use crate::sut::{self, Sets, R};
use crate::Meta;
use model::chunk::{self, Fmt, Local, Proto, K};
use model::gen;
use model::ops::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;

pub const META: Meta = Meta {
    id: "C01",
    level: "fault_enumeration",
    rule: "every byte of every chunk of a corpus x all 256 values, every pair of fields x boundary values, every instruction sequence up to a length over all opcodes and boundary operands (plain, Lua 5.0, Lua 5.1 with other flush sizes), all byte strings up to a length, hostile counts, deep nesting, long functions; versions x formats x extreme settings; overflow checks on, memory measured; non-trivial: malformed inputs converted or rejected without a panic within the memory bound",
    assumptions: &["a flush size of 0 is not valid (Lua divides by it)", "memory in proportion: at most 256 KiB plus 1000 bytes per byte of input", "a conversion that takes more than 20 s counts as one that does not end"],
    run,
};

static WORST: AtomicU64 = AtomicU64::new(0);
static WORST_ABS: AtomicU64 = AtomicU64::new(0);

fn try_one(cx: &Cx, i: usize, key: &dyn Fn() -> String, b: &[u8], fo: &Fmt, s: &Sets) -> bool {
    cx.eval();
    let r = sut::unify(b, fo, s);
    if let R::Panic(p) = &r {
        cx.bad(i, &key(), &format!("the conversion panicked: {p}"), b, fo, s, "");
        return false;
    }
    let peak = sut::peak();
    let n = b.len() as u64;
    if peak > (256 << 10) + 1000 * n {
        cx.bad(i, &key(), &format!("the conversion of {n} bytes uses {peak} bytes of memory"), b, fo, s, "");
        return false;
    }
    WORST_ABS.fetch_max(peak, Relaxed);
    if n > 0 && peak > 4096 {
        WORST.fetch_max(peak / n, Relaxed);
    }
    !cx.stopped()
}

fn sets() -> Vec<(&'static str, Sets)> {
    let d = Sets::default();
    let mut v = vec![("default", d.clone())];
    for (n, i, o) in [("flush 50->3", 50, 3), ("flush 3->50", 3, 50), ("flush 1->2", 1, 2), ("flush max", 50, u64::MAX), ("flush max->1", u64::MAX, 1), ("flush max->max-1", u64::MAX, u64::MAX - 1), ("flush 2^63", 1 << 62, 1 << 63)] {
        v.push((n, Sets::flush(i, o)))
    }
    for (n, i, o) in [("limit 0", 0, 0), ("limit 1", 1, 1), ("limit max", u64::MAX, u64::MAX), ("limit 2^63", 1 << 63, 1 << 63), ("limit 256", 256, 256)] {
        let mut s = Sets::flush(50, 7);
        s.l50.limit = i;
        s.l51.limit = i;
        s.out.limit = o;
        v.push((n, s))
    }
    use Fld::*;
    let wide = Layout([(C, 8), (B, 25), (A, 21), (O, 10)]);
    let mut s = Sets::flush(50, 7);
    s.l50.layout = wide;
    s.l51.layout = wide;
    v.push(("wide input", s.clone()));
    s.out.layout = wide;
    v.push(("wide", s));
    let mut s = Sets::flush(50, 7);
    s.out.layout = Layout([(B, 8), (C, 8), (A, 7), (O, 6)]);
    v.push(("narrow output", s));
    let mut s = Sets::flush(2, 7);
    s.l50.sig = String::new();
    s.l51.sig = String::new();
    s.out.sig = "x".repeat(300);
    v.push(("signatures", s));
    v
}

fn wide_enough(s: &Sets, v: Ver) -> Fmt {
    let n = if s.input(v).layout.total() > 32 { 8 } else { 4 };
    Fmt { ins: n, size_t: if s.out.layout.total() > 32 { 4 } else { 8 }, ..Fmt::NATIVE }
}
fn other(f: &Fmt, s: &Sets) -> Fmt {
    Fmt { size_t: 12 - f.size_t, ins: if s.out.layout.total() > 32 { 8 } else { f.ins }, ..*f }
}

fn run(cx: &Cx) {
    bytes(cx);
    fields(cx);
    sequences(cx);
    tables(cx);
    short_inputs(cx);
    hostile(cx);
    nesting(cx);
    long(cx);
    cx.add("peak memory per byte of input (max, above 4 KiB)", WORST.load(Relaxed));
    cx.add("peak memory (max)", WORST_ABS.load(Relaxed));
}

/// The corpus: every program in a few formats and settings.
fn corpus(t: bool) -> Vec<(String, Ver, Arc<Sets>, Fmt, Proto)> {
    let mut v = vec![];
    let be = Fmt { little: false, int: 8, ins: 8, num: 4, ..Fmt::NATIVE };
    let mut srcs: Vec<String> = samples::SOURCES.iter().map(|s| s.1.to_string()).collect();
    if t {
        srcs.extend(zoo().into_iter().step_by(9));
    }
    for (k, (n, s)) in sets().into_iter().enumerate() {
        let s = Arc::new(s);
        for ver in vers() {
            let side = s.input(ver);
            let f = wide_enough(&s, ver);
            let fs = if k == 0 { vec![f, be, Fmt { integral: true, num: 8, size_t: 4, ..f }] } else { vec![f] };
            let d = Side { flush: side.flush.min(1000), limit: side.limit.clamp(20, 250), ..side.clone() };
            // what a compiler with another stack limit made of it
            for f in fs {
                for src in &srcs {
                    if let Ok(p) = gen::comp(&model::parse::parse(src), ver, &d) {
                        v.push((format!("{n}/{src}"), ver, s.clone(), f, samples::adapt(&p, &f)));
                    }
                }
                // constants are references only where both operands can be
                if d.layout.size(Fld::C) >= d.layout.size(Fld::B) {
                    let p = samples::rich(ver, &Side { limit: 250, ..d.clone() });
                    v.push((format!("{n}/rich"), ver, s.clone(), f, samples::adapt(&p, &f)));
                }
            }
        }
    }
    v
}

fn bytes(cx: &Cx) {
    let work = corpus(cx.thorough);
    cx.par(&work, |i, (n, v, s, f, p)| {
        let Ok(b) = chunk::try_write(*v, f, s.input(*v), p) else { return };
        let fo = other(f, s);
        let key = |w: String| format!("byte/{v:?}/{}/{}: {w}", n.chars().take(100).collect::<String>(), short(f));
        if !try_one(cx, i, &|| key("unchanged".into()), &b, &fo, s) {
            return;
        }
        let mut q = b.clone();
        for at in 0..b.len() {
            for x in 0..=255u8 {
                q[at] = x;
                if !try_one(cx, i, &|| key(format!("byte {at} is {x}")), &q, &fo, s) {
                    return;
                }
            }
            q[at] = b[at];
        }
        // a byte too much or too little anywhere
        for at in 0..=b.len() {
            for x in [0, 1, 0x7f, 0xff] {
                let mut z = b.clone();
                z.insert(at, x);
                if !try_one(cx, i, &|| key(format!("{x} inserted at {at}")), &z, &fo, s) {
                    return;
                }
            }
            if at < b.len() {
                let mut z = b.clone();
                z.remove(at);
                if !try_one(cx, i, &|| key(format!("byte {at} removed")), &z, &fo, s) || !try_one(cx, i, &|| key(format!("cut at {at}")), &b[..at], &fo, s) {
                    return;
                }
            }
        }
        cx.seen(&(n, v, f));
        cx.sample(|| format!("{}: {} bytes x 256 values", key("".into()), b.len()));
    });
}

/// Every field, and every pair of fields, at boundary values.
fn fields(cx: &Cx) {
    let t = cx.thorough;
    let mut work = vec![];
    for (n, v, s, f, p) in corpus(false) {
        let rich = n.ends_with("/rich");
        if rich || n.starts_with("default") || n.contains("for") || n.contains('{') {
            let Ok(_) = chunk::try_write(v, &f, s.input(v), &p) else { continue };
            let (b, marks) = chunk::write_marked(v, &f, s.input(v), &p);
            let b = Arc::new(b);
            for k in 0..marks.len() {
                work.push((n.clone(), v, s.clone(), f, b.clone(), marks.clone(), k, rich && (t || n.starts_with("default"))));
            }
        }
    }
    cx.par(&work, |i, (n, v, s, f, b, marks, k, pairs)| {
        let fo = other(f, s);
        let vals = |w: usize| -> Vec<u64> {
            match w {
                1 => vec![0, 1, 2, 3, 4, 5, 8, 0x7f, 0x80, 0xfa, 0xfe, 0xff],
                _ => {
                    let m: u64 = if w == 8 { u64::MAX } else { u32::MAX as u64 };
                    let mut x = vec![0, 1, 2, 3, 5, 7, 50, 0xff, 0x100, 0xffff, 0x10000, m, m - 1, m - 2, m >> 1, (m >> 1) + 1, m >> 2, (m >> 1) - 1, b.len() as u64, b.len() as u64 - 1];
                    if w == 8 {
                        x.extend([u32::MAX as u64, 1 << 32, i32::MAX as u64, 1 << 31, 1 << 61, 1 << 60, 1 << 40, m / 24, m / 32, m / 136, i64::MAX as u64 / 24]);
                    }
                    x
                }
            }
        };
        let put = |q: &mut Vec<u8>, at: usize, w: usize, x: u64| {
            let mut y = x.to_le_bytes()[..w].to_vec();
            if !f.little {
                y.reverse()
            }
            q[at..at + w].copy_from_slice(&y);
        };
        let (at, w, what) = marks[*k];
        let mut q = (**b).clone();
        let key = |x: String| format!("field/{v:?}/{}/{}: {x}", n.chars().take(100).collect::<String>(), short(f));
        for x in vals(w) {
            put(&mut q, at, w, x);
            if !try_one(cx, i, &|| key(format!("{what} at {at} is {x}")), &q, &fo, s) {
                return;
            }
            if *pairs {
                for (at2, w2, what2) in &marks[k + 1..] {
                    let save = q[*at2..at2 + w2].to_vec();
                    for y in vals(*w2) {
                        put(&mut q, *at2, *w2, y);
                        if !try_one(cx, i, &|| key(format!("{what} at {at} is {x}, {what2} at {at2} is {y}")), &q, &fo, s) {
                            return;
                        }
                    }
                    q[*at2..at2 + w2].copy_from_slice(&save);
                }
            }
        }
        cx.count("fields");
        cx.seen(&(n, v, k));
    });
}

fn proto(v: Ver, code: Vec<u64>, ctx: usize) -> Proto {
    let n = code.len() as i64;
    let ret = |side: &Side| encode(v, side, &Canon { op: Op::Return, a: Some(0), x: Arg::N(1), y: Arg::No });
    match ctx {
        // everything there
        0 => Proto {
            source: chunk::raw("@x"),
            maxstack: 5,
            vararg: 1,
            nparams: 1,
            lines: vec![1; code.len()],
            k: vec![K::s("a"), K::Flt(1.0)],
            p: vec![Proto { nups: 2, code: ret(&Side::def(v)).into_iter().collect(), ..Proto::default() }],
            locals: vec![Local { name: chunk::raw("l"), start: 0, end: n }, Local { name: chunk::raw("m"), start: 1, end: 1 }],
            upnames: vec![chunk::raw("u")],
            nups: 1,
            code,
            ..Proto::default()
        },
        // nothing there
        1 => Proto { maxstack: 0, vararg: 0, lines: vec![], k: vec![], p: vec![], locals: vec![], upnames: vec![], nups: 0, code, ..Proto::default() },
        // inconsistent
        _ => Proto {
            maxstack: 255,
            vararg: 255,
            nparams: 255,
            nups: 255,
            lines: vec![i32::MAX as i64; code.len() / 2],
            locals: vec![
                Local { name: vec![], start: i32::MAX as i64, end: i32::MIN as i64 },
                Local { name: vec![], start: -1, end: 1 },
                Local { name: vec![], start: n, end: n + 1 },
            ],
            code,
            ..Proto::default()
        },
    }
}
/// Instructions with operands at their limits.
fn corners(v: Ver, side: &Side, few: bool) -> Vec<u64> {
    let l = &side.layout;
    let mut o = vec![];
    let (ma, mb, mc) = (l.fmax(Fld::A), l.fmax(Fld::B), l.fmax(Fld::C));
    for op in 0..v.ops().len() as u64 {
        match mode(v, v.ops()[op as usize]) {
            Mode::Abc(..) => {
                let (a, b, c): (&[u64], &[u64], &[u64]) = if few { (&[0, ma], &[0, mb], &[0, mc]) } else { (&[0, 1, ma], &[0, 1, side.limit.min(mb), mb], &[0, 1, 2, mc]) };
                for &a in a {
                    for &b in b {
                        for &c in c {
                            o.extend(l.abc(op, a, b, c));
                        }
                    }
                }
            }
            Mode::ABx(..) => {
                let m = l.max_bx();
                let x: Vec<u64> = if few { vec![0, m] } else { vec![0, 1, side.flush.wrapping_sub(1), side.flush, side.flush.wrapping_add(1), m - 1, m] };
                for a in if few { vec![0, ma] } else { vec![0, 1, ma] } {
                    for &x in &x {
                        if x <= m {
                            o.extend(l.abx(op, a, x));
                        }
                    }
                }
            }
            Mode::AsBx(..) => {
                let m = l.sbx_bias();
                let x: Vec<i64> = if few { vec![-2, 0, m] } else { vec![-m, -3, -2, -1, 0, 1, 2, m, m + 1] };
                for a in if few { vec![0] } else { vec![0, ma] } {
                    for &x in &x {
                        o.extend(l.asbx(op, a, x));
                    }
                }
            }
        }
    }
    o.sort();
    o.dedup();
    o
}

fn sequences(cx: &Cx) {
    let t = cx.thorough;
    for (n, s) in sets() {
        let base = n == "default" || n == "flush 50->3" || n == "flush 1->2";
        for v in vers() {
            let side = s.input(v);
            let f = wide_enough(&s, v);
            let fo = other(&f, &s);
            let al = corners(v, side, !(base || t));
            let few = corners(v, side, true);
            // first instruction of the sequence
            let work: Vec<(u64, usize)> = al.iter().flat_map(|&x| (0..3).map(move |c| (x, c))).collect();
            cx.add("instructions in sequences", al.len() as u64);
            cx.par(&work, |i, &(x, ctx)| {
                // everything but the code is the same
                let pre = template(v, &f, side, ctx, 1);
                let Some((mut b, at, w)) = pre else { return };
                let key = |c: &[u64]| format!("sequence/{n}/{v:?}/context {ctx}: {:?}", c.iter().map(|&w| (v.ops().get(side.layout.dec(w).op as usize), side.layout.dec(w))).collect::<Vec<_>>());
                put(&mut b, at, w, x, &f);
                if !try_one(cx, i, &|| key(&[x]), &b, &fo, &s) {
                    return;
                }
                let Some((mut b, at, w)) = template(v, &f, side, ctx, 2) else { return };
                put(&mut b, at, w, x, &f);
                for &y in if ctx == 0 || t { &al } else { &few } {
                    put(&mut b, at + w, w, y, &f);
                    if !try_one(cx, i, &|| key(&[x, y]), &b, &fo, &s) {
                        return;
                    }
                }
                cx.seen(&(n, v, x, ctx));
            });
            if t && base {
                let work: Vec<u64> = few.clone();
                cx.par(&work, |i, &x| {
                    let Some((mut b, at, w)) = template(v, &f, side, 0, 3) else { return };
                    put(&mut b, at, w, x, &f);
                    for &y in &few {
                        put(&mut b, at + w, w, y, &f);
                        for &z in &few {
                            put(&mut b, at + 2 * w, w, z, &f);
                            if !try_one(cx, i, &|| format!("sequence/{n}/{v:?}: {x:#x} {y:#x} {z:#x}"), &b, &fo, &s) {
                                return;
                            }
                        }
                    }
                    cx.seen(&(n, v, x, "three"));
                });
            }
        }
    }
}
/// A chunk with `n` instructions to fill in: bytes, offset, width.
fn template(v: Ver, f: &Fmt, side: &Side, ctx: usize, n: usize) -> Option<(Vec<u8>, usize, usize)> {
    let p = proto(v, vec![0; n], ctx);
    chunk::try_write(v, f, side, &p).ok()?;
    let (b, marks) = chunk::write_marked(v, f, side, &p);
    // the main function's code is the last in Lua 5.0 and the first in 5.1
    let mut at = marks.iter().filter(|m| m.2 == "instruction");
    let first = match v {
        Ver::L51 => at.next()?.0,
        Ver::L50 => {
            let all: Vec<_> = at.collect();
            all[all.len() - n].0
        }
    };
    Some((b, first, f.ins as usize))
}
fn put(q: &mut [u8], at: usize, w: usize, x: u64, f: &Fmt) {
    let mut y = x.to_le_bytes()[..w].to_vec();
    if !f.little {
        y.reverse()
    }
    q[at..at + w].copy_from_slice(&y);
}

/// Longer sequences of what resizes table constructors and loops.
fn tables(cx: &Cx) {
    let t = cx.thorough;
    for (fi, fo_) in [(1, 2), (2, 1), (2, 3), (3, 2), (3, 50), (50, 3), (2, u64::MAX), (1 << 40, 2)] {
        let s = Sets::flush(fi, fo_);
        for v in vers() {
            let side = s.input(v);
            let l = &side.layout;
            let op = |o: Op| v.code_of(o).unwrap();
            let mut al = vec![
                l.abc(op(Op::NewTable), 0, 0, 0),
                l.abx(op(Op::LoadK), 1, 0),
                l.abx(op(Op::LoadK), 3, 0),
                l.abc(op(Op::LoadNil), 1, 4, 0),
                l.abc(op(Op::Call), 2, 1, 0),
                l.abx(op(Op::Closure), 1, 0),
                l.abc(op(Op::Move), 0, 1, 0),
                l.asbx(op(Op::Jmp), 0, 1),
                l.asbx(op(Op::Jmp), 0, -2),
            ];
            match v {
                Ver::L50 => {
                    for x in [0, 1, 2, 3, 5] {
                        al.push(l.abx(op(Op::SetList), 0, x));
                    }
                    al.push(l.abx(op(Op::SetListO), 0, 0));
                    al.push(l.abx(op(Op::SetListO), 0, 3));
                    al.push(l.asbx(op(Op::ForLoop), 0, -2));
                    al.push(l.asbx(op(Op::ForLoop), 0, -1));
                    al.push(l.asbx(op(Op::TForPrep), 0, 1));
                    al.push(l.abc(op(Op::TForLoop), 0, 0, 1));
                    al.push(l.abc(op(Op::TForLoop), 0, 0, 0));
                }
                Ver::L51 => {
                    for (b, c) in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (0, 1), (0, 2), (0, 0), (5, 3)] {
                        al.push(l.abc(op(Op::SetList), 0, b, c));
                    }
                    al.push(l.abc(op(Op::VarArg), 2, 0, 0));
                    al.push(l.asbx(op(Op::ForLoop), 0, -2));
                    al.push(l.asbx(op(Op::ForPrep), 0, 1));
                }
            }
            let al: Vec<u64> = al.into_iter().map(|x| x.unwrap()).collect();
            let n = if t { 5 } else { 4 };
            let f = Fmt::NATIVE;
            let fo = Fmt { size_t: 4, ..f };
            let work: Vec<(u64, u64)> = al.iter().flat_map(|&x| al.iter().map(move |&y| (x, y))).collect();
            cx.par(&work, |i, &(x, y)| {
                for k in 3..=n {
                    let (mut b, at, w) = template(v, &f, side, 0, k).unwrap();
                    put(&mut b, at, w, x, &f);
                    put(&mut b, at + w, w, y, &f);
                    for code in 0..al.len().pow(k as u32 - 2) {
                        let mut c = code;
                        for j in 2..k {
                            put(&mut b, at + j * w, w, al[c % al.len()], &f);
                            c /= al.len();
                        }
                        if !try_one(cx, i, &|| format!("table/{fi}->{fo_}/{v:?}: {x:#x} {y:#x} and {k} in all, number {code}"), &b, &fo, &s) {
                            return;
                        }
                    }
                }
                cx.seen(&("table", fi, fo_, v, x, y));
            });
        }
    }
}

/// All inputs of a few bytes, alone and after a valid beginning.
fn short_inputs(cx: &Cx) {
    let t = cx.thorough;
    let s = Sets::default();
    let fo = samples::NATIVE4;
    let mut heads: Vec<Vec<u8>> = vec![vec![], b"\x1bLua".to_vec(), b"\x1bLu".to_vec()];
    for v in vers() {
        for f in [Fmt::NATIVE, Fmt { little: false, int: 8, ..Fmt::NATIVE }] {
            let (b, marks) = chunk::write_marked(v, &f, s.input(v), &samples::rich(v, s.input(v)));
            heads.push(chunk::header(v, &f, s.input(v)));
            for m in marks.iter().step_by(if t { 1 } else { 3 }) {
                heads.push(b[..m.0].to_vec());
            }
        }
    }
    heads.dedup();
    cx.par(&heads, |i, h| {
        for x in 0..=0xffffu32 {
            let mut b = h.clone();
            b.extend(&x.to_le_bytes()[..2]);
            if x < 256 {
                let mut c = h.clone();
                c.push(x as u8);
                if !try_one(cx, i, &|| format!("short/{h:02x?} {x:#x}"), &c, &fo, &s) {
                    return;
                }
            }
            if !try_one(cx, i, &|| format!("short/{h:02x?} {x:#x}"), &b, &fo, &s) {
                return;
            }
        }
        for fill in [0u8, 1, 4, 8, 0x7f, 0x80, 0xff] {
            for n in [4, 5, 8, 9, 16, 24, 40, 64, 200, 1000, 10_000] {
                let mut b = h.clone();
                b.extend(vec![fill; n]);
                if !try_one(cx, i, &|| format!("short/{h:02x?} then {n} times {fill}"), &b, &fo, &s) {
                    return;
                }
            }
        }
        cx.seen(&("short", h));
    });
}

/// Counts and lengths beyond all bounds, with more and more data behind them.
fn hostile(cx: &Cx) {
    let mut work = vec![];
    for v in vers() {
        for f in Fmt::all() {
            work.push((v, f));
        }
    }
    cx.par(&work, |i, &(v, f)| {
        for s in [Sets::default(), Sets::flush(50, 3)] {
            let p = samples::adapt(&samples::rich(v, s.input(v)), &f);
            let (b, marks) = chunk::write_marked(v, &f, s.input(v), &p);
            let fo = Fmt { size_t: 12 - f.size_t, ..f };
            for &(at, w, what) in marks.iter().filter(|m| m.2.ends_with("count") || m.2.ends_with("length")) {
                let m: u64 = if w == 8 { u64::MAX } else { u32::MAX as u64 };
                for x in [m, m - 1, m >> 1, (m >> 1) + 1, m >> 2, m / 3, 1 << 31, 1 << 30, 1 << 28, 1 << 24, 1 << 20, 100_000] {
                    let mut q = b.clone();
                    put(&mut q, at, w, x, &f);
                    for pad in [0, 1, 50, 1000] {
                        let mut z = q.clone();
                        z.extend(vec![0; pad]);
                        if !try_one(cx, i, &|| format!("hostile/{v:?}/{}: {what} at {at} is {x}, {pad} more bytes", short(&f)), &z, &fo, &s) {
                            return;
                        }
                    }
                }
            }
        }
        cx.seen(&("hostile", v, f));
    });
}

fn nesting(cx: &Cx) {
    let mut work = vec![];
    for v in vers() {
        for depth in [1usize, 10, 100, 190, 198, 199, 200, 201, 202, 255, 256, 1000, 10_000, 100_000, 1_000_000] {
            for strip in [true, false] {
                for (fi, fo) in [(50, 50), (50, 3)] {
                    work.push((v, depth, strip, fi, fo));
                }
            }
        }
    }
    cx.par(&work, |i, &(v, depth, strip, fi, fo)| {
        let s = Sets::flush(fi, fo);
        let side = s.input(v);
        // written by hand: a recursive writer would overflow first
        let f = samples::NATIVE4;
        let leaf = Proto {
            code: vec![encode(v, side, &Canon { op: Op::Return, a: Some(0), x: Arg::N(1), y: Arg::No }).unwrap()],
            lines: if strip { vec![] } else { vec![1] },
            ..Proto::default()
        };
        let one = Proto { p: vec![leaf.clone()], ..leaf.clone() };
        let head = chunk::header(v, &f, side);
        let l = &chunk::write(v, &f, side, &leaf)[head.len()..];
        let o = &chunk::write(v, &f, side, &one)[head.len()..];
        let at = (0..o.len()).find(|&k| o[k..].starts_with(l) && o.len() - l.len() >= k && [&o[..k], &o[k + l.len()..]].concat().len() + l.len() == o.len() && k > 4 && o[k - 4..k] == [1, 0, 0, 0]).unwrap();
        let (pre, post) = (&o[..at], &o[at + l.len()..]);
        let mut b = head.clone();
        for _ in 0..depth {
            b.extend_from_slice(pre);
        }
        b.extend_from_slice(l);
        for _ in 0..depth {
            b.extend_from_slice(post);
        }
        // on a stack of the size that threads get by default
        let ok = std::thread::scope(|sc| {
            std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, || try_one(cx, i, &|| format!("nesting/{v:?}/{depth}/{strip}/{fi}->{fo}"), &b, &Fmt::NATIVE, &s)).unwrap().join().unwrap()
        });
        // cut off within
        if ok && depth <= 10_000 {
            let n = head.len() + pre.len() * depth;
            std::thread::scope(|sc| {
                std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, || try_one(cx, i, &|| format!("nesting/{v:?}/{depth}/{strip}/{fi}->{fo} cut off"), &b[..n], &Fmt::NATIVE, &s)).unwrap().join().unwrap()
            });
        }
        // every level claims many functions
        if ok && depth <= 200 {
            for x in [2u32, 3, 1000, 100_000, 1 << 24, (1 << 31) - 1, 1 << 31, u32::MAX] {
                for pad in [0usize, 1, 300, 3_000, 30_000, 200_000] {
                    let mut z = head.clone();
                    for _ in 0..depth {
                        z.extend_from_slice(pre);
                        let n = z.len();
                        z[n - 4..].copy_from_slice(&x.to_le_bytes());
                    }
                    z.extend_from_slice(l);
                    z.extend(vec![0; pad]);
                    let fine = std::thread::scope(|sc| {
                        std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, || try_one(cx, i, &|| format!("nesting/{v:?}/{depth}/{strip}/{fi}->{fo} each claiming {x} functions, {pad} more bytes"), &z, &Fmt::NATIVE, &s)).unwrap().join().unwrap()
                    });
                    if !fine {
                        return;
                    }
                }
            }
        }
        cx.seen(&("nesting", v, depth, strip, fi));
    });
}

/// Functions with many instructions of one kind, or two kinds in turns.
fn long(cx: &Cx) {
    let n = if cx.thorough { 10_000 } else { 6_000 };
    let mut work = vec![];
    for v in vers() {
        for (fi, fo) in [(50, 50), (50, 3), (3, 50), (1, 2)] {
            let s = Arc::new(Sets::flush(fi, fo));
            let al = corners(v, s.input(v), true);
            for x in 0..al.len() {
                work.push((v, s.clone(), al[x], al[x]));
                work.push((v, s.clone(), al[x], al[(x * 7 + 3) % al.len()]));
            }
        }
    }
    cx.par(&work, |i, (v, s, x, y)| {
        let f = samples::NATIVE4;
        let code: Vec<u64> = (0..n).map(|k| if k % 2 == 0 { *x } else { *y }).collect();
        let b = chunk::write(*v, &f, s.input(*v), &proto(*v, code, 0));
        try_one(cx, i, &|| format!("long/{v:?}/{}->{}: {n} instructions {x:#x} {y:#x}", s.input(*v).flush, s.out.flush), &b, &Fmt::NATIVE, s);
        cx.seen(&("long", v, x, y));
    });
}

pub fn one(a: &[String]) {
    let b: Vec<u8> = (0..a[0].len() / 2).map(|i| u8::from_str_radix(&a[0][2 * i..2 * i + 2], 16).unwrap()).collect();
    let n = |i: usize, d: u64| a.get(i).and_then(|x| x.parse().ok()).unwrap_or(d);
    println!("{:?} peak {}", sut::unify(&b, &samples::NATIVE4, &Sets::flush(n(1, 50), n(2, 50))), sut::peak());
}
