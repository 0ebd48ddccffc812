//! Every instruction in every operand layout and instruction width.
use crate::cx::Cx;
use crate::sut::{self, Sets, R};
use crate::Meta;
use lunify::LunifyError;
use model::chunk::{self, Fmt, Proto};
use model::ops::*;
use model::verify;

pub const META: Meta = Meta {
    id: "C06",
    level: "exploration",
    rule: "every opcode x boundary values of every operand (of both layouts) x pairs of layouts (all orders, sizes at and between the limits) x instruction widths x Lua 5.0 input, Lua 5.1 input and Lua 5.1 input with another flush size; non-trivial: the output instruction decoded and compared, or the precise overflow reported",
    assumptions: &["Lua 5.0 instructions that are expanded into several are judged by C09 to C12", "fields an instruction does not use are not compared"],
    run,
};

fn layouts(t: bool) -> Vec<Layout> {
    use Fld::*;
    let orders = [
        [O, A, B, C],
        [O, A, C, B],
        [O, C, B, A],
        [O, B, C, A],
        [A, O, B, C],
        [A, O, C, B],
        [A, B, C, O],
        [A, C, B, O],
        [B, C, O, A],
        [C, B, O, A],
        [B, C, A, O],
        [C, B, A, O],
    ];
    // opcode, A, B, C
    let sizes = [
        [6, 8, 9, 9],
        [6, 7, 8, 8],
        [7, 9, 10, 8],
        [6, 8, 8, 12],
        [6, 8, 12, 8],
        [10, 16, 16, 22],
        [6, 31, 9, 18],
        [31, 8, 9, 9],
        [6, 7, 31, 20],
        [6, 7, 20, 31],
    ];
    let mut v = vec![];
    for (i, o) in orders.iter().enumerate() {
        for (k, s) in sizes.iter().enumerate() {
            // quick: every order with the default sizes, every size in three orders
            if !t && k != 0 && (i + k) % 5 != 0 {
                continue;
            }
            let of = |f: Fld| match f {
                O => s[0],
                A => s[1],
                B => s[2],
                C => s[3],
            };
            v.push(Layout(o.map(|f| (f, of(f)))));
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Path {
    L50,
    L51,
    /// Lua 5.1 with another flush size.
    Resized,
}

fn run(cx: &Cx) {
    let ls = layouts(cx.thorough);
    cx.add("layouts", ls.len() as u64);
    let mut work = vec![];
    for path in [Path::L50, Path::L51, Path::Resized] {
        for &a in &ls {
            for &b in &ls {
                work.push((path, a, b));
            }
        }
    }
    cx.par(&work, |i, &(path, la, lb)| {
        let ver = if path == Path::L50 { Ver::L50 } else { Ver::L51 };
        let mut s = Sets::default();
        s.l50.layout = la;
        s.l51.layout = la;
        s.out.layout = lb;
        s.out.limit = u64::MAX;
        if path == Path::Resized {
            s.l51.flush = 49;
        }
        // Lua 5.0 tells constants and registers apart by its stack limit
        let limits: &[u64] = if path == Path::L50 { &[250, 100] } else { &[250] };
        for &limit in limits {
            s.l50.limit = limit;
            for (wi, wo) in [(4u8, 4u8), (4, 8), (8, 4), (8, 8)] {
                if cx.stopped() {
                    return;
                }
                let fi = Fmt { ins: wi, little: wi == 4, ..Fmt::NATIVE };
                // always another format, so that a conversion happens
                let fo = Fmt { ins: wo, little: wo == 4, size_t: 4, ..Fmt::NATIVE };
                pair(cx, i, path, ver, &s, &fi, &fo);
            }
        }
    });
}

fn corners(max: u64, of: &[u64]) -> Vec<u64> {
    let mut v: Vec<u64> = of.iter().copied().chain([0, 1, max]).filter(|&x| x <= max).collect();
    v.sort();
    v.dedup();
    v
}

fn pair(cx: &Cx, i: usize, path: Path, ver: Ver, s: &Sets, fi: &Fmt, fo: &Fmt) {
    let side = s.input(ver);
    let (la, lb) = (side.layout, s.out.layout);
    let builder = path != Path::L51;
    let mut good: Vec<u64> = vec![];
    let mut want: Vec<Canon> = vec![];
    let fa = corners(la.fmax(Fld::A), &[lb.fmax(Fld::A), lb.fmax(Fld::A) + 1]);
    let k = la.kbit();
    let bc = |op: Op, f: Fld, u: Use| {
        let (mi, mo, ko) = (la.fmax(f), lb.fmax(f), lb.kbit());
        match (u, ver) {
            // only size hints are ever written there
            (Use::No, _) if op == Op::NewTable => vec![0, mi.min(mo)],
            (Use::No, _) => vec![0],
            (Use::Rk, Ver::L51) => corners(mi, &[k - 1, k, k | 1, k | (ko - 1), k | ko, ko - 1, ko, ko + 1, mo]),
            (Use::Rk, Ver::L50) => corners(mi, &[side.limit - 1, side.limit, side.limit + 1, side.limit + ko - 1, side.limit + ko, ko - 1, ko]),
            _ => corners(mi, &[mo - 1, mo, mo + 1]),
        }
    };
    let bx = {
        let (mi, mo) = (la.max_bx(), lb.max_bx());
        corners(mi, &[mo - 1, mo, mo + 1, mi - 1])
    };
    let sbx: Vec<u64> = {
        let (bi, bo) = (la.sbx_bias(), lb.sbx_bias());
        let mut v: Vec<u64> = [0, 1, -1, 2, bo, bo + 1, bo + 2, -bo, -bo - 1, bi, -bi, bi + 1]
            .iter()
            .map(|x: &i64| x + bi)
            .filter(|&x| x >= 0 && x as u64 <= la.max_bx())
            .map(|x| x as u64)
            .collect();
        v.sort();
        v.dedup();
        v
    };
    let mut words = vec![];
    for (n, &op) in ver.ops().iter().enumerate() {
        if ver == Ver::L50 && plain(op).is_none() || path == Path::Resized && op == Op::SetList {
            continue;
        }
        let n = n as u64;
        match mode(ver, op) {
            Mode::Abc(_, ub, uc) => {
                for &a in &fa {
                    for &b in &bc(op, Fld::B, ub) {
                        for &c in &bc(op, Fld::C, uc) {
                            words.push(la.abc(n, a, b, c).expect("fits"))
                        }
                    }
                }
            }
            Mode::ABx(_) => {
                for &a in &fa {
                    for &x in &bx {
                        words.push(la.abx(n, a, x).expect("fits"))
                    }
                }
            }
            Mode::AsBx(used) => {
                for &a in if used { &fa[..] } else { &fa[..1] } {
                    for &x in &sbx {
                        words.push(la.abx(n, a, x).expect("fits"))
                    }
                }
            }
        }
    }
    let mut judged = 0u64;
    for w in words {
        if fi.ins == 4 && w > u32::MAX as u64 {
            continue;
        }
        let c = canon(ver, side, w).expect("known opcode");
        // Registers that look like constants do not exist on a machine with
        // this layout, neither on the input's nor on the output's.
        let top = if ver == Ver::L50 { side.limit } else { k };
        let beyond = |top: u64| [c.x, c.y].iter().any(|x| matches!(x, Arg::R(r) if *r >= top));
        if beyond(top) {
            continue;
        }
        let vague = beyond(lb.kbit());
        let e = if ver == Ver::L50 { super::util::plain50(c).expect("plain") } else { c };
        let fits = encode(Ver::L51, &s.out, &e).filter(|v| fo.ins == 8 || *v <= u32::MAX as u64);
        judged += 1;
        // what the builder computes about registers is limited by the byte
        // the stack size is stored in
        let large = builder && need(&e) > 255;
        if fits.is_some() && !large && !vague {
            good.push(w);
            want.push(e);
            continue;
        }
        let (input, r) = convert(cx, ver, s, fi, fo, vec![w]);
        let fine = match r {
            R::Err(LunifyError::ValueTooBigForOperand) => fits.is_none() || vague || need(&e) > 255,
            R::Err(LunifyError::StackTooLarge(_)) => large,
            // a function that declares too small a stack is not required to be
            // rejected for it
            R::Ok(ref o) => fits.is_some() && output(s, o).is_some_and(|q| same(s, &q, &[e]).is_none()),
            _ => false,
        };
        if !fine {
            let what = match r {
                R::Ok(o) => format!("{c:?} does not fit the output, which is {:?}", output(s, &o).map(|q| q.code.iter().map(|w| canon(Ver::L51, &s.out, *w)).collect::<Vec<_>>())),
                r => format!("{c:?} ({w:#x}): {}", r.brief()),
            };
            cx.bad(i, &key(path, s, fi, fo, w), &what, &input, fo, s, "");
        }
    }
    cx.add("instructions judged", judged);
    cx.add("instructions that fit", good.len() as u64);
    // everything that fits, in one function
    let (input, r) = convert(cx, ver, s, fi, fo, good.clone());
    let bad = match &r {
        R::Ok(o) => match output(s, o) {
            None => Some("the output does not decode".to_string()),
            Some(q) => same(s, &q, &want),
        },
        // find the instruction
        r => {
            let w = good.iter().find(|w| !matches!(convert(cx, ver, s, fi, fo, vec![**w]).1, R::Ok(_)));
            Some(format!("{:?} fits, yet: {}", w.map(|w| canon(ver, side, *w)), r.brief()))
        }
    };
    match bad {
        Some(b) => cx.bad(i, &key(path, s, fi, fo, 0), &b, &input, fo, s, ""),
        None => {
            cx.seen(&(path as u8, la, lb, fi, fo, s.l50.limit));
            cx.sample(|| format!("{}: {} instructions re-encoded, {} reported", key(path, s, fi, fo, 0), good.len(), judged - good.len() as u64));
        }
    }
}
fn plain(op: Op) -> Option<Op> {
    super::util::plain50(Canon { op, a: None, x: Arg::No, y: Arg::No }).map(|c| c.op)
}
fn key(path: Path, s: &Sets, fi: &Fmt, fo: &Fmt, w: u64) -> String {
    let l = |l: &Layout| l.0.iter().map(|(f, n)| format!("{f:?}{n}")).collect::<String>();
    format!("{path:?}/{}->{}/{}->{}/{}/{w:#x}", l(&s.l51.layout), l(&s.out.layout), fi.ins, fo.ins, s.l50.limit)
}
fn need(c: &Canon) -> u64 {
    // in a layout that holds everything
    use Fld::*;
    let wide = Side { layout: Layout([(O, 6), (A, 7 + 6), (B, 22), (C, 22)]), ..Side::def51() };
    match encode(Ver::L51, &wide, c) {
        Some(w) => {
            let p = Proto { code: vec![w], ..Proto::default() };
            verify::registers(&wide, &p)
        }
        // enormous operands
        None => u64::MAX,
    }
}
fn convert(cx: &Cx, ver: Ver, s: &Sets, fi: &Fmt, fo: &Fmt, code: Vec<u64>) -> (Vec<u8>, R) {
    let p = Proto { lines: vec![1; code.len()], maxstack: 2, code, ..Proto::default() };
    let input = chunk::write(ver, fi, s.input(ver), &p);
    cx.eval();
    let r = sut::unify(&input, fo, s);
    (input, r)
}
fn output(s: &Sets, o: &[u8]) -> Option<Proto> {
    chunk::read(Ver::L51, &s.out, o).ok().map(|x| x.1)
}
fn same(s: &Sets, q: &Proto, want: &[Canon]) -> Option<String> {
    if q.code.len() != want.len() {
        return Some(format!("{} instructions became {}", want.len(), q.code.len()));
    }
    for (w, e) in q.code.iter().zip(want) {
        let g = canon(Ver::L51, &s.out, *w);
        if g != Some(*e) {
            return Some(format!("{e:?} became {g:?} ({w:#x})"));
        }
        if *w as u128 >> s.out.layout.total().min(64) != 0 {
            return Some(format!("{e:?} has bits outside the layout ({w:#x})"));
        }
    }
    None
}
