//! The product of the settings of all three sides.
use super::util::*;
use crate::cx::Cx;
use crate::oracle;
use crate::samples;
use crate::sut::{self, Sets, R};
use crate::Meta;
use model::chunk::{self, Fmt, Proto};
use model::gen;
use model::ops::*;
use std::collections::HashMap;

pub const META: Meta = Meta {
    id: "C24",
    level: "exploration",
    rule: "versions x the product of signature, layout, flush size and stack limit of the own, the other and the output side x programs x requested format; each result compared byte for byte with the result under default settings of the other side, and instruction by instruction with the result under default signatures and layouts; non-trivial: the output was decoded with the output's settings",
    assumptions: &["a signature of the other side that makes the input ambiguous (it continues with a version byte of its own) is not used"],
    run,
};

const SRC: [&str; 13] = [
    "local a = num() local t = {1, 2, 3, 4, 5, a, 7} emit(t, a + 1, 2 * a, a == 3, a < 4)",
    "local function f(p, ...) emit(arg, p) return p end for i = 1, 3 do emit(f(i, 5)) end",
    "for k, v in it do local t = {k, v, 1, {2, 3}, multi()} t[k] = v emit(t, t[1], t.x) end",
    "local a, b = 1, 2 local f = function() a = a + b return function() return b end end emit(f()())",
    "while ask() do local s = \"x\" .. num() if s == \"x1\" and any() then break end emit(s) end repeat local q = ask() until q",
    "local o = obj emit({o:m(1), [2] = 3, x = {nil, true, false, 4, 5}, 6, 7, 8, 9}) return o:m(2), multi()",
    "for i = num(), num(), 2 do local a, b, c, d, e = 1, 2, 3, 4, 5 emit(function() return a + i + e end) end",
    "local t = {} t[1] = t t.x = 2 t[t] = 3 emit(t[1], t.x, -t[2], not t.y)",
    "local x = {ask() and 1 or 2, any() == 3, 4, num() < 2, \"e\", f and 7} emit(x, 1.5, 1000)",
    "local a, b, c, d, e, f, g, h, i, j, k, l = any(), 2, 3, 4 for m = 1, 2 do emit(m, k == 3, a + 1) end emit(a, l)",
    "for a, b, c, d, e, f, g, h in it do emit(b) end",
    "for a, b, c, d, e, f, g, h, i, j, k, l, m, n in it do end",
    "local a, b, c, d, e, f, g, h = 1, 2, 3, 4, 5, 6, 7 local t = {a, b, c, d, e, 1, 2, 3, 4, 5, 6, multi()} local function f(x, y, ...) emit(arg) end f(t)",
];

fn sides(v: Ver, all: bool) -> Vec<Side> {
    use Fld::*;
    let d = Side::def(v);
    let other = Layout([(A, 9), (B, 12), (C, 13), (O, 7)]);
    let mut r = vec![];
    for sig in [d.sig.clone(), "\x1bOwn\u{e9}".into(), "".into()] {
        for layout in [LAYOUT50, LAYOUT51, other, Layout([(C, 10), (B, 9), (O, 6), (A, 7)])] {
            for flush in [d.flush, 3, 4] {
                for limit in [250, 120, 9] {
                    let n = (sig != d.sig) as u8 + (layout != d.layout) as u8 + (flush != d.flush) as u8 + (limit != 250) as u8;
                    // quick: at most two differences from the default
                    if all || n <= 2 && !sig.is_empty() || n <= 1 {
                        r.push(Side { sig: sig.clone(), layout, flush, limit });
                    }
                }
            }
        }
    }
    r
}
/// Signatures that leave the input unambiguous.
fn clear(v: Ver, s: &Sets) -> bool {
    let (own, other) = match v {
        Ver::L50 => (&s.l50.sig, &s.l51.sig),
        Ver::L51 => (&s.l51.sig, &s.l50.sig),
    };
    let mut b = own.as_bytes().to_vec();
    b.push(if v == Ver::L50 { 0x50 } else { 0x51 });
    match b.strip_prefix(other.as_bytes()) {
        // what follows must not look like a chunk of the other version
        Some(r) => r.first() != Some(&if v == Ver::L50 { 0x51 } else { 0x50 }),
        None => true,
    }
}
/// The output in the default layout, without size hints.
fn plain(p: &Proto, side: &Side) -> Option<Proto> {
    let d = Side::def51();
    let mut q = p.clone();
    let mut ok = true;
    each(&mut q, &mut |f| {
        for w in &mut f.code {
            match canon(Ver::L51, side, *w).and_then(|c| encode(Ver::L51, &d, &if c.op == Op::NewTable { Canon { x: Arg::N(0), y: Arg::N(0), ..c } } else { c })) {
                Some(x) => *w = x,
                None => ok = false,
            }
        }
    });
    ok.then_some(q)
}

fn run(cx: &Cx) {
    let t = cx.thorough;
    let mut srcs: Vec<String> = SRC.iter().map(|s| s.to_string()).collect();
    if t {
        srcs.extend(samples::SOURCES.iter().map(|s| s.1.to_string()));
    }
    let mut work = vec![];
    for v in vers() {
        for (si, src) in srcs.iter().enumerate() {
            for own in sides(v, true) {
                work.push((v, si, src, own));
            }
        }
    }
    cx.par(&work, |i, (v, si, src, own)| {
        let v = *v;
        let Ok(p) = gen::comp(&model::parse::parse(src), v, own) else { return };
        if v == Ver::L50 && deepest(&p) > own.limit {
            // such operands cannot be told apart from constants
            return;
        }
        let wide = |s: &Side| if s.layout.total() > 32 { 8 } else { 4 };
        let fi = Fmt { ins: wide(own), ..Fmt::NATIVE };
        let input = chunk::write(v, &fi, own, &p);
        let other_v = if v == Ver::L50 { Ver::L51 } else { Ver::L50 };
        let mut bases: HashMap<(u64, u64), R> = HashMap::new();
        for out in sides(Ver::L51, t) {
            let fo = Fmt { ins: wide(&out), ..samples::NATIVE4 };
            let with = |own: &Side, other: &Side, out: &Side| match v {
                Ver::L50 => Sets { l50: own.clone(), l51: other.clone(), out: out.clone() },
                Ver::L51 => Sets { l50: other.clone(), l51: own.clone(), out: out.clone() },
            };
            // default signatures, layouts and limits; only what may matter
            let base = bases.entry((out.flush, out.limit)).or_insert_with(|| {
                let o = Side { flush: own.flush, ..Side::def(v) };
                let s = with(&o, &Side::def(other_v), &Side { flush: out.flush, limit: out.limit, ..Side::def51() });
                let q = gen::comp(&model::parse::parse(src), v, &o).unwrap();
                cx.eval();
                sut::unify(&chunk::write(v, &Fmt::NATIVE, &o, &q), &samples::NATIVE4, &s)
            });
            let mut first: Option<R> = None;
            // the side of the other version has no influence at all
            let mut others = vec![Side::def(other_v)];
            others.extend(sides(other_v, false).into_iter().filter(|o| t || si % 3 == 0 || o.flush != 32 || o.limit == 9));
            for (k, other) in others.iter().enumerate() {
                let s = with(own, other, &out);
                if !clear(v, &s) {
                    continue;
                }
                cx.eval();
                let r = sut::unify(&input, &fo, &s);
                let key = || format!("{v:?}/{src}/{}", s.describe());
                match &first {
                    None => {
                        judge(cx, i, &key(), &r, base, &input, &fo, &s);
                        first = Some(r);
                    }
                    Some(f) => {
                        if *f != r {
                            cx.bad(i, &key(), &format!("settings of the other version change the result (variant {k}): {} became {}", f.brief(), r.brief()), &input, &fo, &s, "");
                            return;
                        }
                    }
                }
                if cx.stopped() {
                    return;
                }
            }
        }
        cx.seen(&(v, src, own));
    });
    defaults(cx);
    limits(cx, &srcs);
    operands(cx);
}
/// The most registers that a function of the tree declares.
fn deepest(p: &Proto) -> u64 {
    p.p.iter().map(deepest).max().unwrap_or(0).max(p.maxstack as u64)
}
/// The limit of the output, and no other, decides what is too large.
fn limits(cx: &Cx, srcs: &[String]) {
    let mut work = vec![];
    for src in srcs {
        for own in (0..256).filter(|o| cx.thorough || *o < 40 || *o % 4 == 0) {
            work.push((src, own));
        }
    }
    cx.par(&work, |i, (src, own)| {
        let mut d = Sets::default();
        d.l50.limit = *own;
        let Ok(p) = gen::comp(&model::parse::parse(src), Ver::L50, &d.l50) else { return };
        if deepest(&p) > *own {
            return;
        }
        let input = chunk::write(Ver::L50, &Fmt::NATIVE, &d.l50, &p);
        cx.eval();
        let out = match sut::unify(&input, &samples::NATIVE4, &d) {
            R::Ok(o) => chunk::read(Ver::L51, &d.out, &o).ok(),
            _ => None,
        };
        let Some((_, q)) = out else {
            return cx.bad(950_000 + i, &format!("limits/{src}/{own}"), "not converted", &input, &samples::NATIVE4, &d, "");
        };
        let need = deepest(&q);
        for other in [0, 1, need - 1, need, 250, 255] {
            for limit in [need.saturating_sub(2), need - 1, need, need + 1, 200] {
                let mut s = d.clone();
                s.l51.limit = other;
                s.out.limit = limit;
                cx.eval();
                let r = sut::unify(&input, &samples::NATIVE4, &s);
                let ok = match &r {
                    R::Ok(_) => limit >= need,
                    R::Err(lunify::LunifyError::StackTooLarge(..)) => limit < need,
                    _ => false,
                };
                let key = format!("limits/{src}/{own}/{other}/{limit}");
                if !ok {
                    cx.bad(950_000 + i, &key, &format!("{need} registers are needed, the limit of the output is {limit}: {}", r.brief()), &input, &samples::NATIVE4, &s, "");
                }
                cx.count("limits");
            }
        }
    });
}

/// Registers and constants around the limits of each side's layout: the own
/// layout and limit tell what is meant, the output's layout what fits, and
/// those of the other version are irrelevant.
fn operands(cx: &Cx) {
    use Fld::*;
    let layouts: Vec<Layout> = [8, 9, 10, 11, 12].map(|b| Layout([(O, 6), (A, 8), (C, b), (B, b)])).into();
    let mut work = vec![];
    for v in vers() {
        for own in &layouts {
            for out in &layouts {
                for op in [Op::Add, Op::SetTable, Op::Eq, Op::GetTable] {
                    work.push((v, *own, *out, op));
                }
            }
        }
    }
    let near = |n: u64| n.saturating_sub(1)..=n + 1;
    let mut values: Vec<u64> = [0u64, 63, 64, 100, 127, 128, 249, 250, 255, 256, 511, 512, 1023, 1024, 2047, 2048].into_iter().flat_map(near).collect();
    values.sort();
    values.dedup();
    cx.par(&work, |i, (v, own, out, op)| {
        let v = *v;
        let mut s = Sets::default();
        let side = if v == Ver::L50 { &mut s.l50 } else { &mut s.l51 };
        side.layout = *own;
        let mut leaf = samples::rich(v, &Side::def(v)).p[0].p[0].clone();
        leaf.p.clear();
        let limits: &[u64] = if v == Ver::L50 { &[250, 120, 60] } else { &[250] };
        s.out.layout = *out;
        for limit in limits {
            match v {
                Ver::L50 => s.l50.limit = *limit,
                Ver::L51 => s.l51.limit = *limit,
            }
            let side = s.input(v).clone();
            for &n in &values {
                for (x, y) in [(Arg::K(n), Arg::R(1)), (Arg::R(n), Arg::R(1)), (Arg::R(1), Arg::K(n)), (Arg::R(1), Arg::R(n)), (Arg::K(n), Arg::K(n / 2))] {
                    if matches!(x, Arg::R(n) | Arg::K(n) if n > 2100) || matches!(x, Arg::R(r) if r >= 250) || matches!(y, Arg::R(r) if r >= 250) {
                        continue;
                    }
                    let Some(w) = made(v, &side, *op, x, y) else { continue };
                    let Some(meant) = canon(v, &side, w) else { continue };
                    let mut p = leaf.clone();
                    let Some(ret) = canon(v, &Side::def(v), *leaf.code.last().unwrap()).and_then(|c| encode(v, &side, &c)) else { continue };
                    let jump = match v.code_of(Op::Jmp).and_then(|o| side.layout.asbx(o, 0, 0)) {
                        Some(j) => j,
                        None => continue,
                    };
                    p.maxstack = 250.min(*limit) as u8;
                    p.k = (0..2101).map(|i| chunk::K::Flt(i as f64)).collect();
                    p.code = vec![w, jump, ret];
                    p.lines = vec![1, 1, 1];
                    p.locals.clear();
                    let wide = |l: &Layout| if l.total() > 32 { 8 } else { 4 };
                    let fi = Fmt { ins: wide(own), ..Fmt::NATIVE };
                    let fo = Fmt { ins: wide(out), ..samples::NATIVE4 };
                    let input = chunk::write(v, &fi, &side, &p);
                    let want = encode(Ver::L51, &s.out, &meant);
                    for ob in [8, 9, 12] {
                        for ol in [100, 250] {
                            let other = if v == Ver::L50 { &mut s.l51 } else { &mut s.l50 };
                            other.layout = Layout([(A, 8), (C, ob), (B, ob), (O, 6)]);
                            other.limit = ol;
                            cx.eval();
                            let r = sut::unify(&input, &fo, &s);
                            let key = format!("operands/{v:?}/{own:?}->{out:?}/{op:?}/{x:?}/{y:?}/{limit}/{ob}/{ol}");
                            match (&r, want) {
                                (R::Err(lunify::LunifyError::ValueTooBigForOperand), None) => cx.count("operands: too big"),
                                (R::Ok(o), Some(w)) => match chunk::read(Ver::L51, &s.out, o) {
                                    Ok((_, q)) if q.code.first().and_then(|g| canon(Ver::L51, &s.out, *g)) == canon(Ver::L51, &s.out, w) => cx.count("operands: same"),
                                    Ok((_, q)) => cx.bad(960_000 + i, &key, &format!("{:?} instead of {meant:?}", q.code.first().and_then(|g| canon(Ver::L51, &s.out, *g))), &input, &fo, &s, ""),
                                    Err(e) => cx.bad(960_000 + i, &key, &e, &input, &fo, &s, ""),
                                },
                                _ => cx.bad(960_000 + i, &key, &format!("{meant:?} is {}, but the result is {}", if want.is_some() { "representable" } else { "not representable" }, r.brief()), &input, &fo, &s, ""),
                            }
                        }
                    }
                }
            }
        }
    });
}
/// An instruction with these operands, if the layout can hold it.
fn made(v: Ver, side: &Side, op: Op, x: Arg, y: Arg) -> Option<u64> {
    // a register where no constant is possible
    if op == Op::GetTable && !matches!(x, Arg::R(_)) {
        return None;
    }
    let template = side.layout.abc(v.code_of(op)?, 0, 0, 0)?;
    encode(v, side, &Canon { x, y, ..canon(v, side, template)? })
}

fn judge(cx: &Cx, i: usize, key: &str, r: &R, base: &R, input: &[u8], fo: &Fmt, s: &Sets) {
    let bad = |w: String| cx.bad(i, key, &w, input, fo, s, "");
    match (r, base) {
        (R::Err(a), R::Err(b)) if a == b => cx.count("same error"),
        (R::Ok(a), R::Ok(b)) => {
            if !a.starts_with(s.out.sig.as_bytes()) {
                return bad("the output does not start with the signature configured for it".into());
            }
            let (a, b) = (chunk::read(Ver::L51, &s.out, a), chunk::read(Ver::L51, &Side::def51(), b));
            let (a, b) = match (a, b) {
                (Ok(a), Ok(b)) => (a.1, b.1),
                (Err(e), _) => return bad(format!("the output does not decode with the output's settings: {e}")),
                (_, Err(e)) => return bad(format!("the result under default settings does not decode: {e}")),
            };
            let (Some(x), Some(y)) = (plain(&a, &s.out), plain(&b, &Side::def51())) else {
                return bad("the output holds an instruction that cannot be decoded with the output's layout".into());
            };
            if let Some(d) = oracle::differ(&x, &y, &Side::def51(), "0") {
                return bad(format!("signature, layout or limit change what is converted: {d}"));
            }
            cx.count("outputs decoded and compared");
            cx.sample(|| format!("{key}: {} functions compared", 1 + a.p.len()));
        }
        _ => bad(format!("the settings change the outcome: {} instead of {}", r.brief(), base.brief())),
    }
}

/// The default settings are the documented ones.
fn defaults(cx: &Cx) {
    for v in vers() {
        let d = Sets::default();
        for (n, p) in samples::compiled(v, d.input(v)) {
            let input = chunk::write(v, &Fmt::NATIVE, d.input(v), &p);
            cx.eval();
            let a = sut::unify(&input, &samples::NATIVE4, &d);
            let b = sut::unify_with(&input, &sut::format(&samples::NATIVE4), &lunify::Settings::default());
            if a != b {
                cx.bad(900_000, &format!("default/{v:?}/{n}"), &format!("the default settings are not those of stock Lua: {} instead of {}", b.brief(), a.brief()), &input, &samples::NATIVE4, &d, "");
            }
        }
    }
}
