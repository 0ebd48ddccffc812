//! Number constants.
use super::util::*;
use crate::cx::Cx;
use crate::oracle;
use crate::sut::{self, Sets, R};
use crate::Meta;
use model::chunk::{self, Fmt, Proto, K};
use model::ops::*;
use std::collections::BTreeSet;

pub const META: Meta = Meta {
    id: "C05",
    level: "exploration",
    rule: "all 16 input number formats (kind x width x byte order, both versions) x 16 output number formats x values: every power of two and neighbours, every float exponent with extreme mantissas, limits, fractions around limits, infinities, NaN, the Lua 5.0 test number; non-trivial: value or error judged",
    assumptions: &["overflow when narrowing a float to 32 bit: infinity (nearest) or an error; negative zero to integer: 0 or an error"],
    run,
};

fn floats(f32_only: bool) -> Vec<f64> {
    let mut s = BTreeSet::new();
    let mut add = |x: f64| {
        let x = if f32_only { x as f32 as f64 } else { x };
        s.insert(x.to_bits());
        s.insert((-x).to_bits());
    };
    for x in [0.0, 1.0, 0.5, 0.1, 1.5, 2.5, 31415926.535897933, 31415926.0, 1e-300, 1e300, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NAN, 3.4e38, 3.5e38, 16777217.0, 4503599627370495.5] {
        add(x)
    }
    for e in 0..64 {
        let p = (1u64 << e) as f64;
        for d in [-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0] {
            add(p + d)
        }
        // neighbours
        add(f64::from_bits(p.to_bits() + 1));
        add(f64::from_bits(p.to_bits() - 1));
    }
    if f32_only {
        for e in 0..=255u32 {
            for m in [0u32, 1, 0x400000, 0x7fffff] {
                add(f32::from_bits(e << 23 | m) as f64)
            }
        }
    } else {
        for e in (0..=2047u64).step_by(13).chain([896, 897, 1022, 1023, 1024, 1150, 1151, 2046, 2047]) {
            for m in [0u64, 1, 1 << 51, (1 << 52) - 1, 1 << 28, (1 << 29) - 1, 1 << 29] {
                add(f64::from_bits(e << 52 | m))
            }
        }
    }
    s.into_iter().map(f64::from_bits).collect()
}
fn ints(n: u8) -> Vec<i64> {
    let mut s = BTreeSet::new();
    for e in 0..64 {
        let p = 1i64.wrapping_shl(e);
        for d in -2..=2 {
            let x = p.wrapping_add(d);
            s.insert(x);
            s.insert(x.wrapping_neg());
        }
    }
    for x in [31415926, i64::MAX, i64::MIN, 123456789, 9007199254740993, 9007199254740995, 16777219, 33554434, 33554435] {
        s.insert(x);
        s.insert(-(x as i128) as i64);
    }
    s.into_iter().filter(|&x| n == 8 || i32::try_from(x).is_ok()).collect()
}

fn run(cx: &Cx) {
    let s = Sets::default();
    let fmts: Vec<Fmt> = Fmt::all().into_iter().filter(|f| f.int == 4 && f.ins == 4).collect();
    let mut items = vec![];
    for v in vers() {
        for fi in fmts.iter().filter(|f| f.size_t == 8) {
            let ks: Vec<K> = if fi.integral { ints(fi.num).into_iter().map(K::Int).collect() } else { floats(fi.num == 4).into_iter().map(K::Flt).collect() };
            for k in ks {
                items.push((v, *fi, k));
            }
        }
    }
    cx.add("values x input formats", items.len() as u64);
    let ret = |v: Ver| encode(v, s.input(v), &Canon { op: Op::Return, a: Some(0), x: Arg::N(1), y: Arg::No }).unwrap();
    cx.par(&items, |i, (v, fi, k)| {
        let p = Proto { code: vec![ret(*v)], lines: vec![1], k: vec![K::s("before"), k.clone(), K::Nil, k.clone()], ..Proto::default() };
        let input = chunk::write(*v, fi, s.input(*v), &p);
        for fo in &fmts {
            if fi == fo && *v == Ver::L51 {
                continue;
            }
            cx.eval();
            let key = format!("{v:?}/{k:?}/{}->{}", short(fi), short(fo));
            let r = sut::unify(&input, fo, &s);
            let bad = |w: &str| cx.bad(i, &key, w, &input, fo, &s, "");
            let is_err = oracle::unrepresentable(&r, &[oracle::Why::Number]);
            match oracle::number(k, fo) {
                Err(_) => {
                    if is_err {
                        cx.seen(&key);
                        cx.count("unrepresentable numbers reported");
                    } else {
                        bad(&format!("the requested format cannot hold this number, yet: {}", shown(&r, &s)))
                    }
                }
                Ok(_) if is_err && oracle::number_lenient(k, fo) => cx.seen(&key),
                Ok(e) => match &r {
                    R::Ok(o) => match chunk::read(Ver::L51, &s.out, o) {
                        Ok((_, q)) => {
                            cx.seen(&key);
                            if q.k.len() != 4 || !q.k[1].same(&e) || !q.k[3].same(&e) || q.k[0] != K::s("before") || q.k[2] != K::Nil {
                                bad(&format!("constants became {:?}, expected {e:?}", q.k))
                            } else {
                                cx.sample(|| format!("{key} = {e:?}"))
                            }
                        }
                        Err(x) => bad(&format!("output does not decode: {x}")),
                    },
                    r => bad(&format!("a representable number is not converted: {}", r.brief())),
                },
            }
        }
    });
}
fn shown(r: &R, s: &Sets) -> String {
    match r {
        R::Ok(o) => format!("{:?}", chunk::read(Ver::L51, &s.out, o).map(|x| x.1.k)),
        r => r.brief(),
    }
}
