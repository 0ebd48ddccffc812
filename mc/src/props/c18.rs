//! Every truncation point and padding of every chunk.
use super::util::*;
use crate::cx::Cx;
use crate::samples;
use crate::sut::{self, Sets, R};
use crate::Meta;
use lunify::LunifyError;
use model::chunk::{self, Fmt, Proto};
use model::gen;
use model::ops::*;

pub const META: Meta = Meta {
    id: "C18",
    level: "fault_enumeration",
    rule: "a corpus with every construct and field x versions x all 64 formats x every strict prefix, and every padding of one byte (256 values) and of several; conversions forced by another format, another flush size, another signature; non-trivial: a prefix or padding of a chunk that converts",
    assumptions: &["a chunk that is returned as is (already in the requested format under equal settings) is not inspected"],
    run,
};

fn sets() -> Vec<(&'static str, Sets)> {
    let d = Sets::default();
    let mut flush = Sets::flush(32, 49);
    flush.l51.flush = 50;
    let mut sig = d.clone();
    sig.l50.sig = "\x1bLuaCustom".into();
    sig.l51.sig = "é!".into();
    let mut lay = d.clone();
    lay.l51.layout = LAYOUT50;
    lay.l50.layout = LAYOUT51;
    vec![("default", d), ("flush", flush), ("signatures", sig), ("layouts", lay)]
}

fn run(cx: &Cx) {
    let t = cx.thorough;
    let mut work: Vec<(String, &'static str, Sets, Ver, Fmt, Proto)> = vec![];
    for (sn, s) in sets() {
        for v in vers() {
            let side = s.input(v);
            let mut chunks = vec![("rich".to_string(), samples::rich(v, side))];
            chunks.extend(samples::compiled(v, side));
            for (cn, p) in &chunks {
                for f in Fmt::all() {
                    if sn != "default" && !t && f.int != f.size_t {
                        continue;
                    }
                    work.push((cn.clone(), sn, s.clone(), v, f, p.clone()));
                }
            }
            for (i, src) in zoo().into_iter().enumerate() {
                if let Ok(p) = gen::comp(&model::parse::parse(&src), v, side) {
                    let all = Fmt::all();
                    let n = if t { 8 } else { 1 };
                    for k in 0..n {
                        work.push((src.clone(), sn, s.clone(), v, all[(i * 13 + k * 8 + 5) % 64], p.clone()));
                    }
                }
            }
        }
    }
    cx.par(&work, |i, (cn, sn, s, v, f, p)| {
        let p = samples::adapt(p, f);
        let input = chunk::write(*v, f, s.input(*v), &p);
        // an output format that differs from the input, unless the settings do
        let fo = if *v == Ver::L51 && s.l51 != s.out && f.num == 8 { *f } else { Fmt { size_t: 12 - f.size_t, ..*f } };
        let key = |w: &str| format!("{}/{v:?}/{sn}/{}->{}: {w}", cn.chars().take(80).collect::<String>(), short(f), short(&fo));
        cx.eval();
        let r = sut::unify(&input, &fo, s);
        if !matches!(r, R::Ok(_)) {
            cx.bad(i, &key("complete"), &format!("a complete chunk is rejected: {}", r.brief()), &input, &fo, s, "");
            return;
        }
        let sig = s.input(*v).sig.len();
        let mut cut = 0u64;
        for n in 0..input.len() {
            cx.eval();
            let r = sut::unify(&input[..n], &fo, s);
            let fine = match r {
                R::Err(LunifyError::InputTooShort) => true,
                R::Err(LunifyError::IncorrectSignature) => n <= sig,
                _ => false,
            };
            cut += 1;
            if !fine {
                cx.bad(i, &key(&format!("first {n} of {} bytes", input.len())), &format!("a truncated chunk is not reported as too short: {}", r.brief()), &input[..n], &fo, s, "");
                return;
            }
        }
        let mut pad = |x: &[u8]| {
            let mut q = input.clone();
            q.extend_from_slice(x);
            cx.eval();
            let r = sut::unify(&q, &fo, s);
            if r != R::Err(LunifyError::InputTooLong) {
                cx.bad(i, &key(&format!("followed by {} bytes {:02x?}", x.len(), &x[..x.len().min(8)])), &format!("a chunk followed by extra bytes is not reported as too long: {}", r.brief()), &q, &fo, s, "");
            }
            cut += 1;
        };
        for b in if t || i % 16 == 0 { 0..=255u8 } else { 0..=1 } {
            pad(&[b]);
        }
        for n in [2, 3, 4, 7, 8, 9, 16, 100] {
            pad(&vec![0; n]);
            pad(&vec![0xff; n]);
        }
        pad(&input);
        pad(s.input(*v).sig.as_bytes());
        cx.seen(&(cn, sn, v, f));
        cx.add("truncations and paddings", cut);
        cx.sample(|| format!("{}: {} bytes, all {} prefixes and {} paddings", key(""), input.len(), input.len(), cut - input.len() as u64));
    });
}
