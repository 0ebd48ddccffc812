//! Every successful output is Lua 5.1 in exactly the requested format.
use super::util::*;
use crate::cx::Cx;
use crate::oracle;
use crate::samples;
use crate::sut::{self, Sets, R};
use crate::Meta;
use model::chunk::{self, Fmt, Proto};
use model::ops::*;

pub const META: Meta = Meta {
    id: "C02",
    level: "exploration",
    rule: "every input version and format (128) x every requested format (64) x format bytes of input and output x signature, flush and layout settings x chunks; every output signature of up to one ASCII character, over an alphabet of 10 up to length 3 (thorough: 4), with blank, control and multi-byte ends, and long ones; non-trivial: the conversion succeeded and the whole output was decoded again",
    assumptions: &["model::chunk codec (bound to the stock loader in C20)"],
    run,
};

pub fn chunks(v: Ver, side: &Side) -> Vec<(String, Proto)> {
    let mut out = vec![("rich".to_string(), samples::rich(v, side))];
    out.extend(samples::compiled(v, side).into_iter().filter(|c| ["empty", "closures"].contains(&c.0.as_str())));
    out
}

fn run(cx: &Cx) {
    let mut sets = vec![("default".to_string(), Sets::default())];
    for (n, f) in [
        ("output signature", (|s: &mut Sets| s.out.sig = "\x1bLux".into()) as fn(&mut Sets)),
        ("longer output signature", |s| s.out.sig = "\x1bLua51".into()),
        ("input signatures", |s| {
            s.l50.sig = "\x1bLu0".into();
            s.l51.sig = "\x1bLu1".into()
        }),
        ("all signatures", |s| {
            s.l50.sig = "a".into();
            s.l51.sig = "bb".into();
            s.out.sig = "ccc".into()
        }),
        ("output layout", |s| s.out.layout = LAYOUT50),
        ("input 5.1 layout", |s| s.l51.layout = LAYOUT50),
        ("output stack limit", |s| s.out.limit = 200),
        ("output flush", |s| s.out.flush = 7),
    ] {
        let mut s = Sets::default();
        f(&mut s);
        sets.push((n.into(), s));
    }
    let mut work = vec![];
    for (sn, s) in &sets {
        for v in [Ver::L50, Ver::L51] {
            for (cn, p) in chunks(v, s.input(v)) {
                for fi in Fmt::all() {
                    work.push((sn.clone(), s.clone(), v, cn.clone(), p.clone(), fi));
                }
            }
        }
    }
    cx.par(&work, |i, (sn, s, v, cn, p, fi)| {
        let p = samples::adapt(p, fi);
        let input = chunk::write(*v, fi, s.input(*v), &p);
        for mut fo in Fmt::all() {
            // (requested, input) format bytes
            for (format, from) in [(0u8, 0u8), (1, 0), (255, 0), (0, 1), (1, 1), (7, 255), (1, 7)] {
                if format != 0 && fo.int == 8 || from != 0 && (*v == Ver::L50 || sn != "default" && sn != "output layout" && fo.size_t == 8) {
                    continue;
                }
                fo.format = format;
                let fi = &Fmt { format: from, ..*fi };
                let input = if from == 0 { input.clone() } else { chunk::write(*v, fi, s.input(*v), &p) };
                cx.eval();
                let key = format!("{cn}/{v:?}/{sn}/{}->{}", short(fi), short(&fo));
                let r = sut::unify(&input, &fo, s);
                let bad = |w: &str| cx.bad(i, &key, w, &input, &fo, s, "");
                let out = match &r {
                    R::Ok(o) => o,
                    r => {
                        bad(&format!("a chunk that every format can hold is not converted: {}", r.brief()));
                        continue;
                    }
                };
                let head = chunk::header(Ver::L51, &fo, &s.out);
                if !out.starts_with(&head) {
                    bad(&format!("the output does not start with the requested header: {:02x?}, expected {head:02x?}", &out[..head.len().min(out.len())]));
                    continue;
                }
                match chunk::read(Ver::L51, &s.out, out) {
                    Err(e) => bad(&format!("the output is not a chunk in the requested format: {e}")),
                    Ok((f, q)) => {
                        if f != fo {
                            bad(&format!("header decodes to {f:?}"))
                        }
                        cx.seen(&key);
                        cx.sample(|| format!("{key}: {} bytes -> {} bytes, header {head:02x?}", input.len(), out.len()));
                        if let Some(d) = data(&p, &q, s, *v, &fo) {
                            bad(&format!("the output, read in the requested format, is another program: {d}"))
                        }
                    }
                }
            }
        }
    });
    outputs(cx);
}

/// Every kind of output signature: exactly its bytes come first, and the rest
/// is that of the output with the stock signature.
fn outputs(cx: &Cx) {
    let t = cx.thorough;
    let sigs = signatures(if t { 4 } else { 3 });
    let mut work = vec![];
    for v in vers() {
        for fi in [Fmt::NATIVE, Fmt { little: false, int: 8, ..Fmt::NATIVE }] {
            for fo in [Fmt::NATIVE, samples::NATIVE4, Fmt { little: false, int: 8, num: 4, integral: true, ..Fmt::NATIVE }] {
                work.push((v, fi, fo));
            }
        }
    }
    cx.par(&work, |i, (v, fi, fo)| {
        let d = Sets::default();
        let p = samples::adapt(&samples::rich(*v, d.input(*v)), fi);
        let input = chunk::write(*v, fi, d.input(*v), &p);
        // a chunk that is returned unchanged keeps its size hints
        let mut other = d.clone();
        other.out.sig = "Else".into();
        cx.eval();
        let (R::Ok(same), R::Ok(conv)) = (sut::unify(&input, fo, &d), sut::unify(&input, fo, &other)) else {
            return cx.bad(500_000 + i, "signature/stock", "not converted", &input, fo, &d, "");
        };
        for (k, sig) in sigs.iter().enumerate() {
            // of the output; and of the input, when it is the same
            for both in [false, true] {
                let mut s = d.clone();
                s.out.sig = sig.clone();
                let mut bytes = input.clone();
                if both {
                    s.l50.sig = sig.clone();
                    s.l51.sig = sig.clone();
                    bytes = [sig.as_bytes(), &input[4..]].concat();
                }
                cx.eval();
                let r = sut::unify(&bytes, fo, &s);
                let key = format!("signature/{v:?}/{}->{}/{both}/{k}", short(fi), short(fo));
                let base = if both || *sig == s.l51.sig { &same } else { &conv };
                match &r {
                    R::Ok(o) if o.strip_prefix(sig.as_bytes()) == Some(&base[4..]) => {
                        cx.seen(&key);
                        cx.count("signatures");
                    }
                    r => return cx.bad(500_000 + i * sigs.len() + k, &key, &format!("signature {sig:?}: {}", r.brief()), &bytes, fo, &s, ""),
                }
            }
        }
    });
}

/// Names, constants and nesting survive (instructions are judged elsewhere).
pub fn data(p: &Proto, q: &Proto, _s: &Sets, v: Ver, fo: &Fmt) -> Option<String> {
    if p.source != q.source || p.line != q.line || p.p.len() != q.p.len() || p.nparams != q.nparams {
        return Some(format!("function header {:?} {:?}", (&p.source, p.line, p.p.len()), (&q.source, q.line, q.p.len())));
    }
    for (i, k) in p.k.iter().enumerate() {
        match (oracle::number(k, fo), q.k.get(i)) {
            (Ok(x), Some(y)) if x.same(y) => {}
            (x, y) => return Some(format!("constant {i}: {x:?} {y:?}")),
        }
    }
    if v == Ver::L51 && p.k.len() != q.k.len() {
        return Some("number of constants".into());
    }
    if p.code.len() > q.code.len() {
        return Some(format!("{} instructions became {}", p.code.len(), q.code.len()));
    }
    p.p.iter().zip(&q.p).find_map(|(a, b)| data(a, b, _s, v, fo))
}
