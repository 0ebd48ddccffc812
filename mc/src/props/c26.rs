//! The machine that converts has no influence on the result.
use super::c25::{self, line, show, Req};
use super::util::*;
use crate::cx::Cx;
use crate::samples;
use crate::sut::{self, Sets, R};
use crate::Meta;
use model::chunk::{self, Fmt, Local, Proto, K};
use model::gen;
use model::ops::*;
use std::process::Command;

pub const META: Meta = Meta {
    id: "C26",
    level: "exploration",
    rule: "the real converter built for a machine with 32 bit pointers (WebAssembly, with and without overflow checks) on every request of C25, every byte of inputs with 64 bit fields replaced by boundary values, and every length, count, line and range of such inputs at and around multiples of 2^32 and at the limits of 64 bits; the real converter interpreted for big-endian machines with 32 and 64 bit pointers (Miri: powerpc, s390x) on every input format x output formats x versions, faults at and prefixes up to every byte of small inputs, numbers at the limits, settings and programs with every construct; each answer compared with that of the default build; the default format of every machine; non-trivial: the same result from another machine",
    assumptions: &["Miri executes the MIR of the real crate as a machine of the target would"],
    run,
};

const DIR: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/../target/hosts");
const MCF: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/../mcf/Cargo.toml");
/// Name, little endian, width of a pointer in bytes, whether it is interpreted.
const HOSTS: [(&str, bool, u8, bool); 4] = [("release", true, 4, false), ("checked", true, 4, false), ("s390x", false, 8, true), ("powerpc", false, 4, true)];

fn ask(host: &str, interpreted: bool, lines: &str) -> Vec<String> {
    let mut c = Command::new("timeout");
    c.args(["-k", "1", "300"]);
    if interpreted {
        c.args(["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path", MCF, "--target"]).arg(format!("{host}-unknown-linux-gnu"));
        c.env("MIRI_SYSROOT", format!("{DIR}/{host}-unknown-linux-gnu"));
        c.env("CARGO_TARGET_DIR", format!("{DIR}/build-{host}"));
        c.env("MIRIFLAGS", "-Zmiri-disable-validation -Zmiri-disable-stacked-borrows -Zmiri-disable-isolation");
    } else {
        c.arg("node").arg(concat!(env!("CARGO_MANIFEST_DIR"), "/../mcw/run.mjs")).arg(format!("{DIR}/{host}.wasm"));
    }
    c25::answers(&mut c, lines)
}

/// A small chunk that holds something in every list.
fn small(v: Ver, side: &Side) -> Proto {
    let mut p = gen::comp(&model::parse::parse("local a = f"), v, side).unwrap();
    p.source = b"s\0".to_vec();
    p.k.push(K::Flt(3.0));
    p.k.push(K::Nil);
    p.upnames = vec![b"u\0".to_vec()];
    p.nups = 1;
    if v == Ver::L51 {
        p.k.push(K::Bool(true));
    }
    if p.locals.is_empty() {
        p.locals.push(Local { name: b"a\0".to_vec(), start: 1, end: 2 });
    }
    p
}
const WIDE: Fmt = Fmt { int: 8, size_t: 8, ins: 8, ..Fmt::NATIVE };

/// Fields of 64 bits with values that 32 bits cannot hold.
fn wide(t: bool) -> Vec<Req> {
    let mut o = vec![];
    let d = Sets::default();
    for v in vers() {
        for (pn, p) in [("small", small(v, d.input(v))), ("rich", samples::rich(v, d.input(v)))] {
            for fi in [WIDE, Fmt { little: false, ..WIDE }, Fmt { num: 4, integral: v == Ver::L51, ..WIDE }] {
                let input = chunk::write(v, &fi, d.input(v), &samples::adapt(&p, &fi));
                for fo in [samples::NATIVE4, WIDE, Fmt { format: 7, ..WIDE }] {
                    for n in 0..input.len() {
                        // a field of eight bytes that may begin here
                        if n + 8 <= input.len() {
                            let mut x: [u8; 8] = input[n..n + 8].try_into().unwrap();
                            if !fi.little {
                                x.reverse()
                            }
                            let x = i64::from_le_bytes(x);
                            if (-1 << 16..1 << 16).contains(&x) {
                                for y in [
                                    x | 1 << 32,
                                    x | 1 << 31,
                                    x | 1 << 33,
                                    x | 1 << 62,
                                    x | i64::MIN,
                                    (1 << 32) - 1,
                                    1 << 32,
                                    (1 << 32) + 1,
                                    -1,
                                    -2,
                                    i64::MAX,
                                    i64::MIN,
                                    1 << 31,
                                    (1 << 31) - 1,
                                    -(1 << 31),
                                    -(1 << 31) - 1,
                                    x - (1 << 32),
                                    x.wrapping_add(u32::MAX as i64),
                                ] {
                                    let mut b = input.clone();
                                    let mut y = y.to_le_bytes();
                                    if !fi.little {
                                        y.reverse()
                                    }
                                    b[n..n + 8].copy_from_slice(&y);
                                    o.push(Req { name: format!("{v:?}/{pn}/field at {n}"), input: b, fo, s: d.clone() });
                                }
                            }
                        }
                        if fo == WIDE || t {
                            for x in [0, 1, 127, 128, 255] {
                                let mut b = input.clone();
                                b[n] = x;
                                o.push(Req { name: format!("{v:?}/{pn}/byte {n}"), input: b, fo, s: d.clone() });
                            }
                        }
                    }
                }
            }
        }
    }
    o.extend(numbers());
    o
}
/// Numbers and operands at their limits.
fn numbers() -> Vec<Req> {
    let mut o = vec![];
    let d = Sets::default();
    let limits: Vec<f64> = [31, 32, 33, 53, 62, 63, 64].iter().flat_map(|b| [-1.0, 0.0, 1.0].map(|x| 2f64.powi(*b) + x)).flat_map(|x| [x, -x]).chain([0.0, -0.0, 0.5, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, 16777217.0]).collect();
    for v in vers() {
        for int in if v == Ver::L51 { vec![false, true] } else { vec![false] } {
            for fo in [samples::NATIVE4, Fmt { num: 4, ..WIDE }, Fmt { num: 4, integral: true, little: false, ..WIDE }, Fmt { integral: true, ..WIDE }] {
                let mut p = small(v, d.input(v));
                for x in &limits {
                    let k = p.k.len() - 1;
                    p.k[k] = if int { K::Int(*x as i64) } else { K::Flt(*x) };
                    for fi in [Fmt { integral: int, ..Fmt::NATIVE }, Fmt { integral: int, little: false, ..WIDE }] {
                        let mut q = p.clone();
                        for c in &mut q.k {
                            if let (K::Flt(x), true) = (&c, int) {
                                *c = K::Int(*x as i64)
                            }
                        }
                        o.push(Req { name: format!("{v:?}/number {x}"), input: chunk::write(v, &fi, d.input(v), &q), fo, s: d.clone() });
                    }
                }
            }
        }
    }
    o
}

/// What is converted on the interpreted machines: few and small inputs.
fn few(t: bool) -> Vec<Req> {
    let mut o = vec![];
    let d = Sets::default();
    let outs = [Fmt::NATIVE, Fmt { little: false, int: 8, ins: 8, ..samples::NATIVE4 }, Fmt { little: false, integral: true, format: 3, ..WIDE }];
    for v in vers() {
        let p = small(v, d.input(v));
        for fi in Fmt::all() {
            let input = chunk::write(v, &fi, d.input(v), &samples::adapt(&p, &fi));
            for fo in outs {
                o.push(Req { name: format!("{v:?}/formats"), input: input.clone(), fo, s: d.clone() });
            }
        }
        for fo in Fmt::all() {
            o.push(Req { name: format!("{v:?}/formats"), input: chunk::write(v, &Fmt { format: 0, ..Fmt::NATIVE }, d.input(v), &p), fo, s: d.clone() });
        }
        for fi in [Fmt::NATIVE, Fmt { little: false, ..WIDE }] {
            let input = chunk::write(v, &fi, d.input(v), &p);
            for n in 0..input.len() {
                if fi == Fmt::NATIVE {
                    o.push(Req { name: format!("{v:?}/prefix"), input: input[..n].to_vec(), fo: samples::NATIVE4, s: d.clone() });
                }
                for x in if t { vec![0, 1, 4, 63, 127, 128, 254, 255] } else if fi == Fmt::NATIVE { vec![255] } else { vec![1, 255] } {
                    let mut b = input.clone();
                    b[n] = x;
                    if b != input {
                        o.push(Req { name: format!("{v:?}/byte {n}"), input: b, fo: samples::NATIVE4, s: d.clone() });
                    }
                }
            }
        }
    }
    o.extend(numbers().into_iter().step_by(if t { 1 } else { 5 }));
    for (fi, fo) in [(32, 50), (5, 1)] {
        let s = Sets::flush(fi, fo);
        for v in vers() {
            for src in zoo().into_iter().step_by(if t { 2 } else { 16 }) {
                let Ok(p) = gen::comp(&model::parse::parse(&src), v, s.input(v)) else { continue };
                o.push(Req { name: format!("{v:?}/{fi}->{fo}/{src}"), input: chunk::write(v, &Fmt::NATIVE, s.input(v), &p), fo: Fmt { little: false, ..samples::NATIVE4 }, s: s.clone() });
            }
        }
    }
    // settings, without the ones for large inputs
    let other: Vec<Req> = c25::requests(false).into_iter().filter(|r| r.name.starts_with("layout") || r.input.len() < 300 && !r.name.contains("fault") && !r.name.contains("prefix")).collect();
    let step = if t { 4 } else { 40 };
    o.extend(other.into_iter().step_by(step));
    o
}

fn run(cx: &Cx) {
    let t = cx.thorough;
    let mut full = c25::requests(t);
    full.extend(wide(t));
    let some = few(t);
    cx.add("requests to machines with 32 bit pointers", full.len() as u64);
    cx.add("requests to interpreted machines", some.len() as u64);
    let mut work = vec![];
    // the slow ones first
    for (host, little, width, interpreted) in HOSTS.iter().rev() {
        if let Ok(m) = std::fs::read_to_string(format!("{DIR}/{host}.broken")) {
            cx.violation(0, format!("build {host}"), m.trim().to_string(), format!("property: C26\n{m}"));
            continue;
        }
        let reqs = if *interpreted { &some } else { &full };
        let n = if *interpreted { 60 } else { 3000 };
        for k in (0..reqs.len()).step_by(n) {
            work.push((*host, *little, *width, *interpreted, k, &reqs[k..(k + n).min(reqs.len())]));
        }
    }
    cx.par(&work, |_, &(host, little, width, interpreted, first, reqs)| {
        let mut lines: String = reqs.iter().map(line).collect();
        lines.push_str("default\n");
        let start = std::time::Instant::now();
        let mut answers = ask(host, interpreted, &lines);
        if std::env::var_os("VP_DEBUG").is_some() {
            eprintln!("{host} {first}: {} bytes, {} ms, {}", lines.len(), start.elapsed().as_millis(), reqs[0].name);
        }
        if answers.len() <= reqs.len() {
            // once more, alone, what it died or hung on
            let k = answers.len();
            let again = ask(host, interpreted, lines.lines().nth(k).map(|l| format!("{l}\n")).unwrap().as_str());
            if let Some(a) = again.first() {
                eprintln!("harness: a worker of {host} ended at request {}, which alone is answered", first + k);
                answers.push(a.clone());
                let rest: String = lines.lines().skip(k + 1).map(|l| format!("{l}\n")).collect();
                answers.extend(ask(host, interpreted, &rest));
            }
        }
        for (k, r) in reqs.iter().enumerate() {
            cx.eval();
            let want = sut::unify(&r.input, &r.fo, &r.s);
            let key = format!("{host}/{}/{}", r.name, first + k);
            let bad = |w: &str| cx.bad(first + k, &key, w, &r.input, &r.fo, &r.s, &format!("machine: {host}, {} endian, {} bit pointers", if little { "little" } else { "big" }, width as u32 * 8));
            let Some(a) = answers.get(k) else {
                bad("the conversion does not answer on this machine: it died or hung");
                return;
            };
            if matches!(want, R::Panic(_)) {
                // judged by C01
                continue;
            }
            let got = a.split(" | ").next().unwrap();
            if got != show(&want) {
                bad(&format!("{got} instead of {}", show(&want)));
                continue;
            }
            cx.count(&format!("same result: {host}"));
            cx.seen(&(host, first + k));
            cx.sample(|| format!("{key}: {a}"));
        }
        cx.eval();
        let w = |n: u8| if n == 4 { lunify::BitWidth::Bit32 } else { lunify::BitWidth::Bit64 };
        let want = lunify::Format {
            format: 0,
            endianness: if little { lunify::Endianness::Little } else { lunify::Endianness::Big },
            integer_width: w(4),
            size_t_width: w(width),
            instruction_width: w(4),
            number_width: w(8),
            is_number_integral: false,
        };
        match answers.get(reqs.len()) {
            Some(a) if *a == format!("{want:?}") => cx.count("default formats"),
            a => cx.violation(usize::MAX, format!("default format of {host}"), format!("the default format is {a:?} instead of {want:?}"), format!("property: C26\nmachine: {host}\n")),
        }
    });
    // this machine
    let n = std::mem::size_of::<usize>() as u8;
    cx.eval();
    if lunify::Format::default() != sut::format(&Fmt { little: cfg!(target_endian = "little"), size_t: n, ..Fmt::NATIVE }) {
        cx.violation(usize::MAX, "default format".into(), format!("the default format is {:?}", lunify::Format::default()), "property: C26\n".into());
    }
}
