//! The optional features and the build profile have no influence on the
//! results; what can be serialized survives it.
use super::util::*;
use crate::cx::{hex, Cx};
use crate::samples;
use crate::sut::{self, Sets, R};
use crate::Meta;
use model::chunk::{self, Fmt, Proto};
use model::gen;
use model::ops::*;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};

pub const META: Meta = Meta {
    id: "C25",
    level: "exploration",
    rule: "the real converter built without optional features, with `debug`, with `serde` and with both (optimized, without overflow checks), on chunks x versions x formats x settings, every prefix and every single-byte fault at boundary values, programs with every construct, stripped or not, strings and lists of every length up to 300 and around larger powers of two, deep nesting and every error; compared with the result of the default build (with overflow checks); with `serde` every format, layout, setting and error through a binary and a textual encoding, and the conversion repeated with what was read back; non-trivial: the same result from a build with a feature",
    assumptions: &["settings borrow their signatures, so an encoding has to be able to lend them"],
    run,
};

const BUILDS: [&str; 4] = ["none", "debug", "serde", "debug,serde"];
const DIR: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/../target/mcf");

pub struct Req {
    pub name: String,
    pub input: Vec<u8>,
    pub fo: Fmt,
    pub s: Sets,
}
pub fn line(r: &Req) -> String {
    let f = &r.fo;
    let side = |s: &Side| {
        let l: Vec<String> = s.layout.0.iter().map(|(f, n)| format!("{f:?}{n}")).collect();
        format!("-{}/{}/{}/{}", hex(s.sig.as_bytes()), l.join(","), s.flush, s.limit)
    };
    format!(
        "-{} {},{},{},{},{},{},{} {} {} {}\n",
        hex(&r.input),
        f.format,
        f.little as u8,
        f.int,
        f.size_t,
        f.ins,
        f.num,
        f.integral as u8,
        side(&r.s.l50),
        side(&r.s.l51),
        side(&r.s.out)
    )
}
pub fn show(r: &R) -> String {
    match r {
        R::Ok(b) => {
            let h = b.iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
            format!("ok:{}:{h:016x}", b.len())
        }
        R::Err(e) => format!("err:{e:?}"),
        R::Panic(_) => "panic".into(),
    }
}
fn ask(build: &str, lines: &str) -> Vec<String> {
    answers(Command::new("timeout").args(["-k", "1", "120"]).arg(format!("{DIR}/mcf-{build}")), lines)
}
/// The answers of a program; fewer than requests when it died or hung.
pub fn answers(c: &mut Command, lines: &str) -> Vec<String> {
    let mut c = c
        .stdin(Stdio::piped())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .expect("harness: mcf");
    let mut to = c.stdin.take().unwrap();
    let from = BufReader::new(c.stderr.take().unwrap());
    let lines = lines.to_string();
    let w = std::thread::spawn(move || {
        let _ = to.write_all(lines.as_bytes());
    });
    let r = from.lines().map_while(|l| l.ok()).filter_map(|l| l.strip_prefix("> ").map(String::from)).collect();
    let _ = w.join();
    let _ = c.wait();
    r
}

pub fn requests(t: bool) -> Vec<Req> {
    use Fld::*;
    let mut o = vec![];
    let d = Sets::default();
    let mut sets = vec![("default", d.clone())];
    for (n, f) in [
        ("plain signatures", (|s: &mut Sets| {
            s.l50.sig = "Own".into();
            s.l51.sig = "Other".into();
            s.out.sig = "\u{e9}\u{1f40d}".into();
        }) as fn(&mut Sets)),
        ("flush", |s| *s = Sets::flush(3, 7)),
        ("layouts", |s| {
            s.l50.layout = Layout([(A, 9), (B, 12), (C, 13), (O, 7)]);
            s.l51.layout = LAYOUT50;
            s.out.layout = Layout([(C, 10), (B, 9), (O, 6), (A, 7)]);
            s.out.sig = "".into();
        }),
        ("limits", |s| {
            s.l50.limit = 100;
            s.out.limit = 9;
        }),
        ("large values", |s| {
            s.l51.flush = u64::MAX;
            s.out.flush = u64::MAX - 1;
            s.out.limit = u64::MAX;
            s.out.layout = Layout([(C, 8), (B, 25), (A, 21), (O, 10)]);
        }),
        ("no signatures", |s| {
            s.l50.sig = "".into();
            s.l51.sig = "".into();
        }),
    ] {
        let mut s = d.clone();
        f(&mut s);
        sets.push((n, s));
    }
    let few = [Fmt::NATIVE, samples::NATIVE4, Fmt { little: false, int: 8, size_t: 8, ins: 8, num: 4, integral: true, format: 3 }, Fmt { num: 4, ..Fmt::NATIVE }];
    for (sn, s) in &sets {
        let ins = |l: &Side| if l.layout.total() > 32 { 8 } else { 4 };
        for v in vers() {
            let own = Side { flush: s.input(v).flush.min(1000), ..s.input(v).clone() };
            let mut ps: Vec<(String, Proto)> = vec![("rich".into(), samples::rich(v, &own))];
            ps.extend(samples::SOURCES.iter().filter_map(|x| gen::comp(&model::parse::parse(x.1), v, &own).ok().map(|p| (x.0.to_string(), p))));
            for (pn, p) in &ps {
                for fi in if *sn == "default" { Fmt::all() } else { few.to_vec() } {
                    if fi.ins < ins(&own) {
                        continue;
                    }
                    let input = chunk::write(v, &fi, &own, &samples::adapt(p, &fi));
                    for fo in few {
                        o.push(Req { name: format!("{sn}/{v:?}/{pn}"), input: input.clone(), fo, s: s.clone() });
                    }
                }
            }
        }
    }
    // every layout that is not too different
    for (i, order) in [[O, A, B, C], [O, A, C, B], [A, O, B, C], [B, C, A, O], [C, B, O, A], [A, B, C, O]].iter().enumerate() {
        for so in [6u8, 7, 31] {
            for sa in [7u8, 8, 20] {
                for sb in [8u8, 9, 31] {
                    for sc in [8u8, 9, 17] {
                        let l = Layout(order.map(|f| (f, (match f { O => so, A => sa, B => sb, C => sc }) as _)));
                        let mut s = d.clone();
                        s.out.layout = l;
                        s.l50.layout = l;
                        if l.total() > 64 {
                            continue;
                        }
                        let v = Ver::L51;
                        let p = gen::comp(&model::parse::parse("local a = 1 emit(a == 2)"), v, &s.l51).unwrap();
                        o.push(Req { name: format!("layout {i}"), input: chunk::write(v, &Fmt::NATIVE, &s.l51, &p), fo: Fmt { ins: 8, ..samples::NATIVE4 }, s });
                    }
                }
            }
        }
    }
    // faults and prefixes
    let src = "local function f(a, ...) emit(arg, a) end local t = {1, 2, 3, f, true, nil} for i = 1, 2 do emit(t[i] == 3, \"s\\n\") end for k in tab do emit(k) end";
    for v in vers() {
        for (sn, s) in sets.iter().take(3) {
            let mut ps = vec![gen::comp(&model::parse::parse(src), v, s.input(v)).unwrap()];
            if t || *sn == "default" {
                ps.push(samples::rich(v, s.input(v)));
            }
            for p in ps {
                let input = chunk::write(v, &Fmt::NATIVE, s.input(v), &p);
                for n in 0..input.len() {
                    o.push(Req { name: format!("{sn}/{v:?}/prefix"), input: input[..n].to_vec(), fo: samples::NATIVE4, s: s.clone() });
                    let mut vals: Vec<u8> = if t { (0..=255).collect() } else { vec![0, 1, 4, 5, 63, 127, 128, 254, 255, input[n] ^ 1, input[n].wrapping_add(1), input[n].wrapping_sub(1), !input[n]] };
                    vals.sort();
                    vals.dedup();
                    for x in vals {
                        let mut b = input.clone();
                        b[n] = x;
                        o.push(Req { name: format!("{sn}/{v:?}/fault"), input: b, fo: samples::NATIVE4, s: s.clone() });
                    }
                }
            }
        }
        // programs, stripped or not
        for (fi, fo) in [(32, 50), (2, 3), (5, 1)] {
            let s = Sets::flush(fi, fo);
            for src in zoo() {
                let Ok(p) = gen::comp(&model::parse::parse(&src), v, s.input(v)) else { continue };
                for p in [Strip::ALL.apply(&p), p] {
                    o.push(Req { name: format!("{v:?}/{fi}->{fo}/{src}"), input: chunk::write(v, &Fmt::NATIVE, s.input(v), &p), fo: samples::NATIVE4, s: s.clone() });
                }
            }
        }
        // strings and lists of every length
        let rich = samples::rich(v, d.input(v));
        let lens: Vec<usize> = (0..=300).chain([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]).collect();
        for n in &lens {
            let text: Vec<u8> = (0..*n).map(|i| (i * 37 + i / 256) as u8).collect();
            let mut all = rich.clone();
            let mut each_place = |f: &mut Proto| {
                let mut named = text.clone();
                named.push(0);
                f.source = named.clone();
                f.k.push(chunk::K::Str(named.clone()));
                f.locals.iter_mut().for_each(|l| l.name = named.clone());
                f.upnames.iter_mut().for_each(|l| *l = named.clone());
            };
            each(&mut all, &mut each_place);
            o.push(Req { name: format!("{v:?}/strings of {n}"), input: chunk::write(v, &Fmt::NATIVE, d.input(v), &all), fo: samples::NATIVE4, s: d.clone() });
            if *n == 0 || *n > 5000 && !t {
                continue;
            }
            let leaf = rich.p[0].p[0].clone();
            for list in 0..4 {
                let mut p = leaf.clone();
                match list {
                    0 => p.k = (0..*n).map(|i| chunk::K::Flt(i as f64)).collect(),
                    1 => p.locals = (0..*n).map(|i| chunk::Local { name: format!("l{i}\0").into_bytes(), start: i as i64, end: i as i64 + 1 }).collect(),
                    2 => p.lines = (0..*n).map(|i| i as i64).collect(),
                    _ => {
                        let ret = *p.code.last().unwrap();
                        p.code = vec![p.code[0]; *n];
                        p.code.push(ret);
                        p.lines = vec![1; *n + 1];
                    }
                }
                for s in [&d, &Sets::flush(3, 7)] {
                    o.push(Req { name: format!("{v:?}/list {list} of {n}"), input: chunk::write(v, &Fmt::NATIVE, s.input(v), &p), fo: samples::NATIVE4, s: s.clone() });
                }
            }
        }
        // nesting
        for depth in [1usize, 50, 190, 199, 200, 201, 220] {
            let leaf = samples::rich(v, d.input(v)).p[0].p[0].clone();
            let mut p = leaf.clone();
            for _ in 0..depth {
                p = Proto { p: vec![p], ..leaf.clone() };
            }
            o.push(Req { name: format!("{v:?}/nested {depth}"), input: chunk::write(v, &Fmt::NATIVE, d.input(v), &p), fo: samples::NATIVE4, s: d.clone() });
        }
    }
    o
}

fn run(cx: &Cx) {
    let reqs = requests(cx.thorough);
    let mut work = vec![];
    for build in BUILDS {
        if let Ok(m) = std::fs::read_to_string(format!("{DIR}/mcf-{build}.broken")) {
            cx.violation(0, format!("build {build}"), m.trim().to_string(), format!("property: C25\n{m}"));
            continue;
        }
        for k in (0..reqs.len()).step_by(500) {
            work.push((build, k, &reqs[k..(k + 500).min(reqs.len())]));
        }
    }
    cx.par(&work, |_, (build, first, reqs)| {
        let lines: String = reqs.iter().map(line).collect();
        let answers = ask(build, &lines);
        for (k, r) in reqs.iter().enumerate() {
            cx.eval();
            let want = sut::unify(&r.input, &r.fo, &r.s);
            let key = format!("{build}/{}/{}", r.name, first + k);
            let bad = |w: &str| cx.bad(first + k, &key, w, &r.input, &r.fo, &r.s, &format!("build with features: {build}"));
            let Some(a) = answers.get(k) else {
                bad("the build does not answer: it died or hung");
                return;
            };
            if matches!(want, R::Panic(_)) {
                // judged by C01
                continue;
            }
            let (got, serde) = a.split_once(" | ").unwrap_or((a, ""));
            if got != show(&want) {
                bad(&format!("{got} instead of {}", show(&want)));
            }
            match serde {
                "same" => cx.count(&format!("same result: {build}")),
                // one finding, whatever is converted
                "escaped" => {
                    cx.count("settings that a textual format cannot lend");
                    cx.bad(usize::MAX, "settings with an escaped signature in a textual format", "cannot be deserialized", &r.input, &r.fo, &r.s, "")
                }
                e => bad(e),
            }
            cx.seen(&(build, first + k));
            cx.sample(|| format!("{key}: {a}"));
        }
    });
    for build in BUILDS {
        cx.eval();
        let a = ask(build, "values\n");
        if a.first().map(|s| s.as_str()) != Some("ok same") && !std::path::Path::new(&format!("{DIR}/mcf-{build}.broken")).exists() {
            cx.violation(0, format!("values {build}"), format!("serialization of errors: {a:?}"), format!("property: C25\n{a:?}\n"));
        }
    }
}
