//! The stock interpreter as judge: loader verdicts and complete replays. The
//! reference machines, the code generator and the byte code verifier of this
//! framework are themselves compared with stock Lua here.
use super::util::*;
use crate::behave::{self, Case};
use crate::corpus;
use crate::cx::Cx;
use crate::samples;
use crate::stock;
use crate::sut::{self, Sets, R};
use crate::Meta;
use model::chunk::{self, Fmt, Proto, K};
use model::gen;
use model::ops::*;
use model::product::{self, Cfg};
use model::vm::{Prog, Strs};
use std::sync::atomic::Ordering::Relaxed;
use model::verify;

pub const META: Meta = Meta {
    id: "C20",
    level: "model_checking",
    rule: "a corpus with every construct x Lua 5.0 input (reference code generator) and Lua 5.1 input (reference code generator and stock luac) x flush sizes x requested formats: stock loader verdict on the output (transcoded by the reference codec when the format is not native), all traces of the explored product replayed on stock Lua 5.1; the repository's Lua 5.0 and 5.1 binaries; conformance of generator, machines and verifier with stock Lua; non-trivial: output loaded and run by stock Lua",
    assumptions: &["stock Lua 5.1.5 on x86-64; other formats are judged by a port of its loader that is compared with it here", "no stock Lua 5.0 exists here: its semantics are those of the reference machine, validated on the repository's Lua 5.0 binaries"],
    run,
};

fn cfg() -> Cfg {
    Cfg { max_traces: 24, max_states: 400, ..super::c12::cfg() }
}
fn programs(t: bool) -> Vec<String> {
    let mut v = zoo();
    v.extend(corpus::control(if t { 3 } else { 2 }, 1, &["emit", "local", "set", "break", "return", "closure", "if", "ifelse", "while", "repeat", "do", "nfor", "gfor1", "gfor2", "tfor"]).into_iter().map(|s| format!("local x = 0 do {s} end emit(\"end\")")));
    for (i, e) in corpus::exprs(2).into_iter().enumerate() {
        if t || i % 4 == 0 {
            v.push(format!("local a = any() emit({e}) local b = {e} emit(b) if {e} then emit(1) end while {e} do emit(2) break end G = {e} return {e}"));
        }
    }
    v.extend(super::c08::arith().into_iter().enumerate().filter(|(i, _)| t || i % 3 == 0).map(|x| x.1));
    for c in super::c12::CONTEXT {
        for n in 0..9 {
            for e in ["7", "multi()", "ask() and 5", "k = val(3)"] {
                let mut items = vec!["x"; n];
                items.push(e);
                v.push(format!("local x = 3 {}", c.replace('%', &super::c12::table(&items))));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Judge one output as the stock loader does.
fn loads(cx: &Cx, variant: Option<&str>, side: &Side, bytes: &[u8]) -> Result<Proto, String> {
    let (f, q) = chunk::read(Ver::L51, side, bytes).map_err(|e| format!("does not decode: {e}"))?;
    verify::tree(side, &q).map_err(|e| format!("fails the byte code checks: {e}"))?;
    if let Some(v) = variant {
        let native = Fmt { num: f.num, integral: f.integral, ..Fmt::NATIVE };
        let direct = f == native;
        let b = if direct { bytes.to_vec() } else { chunk::write(Ver::L51, &native, side, &q) };
        stock::load(v, &b).map_err(|e| format!("is rejected by stock Lua: {e}"))?;
        cx.count(if direct { "loaded by stock Lua" } else { "loaded by stock Lua after transcoding" });
    }
    Ok(q)
}

fn run(cx: &Cx) {
    let t = cx.thorough;
    let mut work: Vec<(Ver, &'static str, u64, u64, String)> = vec![];
    let flushes: &[(u64, u64)] = &[(32, 50), (2, 3), (4, 9), (3, 2), (1, 1), (8, 1), (50, 32), (50, 50), (2, 5), (32, 7)];
    for src in programs(t) {
        for v in vers() {
            for (k, &(i, o)) in flushes.iter().enumerate() {
                if !t && (k > 3 || k > 1 && !src.contains('{')) && (k != 7 || v == Ver::L50) {
                    continue;
                }
                work.push((v, "gen", i, o, src.clone()));
                if v == Ver::L51 && (t || src.contains('{') || k == 7) {
                    work.push((v, "luac", i, o, src.clone()));
                }
            }
        }
    }
    cx.par(&work, |i, (v, how, fi, fo, src)| one(cx, i, *v, how, *fi, *fo, src));
    formats(cx);
    fixtures(cx);
    verifier(cx);
}

fn one(cx: &Cx, i: usize, v: Ver, how: &str, fi: u64, fo: u64, src: &str) {
    let s = Sets::flush(fi, fo);
    let side = s.input(v);
    let body = model::parse::parse(src);
    let Ok(p) = gen::comp(&body, v, side) else {
        cx.count("not compilable");
        return;
    };
    let variant = fo.to_string();
    let key = format!("{how}/{v:?}/{fi}->{fo}: {}", src.chars().take(200).collect::<String>());
    if cx.only.as_ref().is_some_and(|o| !key.contains(o.as_str())) {
        return;
    }
    let (p, input) = if how == "luac" {
        // what a real compiler makes of it, and whether the generator agrees
        let b = stock::compile(&fi.to_string(), &model::ast::source(&body)).unwrap_or_else(|e| panic!("harness: stock Lua cannot compile {src}: {e}"));
        let (_, mut q) = chunk::read(Ver::L51, side, &b).expect("harness: stock chunk");
        let mut g = p.clone();
        for x in [&mut q, &mut g] {
            each(x, &mut |f| {
                f.source.clear();
                f.lines.clear();
                (f.line, f.last_line) = (0, 0)
            })
        }
        if let Some(d) = crate::oracle::differ(&g, &q, side, "0").or_else(|| crate::oracle::differ(&q, &g, side, "0")) {
            panic!("harness: the generator differs from luac: {d}: {src}");
        }
        cx.count("programs generated as by luac");
        let (_, q) = chunk::read(Ver::L51, side, &b).unwrap();
        // as a 32 bit machine would have written it
        let b = chunk::write(Ver::L51, &behave::in_fmt(v), side, &q);
        (q, b)
    } else {
        let b = chunk::write(v, &behave::in_fmt(v), side, &p);
        (p, b)
    };
    cx.eval();
    let bad = |w: String, more: String| cx.bad(i, &key, &w, &input, &Fmt::NATIVE, &s, &format!("source:\n{src}\n{more}"));
    let out = match sut::unify(&input, &Fmt::NATIVE, &s) {
        R::Ok(o) => o,
        r => return bad(format!("a valid program is not converted: {}", r.brief()), String::new()),
    };
    let q = match loads(cx, Some(&variant), &s.out, &out) {
        Ok(q) => q,
        Err(e) => return bad(format!("the output {e}"), String::new()),
    };
    let c = Case { order: i, key: key.clone(), ver: v, sets: s.clone(), cfg: cfg(), replay: usize::MAX, lines: how == "luac" };
    if behave::explore(cx, &p, &q, &input, &out, src, &c) {
        cx.count("programs explored and replayed");
    }
}

/// Every requested format.
fn formats(cx: &Cx) {
    let mut work = vec![];
    for v in vers() {
        let s = Sets::default();
        for (n, p) in samples::compiled(v, s.input(v)) {
            for fi in [Fmt::NATIVE, samples::NATIVE4, Fmt { little: false, int: 8, ins: 8, ..Fmt::NATIVE }] {
                for fo in Fmt::all() {
                    for flush in [50, 3] {
                        work.push((n.clone(), v, p.clone(), fi, fo, flush));
                    }
                }
            }
        }
    }
    cx.par(&work, |i, (n, v, p, fi, fo, flush)| {
        let mut s = Sets::default();
        s.out.flush = *flush;
        let input = chunk::write(*v, fi, s.input(*v), p);
        let key = format!("format/{n}/{v:?}/{}->{}/{flush}", short(fi), short(fo));
        cx.eval();
        let bad = |w: String| cx.bad(500_000 + i, &key, &w, &input, fo, &s, "");
        let o = match sut::unify(&input, fo, &s) {
            R::Ok(o) => o,
            r => return bad(format!("a valid program is not converted: {}", r.brief())),
        };
        let variant = match (fo.num, fo.integral, *flush) {
            (8, false, 50) => "50",
            (8, false, _) => "3",
            (4, false, _) => "f32",
            (4, true, _) => "i32",
            _ => "i64",
        };
        match loads(cx, Some(variant), &s.out, &o) {
            Ok(q) => {
                cx.seen(&key);
                // integers divide differently
                if (Fmt { num: 8, integral: false, ..*fo }) != Fmt::NATIVE || fo.num == 8 && !fo.integral || n == "arithmetic" {
                    return;
                }
                let mut st = Strs::default();
                let (a, b) = (Prog::load(*v, s.input(*v), p, &mut st), Prog::load(Ver::L51, &s.out, &q, &mut st));
                let r = product::explore(&a, &b, &mut st, &cfg());
                if let Some(f) = r.fail {
                    return bad(f.what);
                }
                cx.states.fetch_add(r.states as u64, Relaxed);
                cx.transitions.fetch_add(r.transitions as u64, Relaxed);
                let names = product::global_names(&a, &st);
                if *flush == 50 || !n.contains("table") {
                    for tr in r.traces.iter().filter(|t| !t.events.iter().any(|e| e.starts_with("diverges"))) {
                        if let Err(e) = stock::conforms(variant, &o, tr, &cfg(), &names, false) {
                            return bad(format!("stock Lua with this number type disagrees: {e}"));
                        }
                        cx.traces.fetch_add(1, Relaxed);
                        cx.count("traces replayed with another number type");
                    }
                }
            }
            Err(e) => bad(format!("the output {e}")),
        }
    });
}

/// Byte code of real compilers that comes with the repository.
fn fixtures(cx: &Cx) {
    let dir = std::path::Path::new("/repo/test_files");
    let mut n: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    n.sort();
    for (i, path) in n.iter().enumerate() {
        let name = path.file_name().unwrap().to_string_lossy().into_owned();
        let Ok(b) = std::fs::read(path) else { continue };
        let mut s = Sets::default();
        if name.contains("custom_signature") {
            s.l50.sig = "\x1bLul".into();
            s.l51.sig = "\x1bLul".into();
        }
        let Some((v, fi, p)) = vers().into_iter().find_map(|v| chunk::read(v, s.input(v), &b).ok().map(|(f, p)| (v, f, p))) else {
            cx.count("binaries of the repository that the model does not read");
            continue;
        };
        // the reference codec writes what the compiler wrote
        if chunk::try_write(v, &fi, s.input(v), &p).as_deref() != Ok(&b[..]) && !fi.integral {
            // Lua 5.0 writes the test number of its own precision
            cx.count("binaries of the repository with another encoding");
        } else {
            cx.count("binaries of the repository reproduced byte for byte");
        }
        for fo in [Fmt::NATIVE, Fmt { size_t: 4, ..Fmt::NATIVE }] {
            for flush in [50, 2, 9] {
                s.out.flush = flush;
                let key = format!("fixture/{name}/{}/{flush}", short(&fo));
                cx.eval();
                let bad = |w: String| cx.bad(800_000 + i, &key, &w, &b, &fo, &s, "");
                let o = match sut::unify(&b, &fo, &s) {
                    R::Ok(o) => o,
                    r => {
                        bad(format!("a valid program is not converted: {}", r.brief()));
                        continue;
                    }
                };
                let q = match loads(cx, Some(&flush.to_string()), &s.out, &o) {
                    Ok(q) => q,
                    Err(e) => {
                        bad(format!("the output {e}"));
                        continue;
                    }
                };
                if fo != Fmt::NATIVE {
                    continue;
                }
                let c = Case { order: 800_000 + i, key: key.clone(), ver: v, sets: s.clone(), cfg: Cfg { budget: 100_000, max_states: 100, ..cfg() }, replay: usize::MAX, lines: false };
                if behave::explore(cx, &p, &q, &b, &o, &name, &c) {
                    cx.count("binaries of the repository explored and replayed");
                }
            }
        }
    }
}

/// The verifier of the model against the one of stock Lua: every instruction
/// of a few programs with every operand set to boundary values.
fn verifier(cx: &Cx) {
    let side = Side::def51();
    let mut work = vec![];
    for (n, p) in samples::compiled(Ver::L51, &side) {
        work.push((n, p));
    }
    let one = |p: &Proto, what: &str| {
        let b = chunk::write(Ver::L51, &Fmt::NATIVE, &side, p);
        let (m, s) = (verify::tree(&side, p), stock::load("50", &b));
        if m.is_ok() != s.is_ok() {
            panic!("harness: the verifier differs from stock Lua on {what}: {m:?} {s:?}");
        }
        cx.count(if m.is_ok() { "verdicts shared with stock Lua: accepted" } else { "verdicts shared with stock Lua: rejected" });
    };
    cx.par(&work, |_, (n, p)| {
        one(p, n);
        let k = p.code.len();
        for pc in 0..k {
            let i = side.layout.dec(p.code[pc]);
            let ms = p.maxstack as u64;
            let vals = [0, 1, 2, 3, ms.wrapping_sub(1), ms, ms + 1, 255, 256, 256 + p.k.len() as u64, 511];
            for x in vals {
                for (op, a, b, c) in [(i.op, x & 255, i.b, i.c), (i.op, i.a, x, i.c), (i.op, i.a, i.b, x)] {
                    let mut q = p.clone();
                    q.code[pc] = side.layout.abc(op, a, b & 511, c & 511).unwrap();
                    one(&q, &format!("{n} pc {pc} {op} {a} {b} {c}"));
                }
            }
            for op in 0..40 {
                let mut q = p.clone();
                q.code[pc] = side.layout.abc(op, i.a, i.b, i.c).unwrap();
                one(&q, &format!("{n} pc {pc} opcode {op}"));
            }
            for d in -3i64..=3 {
                let mut q = p.clone();
                q.code[pc] = side.layout.asbx(Ver::L51.code_of(Op::Jmp).unwrap(), 0, d + (k as i64) * (d % 2)).unwrap();
                one(&q, &format!("{n} pc {pc} jump {d}"));
            }
        }
        type Change = (&'static str, fn(&mut Proto));
        let changes: [Change; 12] = [
            ("stack - 1", |q| q.maxstack = q.maxstack.saturating_sub(1)),
            ("stack 251", |q| q.maxstack = 251),
            ("stack 250", |q| q.maxstack = 250),
            ("params", |q| q.nparams = q.maxstack + 1),
            ("vararg 1", |q| q.vararg = 1),
            ("vararg 4", |q| q.vararg = 4),
            ("vararg 7", |q| q.vararg = 7),
            ("line info", |q| {
                q.lines.pop();
            }),
            ("no line info", |q| q.lines.clear()),
            ("upvalue name", |q| q.upnames.push(chunk::raw("x"))),
            ("constant", |q| q.k = vec![K::Nil; q.k.len()]),
            ("no constants", |q| q.k.clear()),
        ];
        for (w, f) in changes {
            let mut q = p.clone();
            f(&mut q);
            one(&q, &format!("{n} {w}"));
        }
    });
}
