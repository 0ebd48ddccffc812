//! Table constructors of Lua 5.1 programs and different flush sizes.
use super::c12;
use crate::behave::{self, Jobs};
use crate::corpus;
use crate::cx::Cx;
use crate::oracle;
use crate::sut::{self, Sets, R};
use crate::Meta;
use model::chunk::{self, Fmt, Proto, K};
use model::ops::*;

pub const META: Meta = Meta {
    id: "C13",
    level: "model_checking",
    rule: "the constructors of C12 (and open varargs) compiled for Lua 5.1 x all pairs of different flush sizes, with loops, conditions and closures around them; functions large in one dimension, items of up to 1100 instructions, pages around the limit of the stack, open ends after every number of pages, up to 70 000 items; with equal flush sizes the output instructions are compared one by one; all environment answers explored; non-trivial: more than one observable event",
    assumptions: &["which of several assignments to the same key comes last is not compared", "reference machines (bound to stock Lua 5.1 in C20)"],
    run,
};

fn run(cx: &Cx) {
    c12::run(cx, Ver::L51);
    let t = cx.thorough;
    let mut j = Jobs::new(Ver::L51, Sets::default(), c12::cfg());
    let kinds = ["emit", "local", "break", "if", "while", "repeat", "nfor", "nfor0", "gfor2", "closure"];
    let ctl = corpus::control(if t { 4 } else { 3 }, 1, &kinds);
    let varargs: Vec<String> = (0..8)
        .flat_map(|n| {
            ["1, 2, 3", "", "nil, 2", "multi()"].map(|a| {
                let items = "7, ".repeat(n);
                format!("local function f(p, ...) local t = {{{items}...}} emit(t, {{{items}p, ...}}, ...) return {{...}} end emit(f({a})) emit({{{items}f(1)}})")
            })
        })
        .collect();
    for (fi, fo) in [(2, 3), (3, 1), (4, 9), (2, 1)] {
        j.sets(Sets::flush(fi, fo));
        for (i, s) in ctl.iter().enumerate() {
            if t || i % 2 == 0 || fi == 2 {
                j.add("resized", format!("local x = 0 {} emit(x)", super::c08::fatten(s, i).replace("in tab", "in it")));
            }
        }
        for s in &varargs {
            j.add("vararg", s.clone());
        }
    }
    // page numbers that do not fit into the operand follow the instruction
    j.replay = 0;
    for (n, layout) in [("default", LAYOUT51), ("other", LAYOUT50)] {
        let mut s = Sets::default();
        s.out.layout = layout;
        j.sets(s);
        for c in [512u64, 513, 549, 550, 551, 575, 576, 600, 638, 640, 5000] {
            let e = |op, a, x, y| encode(Ver::L51, &Side::def51(), &Canon { op, a: Some(a), x, y }).unwrap();
            let p = Proto {
                source: model::chunk::raw("@raw"),
                maxstack: 4,
                code: vec![
                    e(Op::NewTable, 1, Arg::No, Arg::No),
                    e(Op::LoadK, 2, Arg::N(0), Arg::No),
                    e(Op::SetList, 1, Arg::N(1), Arg::N(0)),
                    c,
                    e(Op::GetGlobal, 0, Arg::N(1), Arg::No),
                    e(Op::Call, 0, Arg::N(2), Arg::N(1)),
                    e(Op::Return, 0, Arg::N(1), Arg::No),
                ],
                k: vec![K::Flt(9.0), K::s("emit")],
                lines: vec![1; 7],
                ..Proto::default()
            };
            j.raw("extended", format!("page {c}, {n} layout"), p);
        }
    }
    crate::large::deep(&mut j, c12::cfg(), &[(32, 50), (2, 3)], &["emit({1, y, {2, y, 3, 4, 5}, k = 1, f = {1}, y == 1, multi()})"], t);
    crate::large::add(
        &mut j,
        c12::cfg(),
        &[(50, 40), (2, 3), (3, 2)],
        &[
            "% local t = {1, y, 3, {4, 5, 6, 7}, y, z} emit(t)",
            "for i = 1, 2 do % emit({i, y, 2, 3, 4}) if ask() then break end end emit(3)",
            "local function f(...) if ask() then % return {y, ...} end return {1, 2, 3, 4, 5} end emit(f(1, 2, 3))",
        ],
        cx.thorough,
    );
    j.run(cx, |_, _, _, _| {});
    equal(cx, &varargs);
}

/// With equal flush sizes nothing is moved.
fn equal(cx: &Cx, extra: &[String]) {
    let mut v: Vec<String> = extra.to_vec();
    for n in 0..=120 {
        v.push(format!("local x = 3 local t = {} emit(t)", c12::table(&vec!["7"; n])));
    }
    for a in c12::ITEMS {
        for b in c12::ITEMS {
            for c in c12::ITEMS {
                v.push(format!("local x = 3 emit({})", c12::table(&[a, b, c])));
            }
        }
    }
    cx.par(&v, |i, src| {
        for f in [1, 2, 3, 50] {
            let s = Sets::flush(f, f);
            let Ok(p) = model::gen::comp(&model::parse::parse(src), Ver::L51, &s.l51) else { continue };
            let fi = behave::in_fmt(Ver::L51);
            let input = chunk::write(Ver::L51, &fi, &s.l51, &p);
            cx.eval();
            let key = format!("equal/{f}: {}", src.chars().take(160).collect::<String>());
            match sut::unify(&input, &Fmt::NATIVE, &s) {
                R::Ok(o) => match (chunk::read(Ver::L51, &s.out, &o), oracle::expect51(&p, &s.l51, &s.out, &Fmt::NATIVE)) {
                    (Ok((_, q)), Ok(e)) => {
                        cx.seen(&key);
                        if let Some(d) = oracle::differ(&e, &q, &s.out, "0") {
                            cx.bad(i, &key, &format!("equal flush sizes, but the instructions change: {d}"), &input, &Fmt::NATIVE, &s, src)
                        }
                    }
                    _ => cx.bad(i, &key, "the output cannot be read", &input, &Fmt::NATIVE, &s, src),
                },
                r => cx.bad(i, &key, &format!("a valid chunk is rejected: {}", r.brief()), &input, &Fmt::NATIVE, &s, src),
            }
        }
    });
}
