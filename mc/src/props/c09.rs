//! Numeric for loops of Lua 5.0.
use crate::behave::Jobs;
use crate::corpus;
use crate::cx::Cx;
use crate::sut::Sets;
use crate::Meta;
use model::ops::*;
use model::product::Cfg;

pub const META: Meta = Meta {
    id: "C09",
    level: "model_checking",
    rule: "loop headers (start, limit and step constants or environment answers, including zero, negative and fractional steps) x bodies x surrounding code x nestings up to a node bound x flush sizes; functions large in one dimension; all environment answers explored; non-trivial: more than one observable event",
    assumptions: &["bounds and steps are numbers from a small set", "reference machines (bound to stock Lua 5.1 in C20)"],
    run,
};

pub const BODIES: [&str; 30] = [
    "emit(i)",
    "",
    "break",
    "emit(i) if ask() then break end",
    "if ask() then break end emit(i)",
    "if ask() then emit(i) else emit(-i) end",
    "emit(function() return i end)",
    "local c = i emit(function() c = c + i return c end)",
    "F = F or function() return i end emit(F())",
    "i = i + 1 emit(i)",
    "local s = a a = b b = s emit(a, b, i)",
    "emit({i, a, 3, 4, i})",
    "emit({i, multi()})",
    "while ask() do emit(i) break end",
    "repeat local r = i emit(r) until ask()",
    "for j = 1, i do emit(i, j) end",
    "for j = i, 0, -1 do emit(j) if ask() then break end end emit(i)",
    "for k in it do emit(k, i) end",
    "for k in tab do emit(i) end emit(a)",
    "return i",
    "emit(multi(i))",
    "if ask() then return i end",
    "local x, y, z = i, i + 1 emit(x, y, z)",
    "do local q = val(i) emit(q) end local w = i emit(w)",
    "a = a + i emit(a)",
    "emit(i == 2 and a or b)",
    "local t = obj t:m(i) emit(t)",
    "G = i emit(G)",
    "local function f(n) if n > 0 then return f(n - 1) end return n end emit(f(i))",
    "i = a emit(i) break",
];
const AROUND: [(&str, &str); 7] = [
    ("local a, b = 11, 12", "emit(a, b)"),
    ("local a, b = 11, 12 local p, q, r = 1, 2", "emit(a, b, p, q, r)"),
    ("local b = 12 local function f(a)", "emit(a, b) return a end emit(f(7))"),
    ("local a, b = 11, 12 while ask() do", "end emit(a, b)"),
    ("local a, b = 11, 12 if ask() then", "else emit(1) end emit(a, b)"),
    ("local a, b = 11, 12 repeat local z = 5", "emit(z) until ask() emit(a, b)"),
    ("local a, b = {1, 2, 3}, 1 for k in it do a = k", "end emit(a, b)"),
];

pub fn cfg() -> Cfg {
    use model::product::{one, Ans::*};
    Cfg {
        num: vec![one(Num(0.0)), one(Num(1.0)), one(Num(2.0))],
        any: vec![one(Num(1.0)), one(Num(-1.0)), one(Num(0.0)), one(Num(0.5))],
        multi: vec![vec![], one(Num(71.0)), vec![Num(72.0), Str("b"), Nil]],
        it: vec![one(Nil), one(Num(1.0))],
        presets: vec![("tab", List(vec![Num(5.0), Num(6.0)]))],
        max_states: 500,
        max_events: 20,
        ..Cfg::default()
    }
}

fn run(cx: &Cx) {
    let t = cx.thorough;
    let mut j = Jobs::new(Ver::L50, Sets::default(), cfg());
    let starts = ["1", "num()", "3", "-1", "0.5"];
    let limits = ["0", "1", "3", "num()", "a"];
    let steps = ["", ", 1", ", -1", ", 2", ", 0.5", ", -1.5", ", 0", ", any()"];
    let mut heads = vec![];
    for s in starts {
        for l in limits {
            for p in steps {
                heads.push(format!("{s}, {}{p}", if l == "a" { "num() + 1" } else { l }));
            }
        }
    }
    let bodies: Vec<String> = BODIES
        .iter()
        .map(|b| b.to_string())
        .collect();
    for h in &heads {
        for (bi, b) in bodies.iter().enumerate() {
            for (ai, (pre, post)) in AROUND.iter().enumerate() {
                if !t && ai > 1 && (bi + ai) % 3 != 0 {
                    continue;
                }
                j.add("loop", format!("{pre} for i = {h} do {b} end {post}"));
            }
        }
    }
    let small = ["1, 2", "num(), 2", "2, num(), -1", "1, 0"];
    for h in small {
        for g in small {
            for b in &bodies {
                for c in if t { &bodies[..] } else { &bodies[..8] } {
                    let inner = rename(b, "i", "j");
                    if c.starts_with("break") || c.starts_with("return") || c.ends_with(" break") {
                        j.add("nest", format!("local a, b = 11, 12 for i = {h} do for j = {g} do {inner} end {c} end emit(a, b)"));
                        continue;
                    }
                    j.add("nest", format!("local a, b = 11, 12 for i = {h} do {c} for j = {g} do {inner} end emit(i) end emit(a, b)"));
                }
            }
        }
    }
    let kinds = ["emit", "local", "break", "if", "while", "repeat", "nfor", "nfor0", "gfor1", "closure"];
    let ctl = corpus::control(if t { 4 } else { 3 }, 1, &kinds);
    for s in &ctl {
        j.add("control", format!("local x = 0 {s} emit(x)"));
    }
    for (fi, fo) in [(2, 3), (3, 1)] {
        j.sets(Sets::flush(fi, fo));
        for (i, s) in ctl.iter().enumerate().filter(|x| x.1.contains("for")) {
            j.add("resized", format!("local x = 0 {} emit(x)", super::c08::fatten(s, i)));
        }
        for b in &bodies {
            for h in small {
                j.add("resized loop", format!("local a, b = 11, 12 for i = {h} do emit({{1, 2, 3, 4, i}}) {b} end emit({{a, b, 1, 2}})"));
                j.add("resized loop", format!("local a, b = 11, 12 local t = {{1, 2, 3, 4, 5}} for i = {h} do {b} end emit(t, a)"));
            }
        }
    }
    // bounds that are not numbers
    j.sets(Sets::default());
    for h in ["1, \"2\"", "\"1\", 2", "1, 2, \"1\"", "nil, 2", "1, nil", "1, 2, nil", "obj, 2", "1, obj", "1, 2, obj"] {
        j.add("bounds", format!("for i = {h} do emit(i) end emit(9)"));
    }
    for b in ["i = nil", "i = \"1\"", "i = obj", "emit(i) i = any() == 1 and nil or i", "if ask() then i = \"2\" end"] {
        j.add("assigned", format!("for i = 1, 3 do {b} end emit(9)"));
    }
    crate::large::deep(&mut j, cfg(), &[(32, 50), (2, 3)], &["for i = 1, 2 do emit(i) end", "for i = 3, 1, 0 - 1 do local q = i if ask() then break end emit(q) end"], t);
    crate::large::add(
        &mut j,
        cfg(),
        &[(32, 50), (2, 3)],
        &[
            "% for i = 1, 2 do emit(i) end for i = 3, 1, 0 - 2 do local q = i emit(q, y) end",
            "for i = 1, 2 do % emit(i, y) end emit(3)",
            "for i = 1, 2 do for k = i, 2 do % emit(i, k) end emit(i) end emit(3)",
            "local function f(a, ...) % for i = 1, a do emit(i, arg[i]) end end f(2, 7, 8)",
        ],
        t,
    );
    j.run(cx, |_, _, _, _| {});
}

/// Rename a variable.
pub fn rename(s: &str, from: &str, to: &str) -> String {
    let mut o = String::new();
    let mut w = String::new();
    for c in s.chars().chain([' ']) {
        if c.is_ascii_alphanumeric() || c == '_' {
            w.push(c)
        } else {
            o += if w == from { to } else { &w };
            w.clear();
            o.push(c)
        }
    }
    o.pop();
    o
}
