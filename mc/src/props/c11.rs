//! Variadic functions of Lua 5.0.
use crate::behave::Jobs;
use crate::cx::Cx;
use crate::sut::Sets;
use crate::Meta;
use model::ops::*;
use model::product::Cfg;

pub const META: Meta = Meta {
    id: "C11",
    level: "model_checking",
    rule: "number of named parameters x argument lists (none, fewer, more, nil holes, open calls) x ways of calling x bodies that use the parameters, the argument table and other locals, loops, closures, constructors and nested variadic functions x flush sizes; all numbers of parameters x arguments around them; functions large in one dimension; non-trivial: more than one observable event",
    assumptions: &["the field n of the argument table is a known finding and left out of the comparison elsewhere", "reference machines (bound to stock Lua 5.1 in C20)"],
    run,
};

const BODIES: [&str; 25] = [
    "emit(arg)",
    "",
    "emit(arg[1], arg[2], arg[3])",
    "local q = 5 emit(q, arg)",
    "local q, r, s emit(q, r, s) q = arg emit(q)",
    "arg = 3 emit(arg)",
    "arg[1] = 9 emit(arg)",
    "return arg",
    "return arg[1], arg[2]",
    "for i = 1, 2 do emit(arg[i]) end",
    "for k in it do emit(k, arg[1]) end",
    "while ask() do emit(arg) break end",
    "if ask() then emit(arg) else emit(1) end",
    "emit(function() return arg end)",
    "return function() arg[1] = 7 return arg[1] end",
    "emit({arg, 1, 2, 3, 4})",
    "emit({1, 2, 3, multi()})",
    "local function g(...) return arg end emit(g(1), arg, g())",
    "local function g(y, ...) return y, arg end emit(g(arg[1], 2, 3))",
    "return multi(arg[1])",
    "local t = obj t:m(arg[1])",
    "emit(arg == nil, arg and 1 or 2)",
    "repeat local z = arg emit(z) until ask()",
    "do local a1, a2, a3 = 1, 2, 3 emit(a1, a2, a3) end emit(arg)",
    "G = arg emit(G)",
];

pub fn cfg() -> Cfg {
    use model::product::{one, Ans::*};
    Cfg {
        ignore_n: true,
        it: vec![one(Nil), one(Num(1.0))],
        any: vec![one(Nil), one(Num(0.0))],
        presets: vec![("tab", List(vec![Num(5.0), Num(6.0)]))],
        max_states: 400,
        max_events: 14,
        ..Cfg::default()
    }
}

fn run(cx: &Cx) {
    let t = true;
    let _ = cx.thorough;
    let mut j = Jobs::new(Ver::L50, Sets::default(), cfg());
    let params = ["", "p", "p, q", "p, q, r", "p, q, r, s"];
    let args = ["", "1", "nil", "1, nil", "nil, 2", "1, 2, 3", "1, nil, 3, nil", "nil, nil, nil", "multi()", "1, multi()", "1, 2, multi()", "{1, 2}, emit", "1, 2, 3, 4, 5, 6, 7"];
    for f in [(32, 50), (2, 3), (3, 2)] {
        j.sets(Sets::flush(f.0, f.1));
        for p in params {
            for (bi, b) in BODIES.iter().enumerate() {
                for (ai, a) in args.iter().enumerate() {
                    let dots = if p.is_empty() { "...".to_string() } else { format!("{p}, ...") };
                    let see = if p.is_empty() { String::new() } else { format!("emit({p}) ") };
                    let b2 = if b.starts_with("local q") { b.replace('q', "u") } else { b.to_string() };
                    j.add("call", format!("local a = 4 local function f({dots}) {see}{b2} end emit(f({a})) emit(a)"));
                    if t || (bi + ai) % 4 == 0 {
                        j.add("plain function", format!("local arg = 4 local function f({p}) {see}{b2} end emit(f({a})) emit(arg)"));
                        j.add("method", format!("local t = {{}} function t:f({dots}) {see}{b2} return self == t end emit(t:f({a}))"));
                        j.add("parameters used", format!("local up = 3 local function f({dots}) local l1, l2 = up, 2 {} up = l2 emit(l1, l2, up) {b2} end emit(f({a}), f(1, 2, 3, 4, 5))", see));
                        j.add("in a loop", format!("local r for i = 1, 2 do local c = i local function f({dots}) {see}c = c + 1 emit(c) {b2} end r = f({a}) end emit(r)"));
                        j.add("tail call", format!("local function f({dots}) {see}{b2} end local function g(x) return f({a}) end emit(g(1))"));
                    }
                }
            }
        }
    }
    // the main function of a Lua 5.0 chunk is not variadic; deep nesting is
    j.sets(Sets::default());
    for n in 1..=5 {
        let mut s = "emit(arg, a)".to_string();
        for i in 0..n {
            s = format!("local function f{i}(a, ...) {s} return f{i} end emit(f{i}({i}, 2, {i}) == f{i})");
        }
        j.add("nested", format!("local a, arg = 1, 2 {s} emit(a, arg)"));
    }
    let params_many: Vec<String> = (0..100).map(|i| format!("p{i}")).collect();
    for n in [10, 50, 100] {
        j.add("many parameters", format!("local function f({}, ...) emit(p0, p{}, arg) end f() f(1) f({})", params_many[..n].join(", "), n - 1, (0..n + 2).map(|i| i.to_string()).collect::<Vec<_>>().join(", ")));
    }
    // Lua 5.0 treats every flag but zero the same, also on the main function
    for src in ["local a = 4 local function f(p, ...) emit(p, arg) end emit(f(), f(1), f(1, 2, 3), a)", "local a, b = 4 local function f(...) local l = 7 emit(l, arg[1], arg) return arg end emit(f(multi()), a)"] {
        let p = model::gen::comp(&model::parse::parse(src), Ver::L50, &j.sets.l50).unwrap();
        for flag in 0..=255u8 {
            for inner in [true, false] {
                let mut q = p.clone();
                match inner {
                    true => q.p[0].vararg = flag,
                    false => {
                        q.vararg = flag;
                        // room for the table
                        q.maxstack = q.maxstack.max(2);
                    }
                }
                // without the flag there is nothing to read the table from
                if flag != 0 || !inner {
                    j.raw("flag", format!("{}flag {flag}: {src}", if inner { "" } else { "main " }), q)
                }
            }
        }
    }
    // the field n
    j.cfg(Cfg { ignore_n: false, ..cfg() });
    for (a, b) in [("", "emit(arg.n)"), ("1, nil", "emit(arg.n)"), ("1, 2, 3", "for i = 1, arg.n do emit(arg[i]) end"), ("1", "for k in arg do emit(k) end")] {
        j.add("count", format!("local function f(...) {b} end f({a})"));
    }
    crate::large::deep(&mut j, cfg(), &[(32, 50), (2, 3)], &["local function g(a, ...) emit(a, arg) end g() g(1, 2, 3)"], t);
    crate::large::add(
        &mut j,
        cfg(),
        &[(32, 50), (2, 3)],
        &["local function f(...) % emit(arg, y) end f() f(1, 2)", "% local function f(a, b, ...) emit(a, b, arg) end f(1) f(1, 2, 3)"],
        t,
    );
    // every number of parameters and arguments
    for n in (0..=30).chain([31, 32, 33, 62, 63, 64, 65, 100, 126, 127, 128, 129, 130, 150, 180, 190]) {
        let names: Vec<String> = (0..n).map(|i| format!("p{i}, ")).collect();
        for m in [0, 1, n.max(1) - 1, n, n + 1, n + 4] {
            if m > 200 {
                continue;
            }
            let args: Vec<String> = (0..m).map(|i| i.to_string()).collect();
            for body in ["emit(arg, !)", "local q, r = 1, 2 emit(arg[1], q, !) arg = r emit(arg)", "for i = 1, 2 do emit(arg[i], !) end", "emit(function() return arg end)"] {
                let last = if n > 0 { format!("p{}", n - 1) } else { "nil".into() };
                j.add("parameters", format!("local function f({}...) {} end f({})", names.concat(), body.replace('!', &last), args.join(", ")));
            }
        }
    }
    j.run(cx, |_, _, _, _| {});
}
