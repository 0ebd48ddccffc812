//! Closures: which function, which captured variables, shared how.
use super::util::*;
use crate::behave::{Case, Jobs};
use crate::cx::Cx;
use crate::sut::Sets;
use crate::Meta;
use model::chunk::Proto;
use model::gen;
use model::ops::*;
use model::product::Cfg;

pub const META: Meta = Meta {
    id: "C14",
    level: "model_checking",
    rule: "every ordered selection of captured variables x reading, writing and nesting of the closure x contexts (loops, constructors across flush boundaries, calls, conditionals) x pairs of closures x first registers and upvalue indices around the flush boundaries x versions x flush sizes x stripped and unstripped; closures of up to 60 variables at every place of a page; functions large in one dimension; states include the whole closure graph; non-trivial: more than one observable event",
    assumptions: &["reference machines (bound to stock Lua 5.1 in C20)"],
    run,
};

fn cfg() -> Cfg {
    use model::product::{one, Ans::*};
    Cfg {
        it: vec![one(Nil), one(Num(1.0)), vec![Num(2.0), Num(22.0)]],
        num: vec![one(Num(0.0)), one(Num(2.0))],
        presets: vec![("tab", List(vec![Num(5.0), Num(6.0)]))],
        ignore_n: true,
        max_states: 250,
        max_events: 14,
        ..Cfg::default()
    }
}

/// Function expressions over the variables a, b and p.
fn functions() -> Vec<String> {
    let vars = ["a", "b", "p"];
    let mut v = vec!["function() return 1 end".to_string(), "function(z) return z end".to_string(), "function() return G end".into()];
    let mut orders: Vec<Vec<&str>> = vec![];
    for x in vars {
        orders.push(vec![x]);
        for y in vars {
            if x != y {
                orders.push(vec![x, y]);
                for z in vars {
                    if z != x && z != y {
                        orders.push(vec![x, y, z]);
                    }
                }
            }
        }
    }
    for o in &orders {
        let l = o.join(", ");
        v.push(format!("function() return {l} end"));
        v.push(format!("function(n) {} = n return {l} end", o[0]));
        v.push(format!("function() local q = {} return function() q = {} return q, {l} end end", o[0], o[o.len() - 1]));
    }
    v.push("function() return function() return function() a = p return a, b end end end".into());
    v.push("function() local a = b return function() return a, p end, function() a = p return b end end".into());
    v.push("function(...) local c = a return arg, c, b end".into());
    v.push("function() for j = 1, 2 do a = a .. j end return a end".into());
    v
}
const CONTEXT: [&str; 16] = [
    "local g = % emit(g) g(5) emit(g(6))",
    "emit(%, %)",
    "emit({1, %, 2, %, 3})",
    "return %",
    "local t = {} for i = 1, 2 do local a = i t[i] = % end emit(t)",
    "local t = {} for i = 1, num() do t[i] = % p = i end emit(t)",
    "for k in it do local b = k emit(%) end",
    "for k, v in it do local a, b = k, v local g = % emit(g) if ask() then break end end",
    "while ask() do local b = val(3) G = % if ask() then break end end emit(G)",
    "repeat local p = val(4) local g = % until ask() emit(a)",
    "if ask() then local b = 7 G = % else G = % end emit(G)",
    "local g g = % emit(g, g)",
    "do local a = 1 local b = 2 emit(%) end emit(%)",
    "local t = obj t:m(%, 1) t.f = %",
    "local function r(n) if n == 0 then return % end p = n return r(n - 1) end emit(r(2))",
    "emit((%)(1), (%)(2))",
];

fn prog(ctx: &str, f: &str, g: &str) -> String {
    let mut o = String::new();
    let mut parts = ctx.split('%');
    o += parts.next().unwrap();
    for (i, x) in parts.enumerate() {
        o += if i % 2 == 0 { f } else { g };
        o += x;
    }
    format!("local a, b = val(1), val(2) local function f(p) {o} end emit(f(val(3))) emit(a, b)")
}

/// The tree of functions is the same.
pub fn tree(cx: &Cx, c: &Case, src: &str, p: &Proto, q: &Proto) {
    fn go(p: &Proto, q: &Proto, path: &str) -> Option<String> {
        if p.p.len() != q.p.len() {
            return Some(format!("function {path}: {} nested functions became {}", p.p.len(), q.p.len()));
        }
        if p.nups != q.nups || p.nparams != q.nparams || p.line != q.line {
            return Some(format!("function {path}: upvalues, parameters, line {:?} became {:?}", (p.nups, p.nparams, p.line), (q.nups, q.nparams, q.line)));
        }
        if p.upnames != q.upnames {
            return Some(format!("function {path}: upvalue names {:?} became {:?}", p.upnames, q.upnames));
        }
        p.p.iter().zip(&q.p).enumerate().find_map(|(i, (a, b))| go(a, b, &format!("{path}.{i}")))
    }
    if let Some(d) = go(p, q, "0") {
        cx.violation(c.order, c.key.clone(), d.clone(), format!("property: {}\n{}\n{d}\nsource:\n{src}\n", cx.id, c.sets.describe()))
    }
}

fn run(cx: &Cx) {
    let t = cx.thorough;
    let fs = functions();
    for ver in vers() {
        let mut j = Jobs::new(ver, Sets::default(), cfg());
        for (fi, fo) in [(32, 50), (2, 3), (3, 1), (1, 2)] {
            j.sets(Sets::flush(fi, fo));
            let mut srcs = vec![];
            for (ci, c) in CONTEXT.iter().enumerate() {
                for (i, f) in fs.iter().enumerate() {
                    for (k, g) in fs.iter().enumerate() {
                        if i == k || t || ((i + k + ci) % 7 == 0 && c.matches('%').count() > 1) {
                            srcs.push(prog(c, f, g));
                        }
                    }
                }
            }
            for n in 0..7 {
                for f in &fs {
                    let items = "7, ".repeat(n);
                    srcs.push(prog(&format!("local t = {{{items}%, %, k = %, %, 8, %}} emit(t)"), f, f));
                }
            }
            for s in srcs {
                j.add("closures", s.clone());
                let Ok(p) = gen::comp(&model::parse::parse(&s), ver, j.sets.clone().input(ver)) else { continue };
                j.raw("closures, stripped", format!("stripped: {s}"), Strip::ALL.apply(&p));
            }
        }
        // 5.0 programs of the other families with captured loop variables
        j.sets(Sets::flush(2, 3));
        for h in ["for i = 1, num() do", "for i in it do", "for i, j in it do", "for i, j in tab do", "while ask() do local i = val(4)", "do local i = 3"] {
            if ver == Ver::L51 && h.contains("tab") {
                continue;
            }
            for body in [
                "F = F or function() i = 9 return i end emit(F, i)",
                "local c = i F = function() c = c + 1 return c, i end emit(F()) emit(F)",
                "local c local function g() c = i return g end emit(g) i = 8 emit(g)",
                "F = {function() return i end, F, function() i = 5 end, 1, 2}",
                "if ask() then F = function() return i end break end",
                "local g = function() return function() return i end end F = g() emit(g()())",
            ] {
                let body = if h.starts_with("do") { body.replace("break", "") } else { body.to_string() };
                j.add("loop variables", format!("local F local a = 1 {h} {body} end emit(F, a)"));
            }
        }
        // captured variables of loops in the very first registers
        for (fi, fo) in [(32, 50), (2, 3), (3, 1)] {
            j.sets(Sets::flush(fi, fo));
            for n in 0..4 {
                let pre: String = (0..n).map(|i| format!("local a{i} = val({i}) ")).collect();
                for l in [
                    "while ask() do local c = num() emit(function() return c end) G = {function() c = val(9) return c end, 1, G} end emit(G)",
                    "repeat local c = num() G = {function() return c end, 2, G} until ask() emit(G)",
                    "do local c = num() G = function() c = val(7) return c end end local d = 5 emit(G, d) G() emit(d)",
                    "while ask() do local c, d = 1 G = function() d = c c = val(3) return d end if ask() then break end emit(G()) end emit(G)",
                    "if ask() then local c = 3 G = function() return c end else local d = 4 G = function() d = 5 return d end end local e = 6 emit(G, e)",
                    "for c in it do G = {function() return c end, G, 1} end emit(G)",
                    "for c, d in it do G = {function() return d, c end, G, 1} c = 3 end emit(G)",
                    "for c = 1, 2 do G = {function() return c end, G, 1} end emit(G)",
                    "for c = 1, 2 do local d = c G = {function() d = val(c) return d end, G, 1} end emit(G)",
                    "while ask() do local c = 2 local function f() return f, c end G = f while ask() do local d = f emit(function() return d end) c = d end end emit(G)",
                ] {
                    if ver == Ver::L51 && l.contains(" in tab") {
                        continue;
                    }
                    j.add("first registers", format!("{pre}{l}"));
                    j.add("first registers", format!("local function f() {pre}{l} end f()"));
                    let params: Vec<String> = (0..n).map(|i| format!("a{i}")).collect();
                    j.add("first registers", format!("local u = 1 local function f({}) {l} emit(u) end f(1, 2, 3, 4) f()", params.join(", ")));
                }
            }
        }
        // upvalues with any index next to registers with any index
        for (fi, fo) in [(1, 2), (2, 1), (1, 3), (2, 3), (3, 1), (1, 6)] {
            j.sets(Sets::flush(fi, fo));
            let ups: Vec<String> = (0..9).map(|i| format!("u{i}")).collect();
            let decl: String = ups.iter().enumerate().map(|(i, u)| format!("local {u} = val({i}) ")).collect();
            let all = ups.join(", ");
            for regs in 0..4 {
                let pre: String = (0..regs).map(|i| format!("local r{i} = {i} ")).collect();
                for at in 0..5 {
                    for u in 0..9 {
                        let items = "7, ".repeat(at);
                        j.add("upvalue index", format!("{decl} local function f() emit({all}) {pre} local t = {{{items}u{u}, 8, u{}, 9}} u{u} = t return t end f() emit(u{u})", (u + 4) % 9));
                        j.add("upvalue index", format!("{decl} local function f() emit({all}) {pre} return {{{items}function() u{u} = 5 return u{}, {all} end, 8, 9}} end emit(f())", (u + 4) % 9));
                        j.add("upvalue index", format!("{decl} local function f() emit({all}) {pre} return {{{items}u{u} + u{}, u{u}(1), 9}} end u{u} = val emit(f())", (u + 3) % 9));
                    }
                }
            }
        }
        // deep chains of functions
        for n in 1..12 {
            let mut s = "x = x + y return x, y".to_string();
            for i in 0..n {
                s = format!("local l{i} = val({i}) return function() {s}{}", " end");
            }
            j.add("chains", format!("local x, y = 1, 2 local f = function() {s} end emit(f) local g = f() emit(g, x)"));
        }
        crate::large::deep(&mut j, cfg(), &[(if ver == Ver::L50 { 32 } else { 50 }, 50), (2, 3)], &["local f = function() y = y + 1 return y, z end emit(f, f())", "local q = y emit({1, 2, function() q = q + 1 return q, y end, 4})"], t);
        crate::large::add(
            &mut j,
            cfg(),
            &[(if ver == Ver::L50 { 32 } else { 50 }, 50), (2, 3)],
            &["% local f = function() y = y + 1 return y, z end emit(f, f(), y)", "for i = 1, 2 do % local q = i emit(function() q = q + y return q end) end", "local function f() % return function() return y, z end end emit(f(), {1, f, function() return y end, f, 3, function() return z end})"],
            cx.thorough,
        );
        // closures of up to as many variables as there can be, at every place of a page
        for (i, o) in [(2, 3), (3, 2), (50, 40), (4, 5)] {
            j.sets(Sets::flush(i, o));
            for n in (0..=34).chain([59, 60]) {
                let all: Vec<String> = (0..n).map(|i| format!("u{i}")).collect();
                let decl = if n > 0 { format!("local {} = ", all.join(", ")) + &(0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(", ") } else { String::new() };
                let f = format!("function() return {} end", if n > 0 { all.join(" + ") } else { "1".into() });
                let write = if n > 0 { format!("u{} = u0 + 1", n - 1) } else { String::new() };
                for at in 0..5 {
                    let mut items = vec!["9".to_string(); 5];
                    items[at] = f.clone();
                    items.push("f".into());
                    j.add("many upvalues", format!("{decl} local f = {f} local t = {{{}}} emit(t, f()) {write} emit(f(), t[{}]())", items.join(", "), at + 1));
                    j.add("many upvalues", format!("{decl} local function g() local f = {f} local t = {{{}}} return t end emit(g()[{}]()) {write} emit(g())", items.join(", "), at + 1));
                }
            }
        }
        j.run(cx, |c, src, p, q| tree(cx, c, src, p, q));
    }
}
