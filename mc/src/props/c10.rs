//! Generic for loops of Lua 5.0.
use super::c09::rename;
use crate::behave::Jobs;
use crate::corpus;
use crate::cx::Cx;
use crate::sut::Sets;
use crate::Meta;
use model::ops::*;
use model::product::Cfg;

pub const META: Meta = Meta {
    id: "C10",
    level: "model_checking",
    rule: "number of loop variables x iterator expressions (functions, closures, tables directly, open calls) x bodies x surrounding code x nestings up to a node bound x flush sizes; loops in functions with every single, pair and subset of the constants that resemble the ones the conversion needs (nil, booleans, numbers, names with and without terminators); functions large in one dimension; all iterator answers (ends, false, one and several results) explored; non-trivial: more than one observable event",
    assumptions: &["for a loop directly over a table, the globals `type` and `next` are the stock ones and `type` is called with the iterator value", "reference machines (bound to stock Lua 5.1 in C20)"],
    run,
};

const BODIES: [&str; 22] = [
    "emit(k)",
    "",
    "break",
    "emit(k) if ask() then break end",
    "emit(function() return k end)",
    "F = F or function() return k end emit(F())",
    "k = val(9) emit(k)",
    "k = nil",
    "local c = k emit(function() c = {c} return c end)",
    "for k2 in it do emit(k, k2) end",
    "for k2, v2 in tab do emit(k, k2, v2) end",
    "for n = 1, 2 do emit(k, n) end",
    "while ask() do emit(k) break end",
    "repeat local r = k emit(r) until ask()",
    "emit({k, a, k, 4, k})",
    "emit({k, multi()})",
    "return k",
    "if ask() then return k end",
    "local s = a a = b b = s emit(a, b, k)",
    "G = k emit(G)",
    "emit(k == nil, k == 1 and a or b)",
    "local t = obj t:m(k)",
];
const AROUND: [(&str, &str); 6] = [
    ("local a, b = 11, 12", "emit(a, b)"),
    ("local a, b = 11, 12 local p, q, r = 1, 2", "emit(a, b, p, q, r)"),
    ("local b = 12 local function f(a)", "emit(a, b) return a end emit(f(7))"),
    ("local a, b = 11, 12 while ask() do", "end emit(a, b)"),
    ("local a, b = 11, 12 if ask() then", "else emit(1) end emit(a, b)"),
    ("local a, b = {1, 2, 3}, 1 for i = 1, 2 do", "end emit(a, b)"),
];

pub fn cfg() -> Cfg {
    use model::product::{one, Ans::*};
    Cfg {
        it: vec![vec![], one(Nil), one(Bool(false)), one(Num(1.0)), vec![Num(2.0), Num(22.0), Num(222.0)]],
        multi: vec![one(Nil), vec![Host(4), Num(72.0), Str("b")]],
        any: vec![one(Nil), one(Num(0.0))],
        num: vec![one(Num(0.0)), one(Num(2.0))],
        presets: vec![("tab", List(vec![Num(5.0), Num(6.0)])), ("tab0", List(vec![])), ("tab1", List(vec![Bool(false)]))],
        max_states: 400,
        max_events: 14,
        ..Cfg::default()
    }
}

/// Variations of the names the conversion uses.
pub fn near() -> Vec<String> {
    let mut v = vec![];
    for n in ["type", "table", "next"] {
        let (a, b) = (&n[..1], &n[1..]);
        for s in [
            n.to_string(),
            format!(" {n}"),
            format!("{n} "),
            format!("{n}{n}"),
            format!("x{n}"),
            format!("{n}x"),
            format!("{n}\0"),
            format!("\0{n}"),
            format!("{n}\0x"),
            format!("{n}\n"),
            format!("\n{n}"),
            n.to_uppercase(),
            format!("{}{b}", a.to_uppercase()),
            b.to_string(),
            a.to_string(),
            n[..n.len() - 1].to_string(),
            format!("_{n}"),
            format!("{a}_{b}"),
        ] {
            v.push(s)
        }
    }
    v.extend(["", "nil", "__%lunify%__temp0_0", "nextable", "typetablenext"].map(String::from));
    v
}

fn run(cx: &Cx) {
    let t = cx.thorough;
    let mut j = Jobs::new(Ver::L50, Sets::default(), cfg());
    let vars = ["k", "k, v", "k, v, w", "k, v, w, x", "k, v, w, x, y, z"];
    let iters = [
        "it", "tab", "tab0", "tab1", "it, 1", "it, 1, 2", "val(it)", "multi()", "it, multi()", "tab, 1, 2",
        "function(s, c) emit(s, c) return it(c) end", "function(s, c) if c == nil then return 1, a end end",
        "function(s, c) emit(s, c) if c == 3 then return nil end return (c or 0) + 1, s end, 5", "next, tab", "{1, 2, 3}", "{x = 1}", "obj", "3",
        "ask() and it or tab", "nil",
    ];
    let show = |v: &str, b: &str| {
        if v == "k" {
            b.to_string()
        } else {
            b.replace("emit(k)", &format!("emit({v})")).replace("emit(k,", &format!("emit({v},"))
        }
    };
    for v in vars {
        for it in iters {
            for (bi, b) in BODIES.iter().enumerate() {
                for (ai, (pre, post)) in AROUND.iter().enumerate() {
                    if !t && ai > 0 && (bi + ai) % 3 != 0 {
                        continue;
                    }
                    j.add("loop", format!("{pre} for {v} in {it} do {} end {post}", show(v, b)));
                }
            }
        }
    }
    for v in ["k", "k, v"] {
        for it in ["it", "tab"] {
            for g in ["it", "tab1"] {
                for b in BODIES {
                    for c in if t { &BODIES[..] } else { &BODIES[..9] } {
                        let inner = rename(b, "k", "m");
                        if c.starts_with("break") || c.starts_with("return") {
                            j.add("nest", format!("local a, b = 11, 12 for {v} in {it} do for m in {g} do {inner} end {c} end emit(a, b)"));
                        } else {
                            j.add("nest", format!("local a, b = 11, 12 for {v} in {it} do {c} for m, o in {g} do {inner} end emit(k) end emit(a, b)"));
                        }
                    }
                }
            }
        }
    }
    // as many loop variables as the conversion can hold
    for n in (1..=115).filter(|n| t || *n < 20 || n % 5 == 0 || (58..70).contains(n) || *n > 105) {
        let list = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(", ");
        let (v, w) = (list(&|i| format!("v{i}")), list(&|i| format!("{}", i + 2)));
        let show = if n <= 40 { v.clone() } else { format!("v0, v1, v{}, v{}, v{}", n / 2, n - 2, n - 1) };
        for pre in ["", "local a, b = 11, 12"] {
            let f = format!("{pre} local c = 0 local function f() c = c + 1 if c < 3 then return {w}, c end end");
            j.add("as many", format!("{f} for {v} in f do emit({show}) end emit(c)"));
            j.add("as many", format!("{f} for {v} in f do v{} = c emit(function() return {show} end) end emit(c)", n / 2));
            j.add("as many", format!("{pre} for {v} in tab do emit({show}) end emit(1)"));
        }
    }
    // many loop variables
    for n in [7, 8, 12, 30, 60] {
        let v: Vec<String> = (0..n).map(|i| format!("v{i}")).collect();
        let v = v.join(", ");
        for it in ["it", "tab", "it, 1"] {
            j.add("many", format!("local a = 1 for {v} in {it} do emit({v}) end emit(a)"));
            j.add("many", format!("local a = 1 for {v} in {it} do local b = v0 emit(function() return b, v1 end) if ask() then break end end emit(a)"));
        }
    }
    let kinds = ["emit", "local", "break", "if", "while", "repeat", "nfor0", "gfor1", "gfor2", "tfor", "closure"];
    let ctl = corpus::control(if t { 4 } else { 3 }, 1, &kinds);
    for s in &ctl {
        j.add("control", format!("local x = 0 {s} emit(x)"));
    }
    for (fi, fo) in [(2, 3), (3, 1)] {
        j.sets(Sets::flush(fi, fo));
        for (i, s) in ctl.iter().enumerate().filter(|x| x.1.contains(" in ")) {
            j.add("resized", format!("local x = 0 {} emit(x)", super::c08::fatten(s, i)));
        }
        for b in BODIES {
            for it in ["it", "tab"] {
                j.add("resized loop", format!("local a, b = 11, 12 for k, v in {it} do emit({{1, 2, 3, 4, k}}) {b} end emit({{a, b, 1, 2}})"));
            }
        }
    }
    // strings that are almost the ones the conversion needs
    j.sets(Sets::default());
    for s in near() {
        for l in ["for k in tab do emit(k) end", "for k, v in tab do emit(k, v) end", "for k in it do emit(k) end"] {
            j.add("names", format!("local s = \"{s}\" {l} emit(s)"));
            j.add("names", format!("{l} emit(\"{s}\") {l}"));
            j.add("names", format!("local t = {{\"{s}\", \"type\", \"next\"}} {l} emit(t)"));
        }
    }
    extras(&mut j, &["local a = 1 %L emit(a)", "local function f() %L end f() %L"]);
    crate::large::deep(&mut j, cfg(), &[(32, 50), (2, 3)], &["for k, v in it do emit(k, v) end", "for k in tab do emit(k) end"], t);
    crate::large::add(
        &mut j,
        cfg(),
        &[(32, 50), (2, 3)],
        &[
            "% for a in it do emit(a) end for a, b, c in it do local q = b emit(q, c) end",
            "for a, b in it do % emit(a, b) end emit(3)",
            "for a in it do % emit(a, function() a = y return a end) end emit(3)",
            "% for a, b in tab do emit(a, b) end",
            "for a in tab do % emit(a, y) end emit(3)",
            "% G = \"type\" G = \"table\" G = \"next\" emit(G == nil) for a, b in tab do emit(a, b) end",
        ],
        t,
    );
    j.run(cx, |_, _, _, _| {});
}

/// Loops in functions that have constants that look like the ones needed.
pub fn extras(j: &mut Jobs, around: &[&str]) {
    use super::util::each;
    use model::chunk::K;
    let mut pool = vec![
        K::Nil,
        K::Bool(false),
        K::Bool(true),
        K::Flt(0.0),
        K::Flt(-0.0),
        K::Flt(1.0),
        K::Flt(f64::NAN),
        K::Flt(f64::INFINITY),
        K::s(""),
        K::s("next"),
        K::s("type"),
        K::s("table"),
        K::s("nil"),
        K::s("next\0"),
        K::s("table\0\0"),
        K::s("type\0"),
        K::Str(b"next".to_vec()),
        K::Str(b"type".to_vec()),
        K::Str(b"table".to_vec()),
    ];
    let mut sets: Vec<Vec<K>> = vec![];
    for (i, a) in pool.iter().enumerate() {
        sets.push(vec![a.clone()]);
        for (k, b) in pool.iter().enumerate() {
            if i != k {
                sets.push(vec![a.clone(), b.clone()]);
            }
        }
    }
    // every subset of the most important ones
    let few = [K::Nil, K::Bool(false), K::Flt(0.0), K::s("next"), K::s("type"), K::s("table"), K::s("")];
    for m in 0..1u32 << few.len() {
        sets.push((0..few.len()).filter(|&i| m >> i & 1 == 1).map(|i| few[i].clone()).collect());
    }
    sets.push(pool.clone());
    pool.reverse();
    sets.push(pool);
    let side = j.sets.l50.clone();
    for l in ["for k in tab do emit(k) end", "for k, v in tab do emit(k, v) end", "for k, v in it do emit(k, v) end", "for k in it do for l, m in tab do emit(k, l, m) end end"] {
        for a in around {
            let src = a.replace("%L", l);
            let Ok(p) = model::gen::comp(&model::parse::parse(&src), Ver::L50, &side) else { panic!("harness: {src}") };
            for x in &sets {
                for front in [false, true] {
                    let mut q = p.clone();
                    each(&mut q, &mut |f| match front {
                        false => f.k.extend(x.clone()),
                        // behind the first constant
                        true => {
                            let n = x.len() as u64;
                            f.k.splice(0..0, x.clone());
                            shift(f, n)
                        }
                    });
                    j.raw("constants", format!("{} {x:?}: {src}", if front { "after" } else { "before" }), q);
                }
            }
            // behind many constants
            for n in [120usize, 126, 127, 128, 250, 251, 252, 253, 254, 255, 256, 257, 258, 262, 263, 510, 511, 512, 1023, 1024, 65_533, 65_536, 131_069] {
                for x in [few.to_vec()].into_iter().chain(few.iter().map(|k| vec![k.clone()])) {
                    if n > 60_000 && x.len() == 1 && !matches!(x[0], K::Nil | K::Str(_)) {
                        continue;
                    }
                    let mut q = p.clone();
                    each(&mut q, &mut |f| {
                        f.k.extend((0..n).map(|i| K::Flt(1000.0 + i as f64)));
                        f.k.extend(x.clone())
                    });
                    j.raw("constants", format!("behind {n}: {x:?}: {src}"), q);
                }
            }
        }
    }
}
/// Constants move up by `n`.
fn shift(f: &mut model::chunk::Proto, n: u64) {
    let side = Side::def50();
    for w in &mut f.code {
        let mut c = canon(Ver::L50, &side, *w).expect("harness: instruction");
        for a in [&mut c.x, &mut c.y] {
            if let Arg::K(k) = a {
                *k += n
            }
        }
        if let (Op::LoadK | Op::GetGlobal | Op::SetGlobal, Arg::N(k)) = (c.op, &mut c.x) {
            *k += n
        }
        *w = encode(Ver::L50, &side, &c).expect("harness: fits");
    }
}
