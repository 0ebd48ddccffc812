//! Table constructors under every combination of flush sizes (Lua 5.0; the
//! generator is shared with C13).
use crate::behave::Jobs;
use crate::cx::Cx;
use crate::sut::Sets;
use crate::Meta;
use model::ops::*;
use model::product::Cfg;

pub const META: Meta = Meta {
    id: "C12",
    level: "model_checking",
    rule: "every sequence of constructor item kinds up to a length x input and output flush sizes (also the real 32 -> 50) x contexts, long constructors with every single deviating item kind at every position around the page boundaries; items of up to 1100 instructions, nesting up to 40, pages around the limit of the stack, open ends after every number of pages, up to 70 000 items; all environment answers explored; non-trivial: more than one observable event",
    assumptions: &["which of several assignments to the same key comes last is not compared", "reference machines (bound to stock Lua 5.1 in C20)"],
    run: |cx| run(cx, Ver::L50),
};

pub const ITEMS: [&str; 22] = [
    "7",
    "val(8)",
    "ask() and 5",
    "k$ = 9",
    "nil",
    "{1, 2, 3}",
    "x",
    "function() return x end",
    "num() == 1",
    "multi()",
    "[val(\"d$\")] = ask() or 4",
    "obj:m(1)",
    "x .. \"s\"",
    "not x",
    "(multi())",
    "ask() or nil",
    "true",
    "x + 1",
    "G",
    "k$ = {4, 5, 6}",
    "{multi()}",
    "{k = 1, 2}",
];
/// An item for every kind of instruction, with operands in registers of the
/// constructor, in locals and in constants.
pub const KINDS: [&str; 62] = [
    "x",
    "8",
    "true",
    "nil",
    "G",
    "tab[1]",
    "tab[x]",
    "tab[val(1)]",
    "val(tab)[val(1)]",
    "obj.m",
    "obj:m()",
    "obj:m(1)",
    "obj:m(x, val(2))",
    "(obj:m())",
    "x + 1",
    "1 + x",
    "val(1) + val(2)",
    "x - val(2)",
    "val(3) * x",
    "val(3) / val(2)",
    "x ^ 2",
    "val(2) ^ val(3)",
    "x % 2",
    "val(7) % val(4)",
    "-x",
    "-val(1)",
    "not x",
    "not val(1)",
    "#\"abc\"",
    "#tab",
    "#val(\"ab\")",
    "#(x .. \"a\")",
    "x .. \"s\"",
    "val(1) .. val(2) .. x",
    "x == 3",
    "3 == x",
    "x ~= 3",
    "num() == 1",
    "val(1) == val(x)",
    "x < 3",
    "x <= 3",
    "val(1) > val(x)",
    "3 >= x",
    "not (x < val(1))",
    "x == 3 and x",
    "ask() and val(5)",
    "ask() or val(5)",
    "x and val(1) or val(2)",
    "x and x < 4",
    "{}",
    "{x, val(1)}",
    "{val(1), k = val(2)}",
    "{multi()}",
    "function() return 1 end",
    "function() return x, G end",
    "(multi())",
    "multi()",
    "multi(x, 1)",
    "k$ = val(6)",
    "[val(\"d$\")] = val(2) == x",
    "[-x] = -val(x)",
    "val(val(1) + val(x))",
];
/// Constructors in register 0, above locals, and with upvalues.
pub const PLACES: [&str; 4] = [
    "local t = % emit(t)",
    "local x = 3 local t = % emit(t)",
    "local x = 3 local function f() local t = % return t end emit(f())",
    "local x = 3 emit(1, x, %)",
];
/// Every kind of item at every position around the ends of pages.
pub fn positions(full: bool) -> Vec<(u64, u64, String)> {
    let mut v = vec![];
    for (i, o) in [(1, 2), (2, 1), (2, 3), (3, 2), (2, 5), (5, 2), (2, 6), (4, 1), (1, 4), (3, 3)] {
        for (pi, place) in PLACES.iter().enumerate() {
            for k in KINDS {
                for n in 0..7 {
                    for m in 0..3 {
                        if !full && (n + m + pi) % 2 == 1 && pi > 1 {
                            continue;
                        }
                        let mut items = vec!["7"; n];
                        items.push(k);
                        items.extend(["val(9)", "10"].iter().take(m));
                        v.push((i, o, place.replace('%', &table(&items))));
                    }
                }
            }
        }
        for (ai, a) in KINDS.iter().enumerate() {
            for (bi, b) in KINDS.iter().enumerate() {
                if full || i + o < 6 {
                    for pre in 0..3 {
                        let items = [&vec!["7"; pre][..], &[*a, *b]].concat();
                        if full || (ai + bi + pre) % 3 == 0 {
                            v.push((i, o, PLACES[(ai + bi) % 2].replace('%', &table(&items))));
                        }
                    }
                }
            }
        }
    }
    v
}
pub const CONTEXT: [&str; 12] = [
    "emit(%)",
    "local t = % emit(t)",
    "local a, b = 1, 2 local t = % emit(t, a, b)",
    "emit(1, %, 2)",
    "return %",
    "G = % emit(G)",
    "for i = 1, 2 do emit(%) end",
    "while ask() do local t = % emit(t) break end",
    "if ask() then emit(%) else emit(1) end",
    "local t = {} t.f = % t[1] = % emit(t)",
    "local function f(a) return %, a end emit(f(3))",
    "local r repeat r = % until ask() emit(r)",
];

pub fn cfg() -> Cfg {
    use model::product::{one, Ans::*};
    Cfg {
        num: vec![one(Num(0.0)), one(Num(1.0))],
        multi: vec![vec![], one(Num(71.0)), vec![Num(72.0), Nil, Num(73.0)]],
        it: vec![one(Nil), one(Num(1.0))],
        presets: vec![("tab", List(vec![Num(5.0), Num(6.0)]))],
        ignore_n: true,
        max_states: 300,
        max_events: 24,
        ..Cfg::default()
    }
}

/// `{...}` with the given items.
pub fn table(items: &[&str]) -> String {
    let mut o = "{".to_string();
    for (i, x) in items.iter().enumerate() {
        if i > 0 {
            o += ", ";
        }
        o += &x.replace('$', &i.to_string());
    }
    o + "}"
}
fn prog(ctx: &str, t: &str) -> String {
    format!("local x = 3 {}", ctx.replace('%', t))
}

fn sequences(n: usize, kinds: &[&'static str]) -> Vec<Vec<&'static str>> {
    let mut v: Vec<Vec<&str>> = vec![vec![]];
    for _ in 0..n {
        v = v.iter().flat_map(|s| kinds.iter().map(move |k| [&s[..], &[*k]].concat())).collect();
    }
    v
}

pub fn run(cx: &Cx, ver: Ver) {
    let t = cx.thorough;
    let mut j = Jobs::new(ver, Sets::default(), cfg());
    let outs = [1u64, 2, 3, 4, 5, 6, 7, 8, 9];
    let ins = [1u64, 2, 4, 8];
    for i in ins {
        for o in outs {
            if ver == Ver::L51 && i == o {
                continue;
            }
            j.sets(Sets::flush(i, o));
            for n in 0..=2 {
                for s in sequences(n, &ITEMS) {
                    j.add("sequence", prog(CONTEXT[0], &table(&s)));
                }
            }
            for s in sequences(3, &ITEMS[..if t { 22 } else { 12 }]) {
                j.add("sequence", prog(CONTEXT[0], &table(&s)));
            }
            let few = t || (i == 2 && [1, 3, 5].contains(&o)) || (i == 4 && o == 3) || (i == 1 && o == 2);
            for s in sequences(4, &ITEMS[..if few { 10 } else { 5 }]) {
                j.add("sequence", prog(CONTEXT[0], &table(&s)));
            }
            for s in sequences(if t { 7 } else { 5 }, &["7", "k$ = ask() and 9", "ask() and val(5)"]) {
                j.add("sequence", prog(CONTEXT[1], &table(&s)));
            }
            // contexts and nesting
            for s in sequences(2, &ITEMS[..12]) {
                for c in &CONTEXT[1..] {
                    j.add("context", prog(c, &table(&s)));
                }
            }
            for a in 0..6 {
                for b in 0..6 {
                    for e in ["7", "multi()", "k = 1"] {
                        let mut outer = vec!["1"; a];
                        let inner = table(&[&vec!["val(2)"; b][..], &[e]].concat());
                        outer.push(&inner);
                        j.add("nesting", prog("local a, b = 1, 2 local t = % emit(t, a, b)", &table(&outer)));
                        outer.push("3");
                        outer.push("k$ = 4");
                        outer.push("multi()");
                        j.add("nesting", prog("emit(a, %)", &table(&outer)));
                        let deep = table(&[&inner, &inner, "5"]);
                        j.add("nesting", prog("local t = % emit(t)", &table(&["1", &deep, "2"])));
                    }
                }
            }
        }
    }
    // every kind of instruction
    for (i, o, s) in positions(t) {
        if ver == Ver::L50 || i != o {
            if (j.sets.input(ver).flush, j.sets.out.flush) != (i, o) {
                j.sets(Sets::flush(i, o));
            }
            j.add("positions", s);
        }
    }
    // the real sizes
    let mut real = vec![(32, 50)];
    if ver == Ver::L51 {
        real = vec![(50, 32), (50, 49), (50, 51), (50, 100), (32, 50)];
    }
    for (i, o) in real {
        j.sets(Sets::flush(i, o));
        for n in 0..=if t { 320 } else { 160 } {
            let base: Vec<&str> = (0..n).map(|i| if i % 2 == 0 { "7" } else { "x" }).collect();
            j.add("long", prog("local t = % emit(t)", &table(&base)));
            let mut open = base.clone();
            open.push("multi()");
            j.add("long", prog("local a, b = 1, 2 local t = % emit(t, a, b)", &table(&open)));
            let keyed: Vec<&str> = (0..n).flat_map(|i| if i % 3 == 0 { vec!["7", "k$ = x"] } else { vec!["x"] }).collect();
            j.add("long", prog("emit(%)", &table(&keyed)));
        }
        for n in [31, 32, 33, 49, 50, 51, 64, 65, 96, 97, 100, 101, 150, 151] {
            for pos in (0..n).filter(|p| t || p % 32 >= 30 || p % 32 <= 1 || p % 50 >= 48 || p % 50 <= 1 || p + 1 == n) {
                for k in ITEMS {
                    let mut items = vec!["7"; n];
                    items[pos] = k;
                    j.add("deviation", prog("local t = % emit(t)", &table(&items)));
                }
            }
        }
        // nil runs, closures with upvalues and method calls across the boundary
        for n in [1usize, 16, 31, 32, 33, 34, 48, 49, 50, 51, 52] {
            for run in [1usize, 2, 3, 20, 40] {
                for x in ["nil", "function() x = x + 1 return x end", "obj:m(x)", "ask() and x or val(3)", "{}", "{x, {x}}"] {
                    let mut items = vec!["7"; n];
                    items.extend(std::iter::repeat(x).take(run));
                    items.push("8");
                    if x.contains("ask") && run > 3 {
                        continue;
                    }
                    j.add("runs", prog("local t = % emit(t)", &table(&items)));
                }
            }
        }
    }
    for (i, o) in [(2, 3), (3, 2), (4, 1), (1, 4), (2, 5), (5, 2)] {
        j.sets(Sets::flush(i, o));
        for n in 0..9 {
            for run in [1, 2, 3, 7] {
                for x in ["nil", "function() x = x + 1 return x end", "obj:m(x)", "ask() and x or val(3)", "{}", "{x, {x}}"] {
                    let mut items = vec!["7"; n];
                    items.extend(std::iter::repeat(x).take(run));
                    items.push("8");
                    if x.contains("ask") && run > 3 {
                        continue;
                    }
                    for c in ["local t = % emit(t)", "for i = 1, 2 do local t = % emit(t) if ask() then break end end", "local function f() return % end emit(f())"] {
                        j.add("runs", prog(c, &table(&items)));
                    }
                }
            }
        }
    }
    // more pages than an operand can number
    let sizes: &[(u64, u64, &[usize])] = match ver {
        Ver::L50 => &[(32, 1, &[250, 511, 512, 600]), (32, 50, &[25550, 25551, 26000]), (1, 2, &[1022, 1023, 1030])],
        Ver::L51 => &[(50, 1, &[250, 511, 512, 600]), (50, 40, &[20440, 20441, 20500]), (50, 60, &[25550])],
    };
    for (i, o, ns) in sizes {
        let mut c = cfg();
        c.budget = 100_000;
        c.max_states = 20;
        j.cfg(c);
        j.sets(Sets::flush(*i, *o));
        for n in *ns {
            j.add("pages", format!("G = \"--big\" local x = 3 local t = {} emit(t)", table(&vec!["7"; *n])));
            j.add("pages", format!("G = \"--big\" local x = 3 local t = {} emit(t)", table(&[&vec!["7"; *n][..], &["multi()"]].concat())));
        }
    }
    // items that take a lot of code, and a lot of nested items
    let mut c = cfg();
    c.budget = 400_000;
    c.max_states = 24;
    j.cfg(c.clone());
    for (i, o) in [(if ver == Ver::L50 { 32 } else { 50 }, if ver == Ver::L50 { 50 } else { 32 }), (2, 3), (3, 2), (4, 9)] {
        j.sets(Sets::flush(i, o));
        for n in [14usize, 30, 62, 126, 130, 254, 256, 300, 510, 514, 600, 1022, 1026, 1100] {
            let sum = format!("x{}", " + x".repeat(n));
            let inner = table(&vec!["7"; n]);
            let calls = format!("val({}x{})", "val(".repeat(n.min(80)), ")".repeat(n.min(80)));
            for item in [&sum, &inner, &calls, &table(&["1", &sum, "2", "3", &inner])] {
                for len in if i > 30 { vec![20usize, 34, 52, 70] } else { vec![4, 7] } {
                    for at in [0, 1, 2, 3, 30, 31, 32, 33, 48, 49, 50, 51, 52].iter().filter(|a| **a < len) {
                        let mut items = vec!["7"; len];
                        items[*at] = item;
                        j.add("long item", format!("{}{}", if n > 1000 { "G = \"--big\" " } else { "" }, prog("local t = % emit(t)", &table(&items))));
                    }
                }
            }
            if n < 130 {
                j.add("long item", prog("local t = % emit(t)", &table(&vec![&sum[..]; if i > 30 { 70 } else { 8 }])));
            }
        }
        for depth in 1..=40 {
            let mut s = "7".to_string();
            for k in 0..depth {
                s = match k % 3 {
                    0 => table(&["1", "2", "3", &s, "4", "5"]),
                    1 => table(&[&s, "6"]),
                    _ => table(&["x", "8", &s]),
                };
            }
            j.add("deep", format!("local x = 3 local t = {s} emit(t)"));
        }
    }
    // flush sizes around the limits of the stack
    for limit in [250, 255] {
        for (i, o) in [(32u64, 249u64), (32, 250), (32, 251), (32, 252), (32, 253), (32, 254), (32, 255), (32, 256), (32, 300), (32, 1 << 20), (32, u64::MAX), (240, 32), (240, 250), (200, 245), (120, 240), (60, 128), (100, 127)] {
            let mut s = Sets::flush(i, o);
            s.l50.limit = 250;
            s.out.limit = limit;
            j.sets(s);
            for n in [1usize, 59, 60, 61, 119, 121, 127, 128, 129, 199, 239, 240, 241, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 480, 481, 520] {
                for item in ["7", "nil"] {
                    j.add("large pages", format!("G = \"--big\" local t = {} emit(t)", table(&[&["8"], &vec![item; n - 1][..]].concat())));
                }
            }
        }
    }
    // open ends on every page
    for (i, o) in [(1, 2), (2, 1), (2, 3), (3, 2), (2, 5), (50, 32), (32, 50)] {
        j.sets(Sets::flush(i, o));
        let near: Vec<usize> = [15, 31, 63, 64, 127, 128, 129, 200, 254, 255, 256, 257, 300, 400, 508, 509, 510].into_iter().flat_map(|p| [p * i as usize, p * o as usize]).collect();
        for n in near {
            for d in 0..=3usize {
                if (n + d) as u64 > 509 * i.min(o) {
                    continue;
                }
                let mut items = vec!["7"; n + d];
                items.push("multi()");
                j.add("open pages", format!("local t = {} emit(t)", table(&items)));
                j.add("open pages", format!("local t = {} emit(t)", table(&items[..n + d])));
            }
        }
    }
    // more items than 16 bits can count
    c.budget = 2_000_000;
    c.max_states = 6;
    j.cfg(c);
    let huge: Vec<String> = (0..70_000).map(|i| if i % 2 == 0 { "7".into() } else { format!("{}", i % 9) }).collect();
    let huge: Vec<&str> = huge.iter().map(|s| s.as_str()).collect();
    for (i, o) in [(160, 200), (200, 160), (240, 245)] {
        j.sets(Sets::flush(i, o));
        for n in [32_765, 32_800, 65_534, 65_600, 70_000] {
            j.add("huge", format!("local t = {} emit(t)", table(&huge[..n])));
            j.add("huge", format!("local t = {} emit(t)", table(&[&huge[..n], &["multi()"]].concat())));
        }
    }
    crate::large::deep(&mut j, cfg(), &[(32, 50), (2, 3), (3, 2)], &["emit({1, y, {2, y, 3, 4, 5}, k = 1, f = {1}, y == 1, multi()})"], t);
    j.run(cx, |_, _, _, _| {});
}
