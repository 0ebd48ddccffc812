use model::chunk::{Fmt, Proto};
use model::ops::*;

pub fn short(f: &Fmt) -> String {
    format!(
        "{}{}{}{}{}{}{}",
        if f.little { 'l' } else { 'b' },
        f.int,
        f.size_t,
        f.ins,
        f.num,
        if f.integral { 'i' } else { 'f' },
        if f.format != 0 { format!("/{}", f.format) } else { String::new() }
    )
}
pub fn vers() -> [Ver; 2] {
    [Ver::L50, Ver::L51]
}
/// The Lua 5.1 instruction a Lua 5.0 instruction maps to when it needs no
/// expansion.
pub fn plain50(c: Canon) -> Option<Canon> {
    use Op::*;
    Some(match c.op {
        Test => Canon { op: TestSet, ..c },
        ForLoop | TForLoop | TForPrep | SetList | SetListO => return None,
        _ => c,
    })
}
/// Expected output tree for Lua 5.0 input without any expanded instruction.
pub fn expect50(p: &Proto, a: &Side, b: &Side) -> Option<Proto> {
    let mut q = p.clone();
    fn go(q: &mut Proto, a: &Side, b: &Side) -> Option<()> {
        if q.vararg != 0 {
            return None;
        }
        for w in &mut q.code {
            *w = encode(Ver::L51, b, &plain50(canon(Ver::L50, a, *w)?)?)?;
        }
        for f in &mut q.p {
            go(f, a, b)?
        }
        Some(())
    }
    go(&mut q, a, b)?;
    Some(q)
}
/// Visit every function of a tree mutably.
pub fn each(p: &mut Proto, f: &mut dyn FnMut(&mut Proto)) {
    f(p);
    for q in &mut p.p {
        each(q, f)
    }
}
/// Which parts of the debug information to remove.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Strip {
    pub lines: bool,
    pub locals: bool,
    pub upnames: bool,
    pub source: bool,
    /// Only nested functions are stripped.
    pub inner: bool,
}
impl Strip {
    pub const ALL: Strip = Strip { lines: true, locals: true, upnames: true, source: true, inner: false };
    pub fn subsets() -> Vec<Strip> {
        let mut v = vec![];
        for i in 1..32u8 {
            let b = |n: u8| i & n != 0;
            if i == 16 {
                continue;
            }
            v.push(Strip { lines: b(1), locals: b(2), upnames: b(4), source: b(8), inner: b(16) });
        }
        v
    }
    pub fn apply(&self, p: &Proto) -> Proto {
        fn go(s: &Strip, p: &mut Proto, root: bool) {
            if !s.inner || !root {
                if s.lines {
                    p.lines.clear()
                }
                if s.locals {
                    p.locals.clear()
                }
                if s.upnames {
                    p.upnames.clear()
                }
                if s.source {
                    p.source.clear()
                }
            }
            for q in &mut p.p {
                go(s, q, false)
            }
        }
        let mut q = p.clone();
        go(self, &mut q, true);
        q
    }
}
/// Every statement of the program in one place: small programs that together
/// contain every construct, for checks that look at all of them.
pub fn zoo() -> Vec<String> {
    let mut v: Vec<String> = crate::samples::SOURCES.iter().map(|s| s.1.to_string()).collect();
    for (a, b) in [("local a, b = 11, 12", "emit(a, b)"), ("local b = 12 local function f(a)", "emit(a, b) return a end emit(f(7))")] {
        for h in ["for i = 1, num() do", "for i = 2, 1, -1 do", "for i in it do", "for i, v in it do", "for i, v, w in tab do", "while ask() do local i = 1", "repeat local i = 2"] {
            for body in super::c09::BODIES {
                let end = if h.starts_with("repeat") { "until ask()" } else { "end" };
                if h.starts_with("repeat") && (body.ends_with("break") || body == "return i") {
                    continue;
                }
                v.push(format!("{a} {h} {body} {end} {b}"));
            }
        }
        for p in ["...", "p, ...", "p, q, r, ..."] {
            for body in ["emit(arg)", "local l = arg emit(l)", "for i = 1, 2 do emit(arg[i]) end", "emit({1, 2, 3, 4, arg})", "for k, v in tab do emit(k, v) end return arg"] {
                v.push(format!("{a} local function g({p}) {body} end g() g(1, 2) emit(g(1, 2, 3, 4)) {b}"));
            }
        }
        for x in super::c12::ITEMS {
            for y in super::c12::ITEMS {
                v.push(format!("{a} local x = 1 local t = {} emit(t) {b}", super::c12::table(&["1", x, "2", y, "3"])));
            }
        }
    }
    v
}

/// Booleans are stored as a byte, and everything but zero is true.
pub fn boolean_bytes(cx: &crate::cx::Cx, v: Ver, order: usize) {
    use crate::sut::{self, Sets, R};
    use model::chunk::{self, K};
    let s = Sets::default();
    let base = crate::samples::rich(v, s.input(v));
    let mut items = vec![];
    for place in 0..2 {
        for b in 0..=255u8 {
            items.push((place, b))
        }
    }
    cx.par(&items, |i, &(place, b)| {
        let with = |x: bool| {
            let mut p = base.clone();
            match place {
                0 => p.k.push(K::Bool(x)),
                _ => p.p[0].k.insert(0, K::Bool(x)),
            }
            p
        };
        for fi in Fmt::all() {
            let w = |x: bool| chunk::write(v, &fi, s.input(v), &crate::samples::adapt(&with(x), &fi));
            let (no, yes) = (w(false), w(true));
            let at = (0..no.len()).find(|&k| no[k] != yes[k]).expect("harness: the chunks differ");
            for fo in [Fmt::NATIVE, Fmt { little: false, int: 8, size_t: 4, ..Fmt::NATIVE }] {
                if v == Ver::L51 && fo == fi {
                    continue;
                }
                cx.eval();
                let mut input = no.clone();
                input[at] = b;
                let r = sut::unify(&input, &fo, &s);
                let want = sut::unify(if b == 0 { &no } else { &yes }, &fo, &s);
                let key = format!("{v:?}/boolean {b} in place {place}/{}->{}", short(&fi), short(&fo));
                let right = matches!(&r, R::Ok(o) if chunk::read(Ver::L51, &s.out, o).is_ok_and(|(_, q)| {
                    let k = if place == 0 { q.k.last() } else { q.p[0].k.first() };
                    k.is_some_and(|k| k.same(&K::Bool(b != 0)))
                }));
                // the same chunk with the byte a compiler writes
                if !right || r != want {
                    cx.bad(order + i, &key, &format!("a boolean does not keep its value: {}", r.brief()), &input, &fo, &s, "");
                } else {
                    cx.seen(&key);
                }
            }
        }
    });
}

/// Signatures of all kinds: every one of up to one (ASCII) character, all
/// strings of a small alphabet up to a length, and long ones.
pub fn signatures(len: usize) -> Vec<String> {
    let mut o: Vec<String> = vec!["".into()];
    o.extend((0..128u8).map(|b| (b as char).to_string()));
    let alphabet = ["\x1b", "L", "l", " ", "\n", "\0", "Q", "\u{e9}", "\u{20ac}", "\u{1f40d}"];
    let mut last: Vec<String> = vec!["".into()];
    for _ in 0..len {
        last = last.iter().flat_map(|s| alphabet.iter().map(move |a| format!("{s}{a}"))).collect();
        o.extend(last.clone());
    }
    for stem in ["\x1bLua", "\x1bLua\x1bLua", "\x1bLuaQ", "\x1bLuaP\0", "\x1bLUA", "Lua"] {
        for end in ["", " ", "\n", "\r\n\x1a\n", "\t", "\0", "\u{a0}", "\u{7f}", "\u{80}", "\u{feff}", "L", "\x1b"] {
            o.push(format!("{stem}{end}"));
            o.push(format!("{end}{stem}"));
        }
    }
    for n in [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 65_535, 65_536, 65_537] {
        o.push("x".repeat(n));
        o.push("\u{e9}".repeat(n / 2));
    }
    let mut seen = std::collections::HashSet::new();
    o.retain(|s| seen.insert(s.clone()));
    o
}
