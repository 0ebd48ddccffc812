//! A small corpus of chunks that together use every feature of the formats.
use model::chunk::{raw, Fmt, Local, Proto, K};
use model::gen;
use model::ops::*;
use model::parse;

/// Constants of floating formats become integers in integral formats.
pub fn adapt(p: &Proto, f: &Fmt) -> Proto {
    let mut q = p.clone();
    fix(&mut q, f);
    q
}
fn fix(p: &mut Proto, f: &Fmt) {
    for k in &mut p.k {
        if f.integral {
            if let K::Flt(x) = k {
                *k = K::Int(*x as i64)
            }
        } else if let K::Int(x) = k {
            *k = K::Flt(*x as f64)
        }
        if let (K::Flt(x), 4) = (&*k, f.num) {
            *k = K::Flt(*x as f32 as f64)
        }
    }
    p.p.iter_mut().for_each(|q| fix(q, f))
}

pub const SOURCES: [(&str, &str); 14] = [
    ("empty", ""),
    ("straight", "local a, b = 1, \"two\" emit(a, b, nil, true) G = a"),
    ("control", "local x = ask() while x do if any() == 3 then break else emit(x) end end repeat local y = num() until y < 4"),
    ("numeric for", "for i = 1, 3 do for j = i, 9, 2 do emit(i, j) end end"),
    ("generic for", "for k, v, w in it do emit(k, v, w) end for k in it do emit(k) end"),
    ("tables", "local t = {1, 2, 3, x = 4, [5] = {6, 7}, val(8)} t.y = t[1] emit(t, {})"),
    ("closures", "local a, b = 1, 2 local function f(x) local function g() a = x b = a return g end return g, b end emit(f(3))"),
    ("loops with closures", "for i = 1, 2 do local c = i emit(function() c = c + 1 return c end) end"),
    ("calls", "local t = obj t.m(t, emit(1)) t:m(2, multi()) return multi(1, val(2))"),
    ("arithmetic", "local a, b = num(), num() emit(a + b, a - b, a * 2, a / b, a ^ b, -a, not a, a .. b .. \"x\")"),
    ("logic", "local a = any() emit(a and 1 or 2, a == nil, a ~= 3, a < 4, a <= 5, not (a and any()))"),
    ("vararg", "local function f(p, ...) local q = p emit(arg, q) end f() f(1) f(1, nil, 3)"),
    ("many locals", "local a, b, c, d, e, f, g, h = 1, 2, 3, 4, 5, 6, 7, 8 do local i, j = a, h emit(i, j) end emit(b, c, d, e, f, g)"),
    ("nested", "local function a() return function() return function(x) emit(x) return x end end end emit(a()()(1))"),
];

/// Features whose conversion from Lua 5.0 is a known finding or not exact are
/// kept out of `control_free` users by name.
pub fn compiled(v: Ver, side: &Side) -> Vec<(String, Proto)> {
    let mut out = vec![];
    for (n, s) in SOURCES {
        if let Ok(p) = gen::comp(&parse::parse(s), v, side) {
            out.push((n.to_string(), p))
        }
    }
    out
}

/// One function that carries something in every field.
pub fn rich(v: Ver, side: &Side) -> Proto {
    let e = |c: Canon| encode(v, side, &c).expect("fits");
    let ret = e(Canon { op: Op::Return, a: Some(0), x: Arg::N(1), y: Arg::No });
    let inner = Proto {
        source: raw("@inner"),
        line: 3,
        last_line: if v == Ver::L51 { 4 } else { 3 },
        nups: 2,
        nparams: 1,
        vararg: 0,
        maxstack: 5,
        code: vec![
            e(Canon { op: Op::GetUpval, a: Some(1), x: Arg::N(1), y: Arg::No }),
            e(Canon { op: Op::Return, a: Some(1), x: Arg::N(2), y: Arg::No }),
            ret,
        ],
        k: vec![K::s("inner"), K::Flt(7.0)],
        p: vec![Proto { source: raw("@leaf"), code: vec![ret], lines: vec![9], ..Proto::default() }],
        lines: vec![3, 3, 4],
        locals: vec![Local { name: raw("p"), start: 0, end: 2 }],
        upnames: vec![raw("u"), raw("w")],
    };
    Proto {
        source: raw("@main.lua"),
        line: 1,
        last_line: if v == Ver::L51 { 20 } else { 1 },
        nups: 0,
        nparams: 0,
        vararg: if v == Ver::L51 { 2 } else { 0 },
        maxstack: 9,
        code: vec![
            e(Canon { op: Op::LoadK, a: Some(0), x: Arg::N(1), y: Arg::No }),
            e(Canon { op: Op::LoadNil, a: Some(1), x: Arg::R(2), y: Arg::No }),
            e(Canon { op: Op::Closure, a: Some(3), x: Arg::N(0), y: Arg::No }),
            e(Canon { op: Op::Move, a: Some(0), x: Arg::R(1), y: Arg::No }),
            e(Canon { op: Op::Move, a: Some(0), x: Arg::R(2), y: Arg::No }),
            e(Canon { op: Op::Add, a: Some(4), x: Arg::R(0), y: Arg::K(1) }),
            e(Canon { op: Op::Eq, a: Some(1), x: Arg::K(0), y: Arg::R(4) }),
            e(Canon { op: Op::Jmp, a: None, x: Arg::J(1), y: Arg::No }),
            e(Canon { op: Op::Jmp, a: None, x: Arg::J(-8), y: Arg::No }),
            ret,
        ],
        k: vec![K::s("text"), K::Flt(5.0), K::Nil, K::Bool(true), K::Bool(false), K::s("")],
        p: vec![inner, Proto { source: vec![], code: vec![ret], lines: vec![17], ..Proto::default() }],
        lines: vec![2, 2, 3, 3, 3, 5, 6, 6, 8, 20],
        locals: vec![Local { name: raw("a"), start: 1, end: 9 }, Local { name: raw("b"), start: 2, end: 9 }],
        upnames: vec![],
    }
}

pub const NATIVE4: Fmt = Fmt { size_t: 4, ..Fmt::NATIVE };
