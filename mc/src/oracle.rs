//! What a conversion must produce, written from the file formats alone.
use crate::sut::R;
use lunify::LunifyError;
use model::chunk::{Fmt, Proto, K};
use model::ops::*;

/// Why an input cannot be represented in the requested output.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why {
    Integer,
    Number,
    Operand,
}

/// The number constant the output must hold. `Ok(None)`: either an error or
/// the value in the second component is fine.
pub fn number(k: &K, out: &Fmt) -> Result<K, Why> {
    let f32_exact = |i: i64| (i as f32) as i128 == i as i128;
    let f64_exact = |i: i64| (i as f64) as i128 == i as i128;
    Ok(match (k, out.integral, out.num) {
        (K::Flt(x), false, 8) => K::Flt(*x),
        (K::Flt(x), false, _) => K::Flt(*x as f32 as f64),
        (K::Flt(x), true, n) => {
            if x.fract() != 0.0 || !x.is_finite() || *x < -9223372036854775808.0 || *x >= 9223372036854775808.0 {
                return Err(Why::Number);
            }
            let i = *x as i64;
            if n == 4 && i32::try_from(i).is_err() {
                return Err(Why::Number);
            }
            K::Int(i)
        }
        (K::Int(i), true, n) => {
            if n == 4 && i32::try_from(*i).is_err() {
                return Err(Why::Number);
            }
            K::Int(*i)
        }
        (K::Int(i), false, n) => {
            if !if n == 4 { f32_exact(*i) } else { f64_exact(*i) } {
                return Err(Why::Number);
            }
            K::Flt(*i as f64)
        }
        _ => k.clone(),
    })
}
/// Cases in which reporting an error instead of a value is also fine.
pub fn number_lenient(k: &K, out: &Fmt) -> bool {
    match k {
        // overflow of a narrowing conversion, negative zero
        K::Flt(x) => (!out.integral && out.num == 4 && x.is_finite() && !(*x as f32).is_finite()) || (out.integral && *x == 0.0 && x.is_sign_negative()),
        _ => false,
    }
}

fn int(v: i64, f: &Fmt) -> Result<i64, Why> {
    if f.int == 4 && i32::try_from(v).is_err() {
        return Err(Why::Integer);
    }
    Ok(v)
}

pub fn code(w: u64, a: &Side, b: &Side, out: &Fmt) -> Result<u64, Why> {
    let c = canon(Ver::L51, a, w).expect("known opcode");
    let v = encode(Ver::L51, b, &c).ok_or(Why::Operand)?;
    if out.ins == 4 && v > u32::MAX as u64 {
        return Err(Why::Operand);
    }
    Ok(v)
}

/// The Lua 5.1 function tree a Lua 5.1 to Lua 5.1 conversion with equal flush
/// sizes must write.
pub fn expect51(p: &Proto, a: &Side, b: &Side, out: &Fmt) -> Result<Proto, Vec<Why>> {
    let mut why = vec![];
    let mut q = p.clone();
    fill(&mut q, a, b, out, &mut why);
    if why.is_empty() {
        Ok(q)
    } else {
        Err(why)
    }
}
fn fill(q: &mut Proto, a: &Side, b: &Side, out: &Fmt, why: &mut Vec<Why>) {
    let mut i = |v: i64| {
        if let Err(e) = int(v, out) {
            why.push(e)
        }
    };
    i(q.line);
    i(q.last_line);
    q.lines.iter().for_each(|&l| i(l));
    q.locals.iter().for_each(|l| {
        i(l.start);
        i(l.end)
    });
    for c in &mut q.code {
        match code(*c, a, b, out) {
            Ok(w) => *c = w,
            Err(e) => why.push(e),
        }
    }
    for k in &mut q.k {
        match number(k, out) {
            Ok(x) => *k = x,
            Err(e) => why.push(e),
        }
    }
    for f in &mut q.p {
        fill(f, a, b, out, why)
    }
}

/// First difference between what is expected and what was written, everything
/// but instructions.
pub fn differ_data(e: &Proto, g: &Proto, path: &str) -> Option<String> {
    macro_rules! eq {
        ($f:ident) => {
            if e.$f != g.$f {
                return Some(format!("function {path}: {} is {:?}, expected {:?}", stringify!($f), g.$f, e.$f));
            }
        };
    }
    eq!(source);
    eq!(line);
    eq!(last_line);
    eq!(nups);
    eq!(nparams);
    eq!(vararg);
    if g.maxstack < e.maxstack {
        return Some(format!("function {path}: stack size lowered from {} to {}", e.maxstack, g.maxstack));
    }
    if e.k.len() != g.k.len() {
        return Some(format!("function {path}: {} constants, expected {}", g.k.len(), e.k.len()));
    }
    if let Some(i) = (0..e.k.len()).find(|&i| !e.k[i].same(&g.k[i])) {
        return Some(format!("function {path}: constant {i} is {:?}, expected {:?}", g.k[i], e.k[i]));
    }
    eq!(lines);
    eq!(locals);
    eq!(upnames);
    if e.p.len() != g.p.len() {
        return Some(format!("function {path}: {} nested functions, expected {}", g.p.len(), e.p.len()));
    }
    None
}
/// First difference, instructions included (operands that have no effect on
/// execution are not compared).
pub fn differ(e: &Proto, g: &Proto, b: &Side, path: &str) -> Option<String> {
    if let Some(d) = differ_data(e, g, path) {
        return Some(d);
    }
    if let Some(d) = differ_code(&e.code, &g.code, b, path) {
        return Some(d);
    }
    e.p.iter().zip(&g.p).enumerate().find_map(|(i, (x, y))| differ(x, y, b, &format!("{path}.{i}")))
}
pub fn differ_code(e: &[u64], g: &[u64], b: &Side, path: &str) -> Option<String> {
    if e.len() != g.len() {
        return Some(format!("function {path}: {} instructions, expected {}", g.len(), e.len()));
    }
    for i in 0..e.len() {
        let (x, y) = (canon(Ver::L51, b, e[i]), canon(Ver::L51, b, g[i]));
        if x != y {
            return Some(format!("function {path}: instruction {i} is {y:?} ({:#x}), expected {x:?}", g[i]));
        }
        if g[i] as u128 >> b.layout.total().min(64) != 0 {
            return Some(format!("function {path}: instruction {i} has bits outside the layout ({:#x})", g[i]));
        }
    }
    None
}

/// Does this error say that a value cannot be represented?
pub fn unrepresentable(r: &R, why: &[Why]) -> bool {
    match r {
        R::Err(e) => why.iter().any(|w| match w {
            Why::Integer => matches!(e, LunifyError::IntegerOverflow | LunifyError::ValueTooBigForOperand),
            Why::Number => matches!(e, LunifyError::IntegerOverflow | LunifyError::FloatPrecisionLoss),
            Why::Operand => matches!(e, LunifyError::ValueTooBigForOperand),
        }),
        _ => false,
    }
}
