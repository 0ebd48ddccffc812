//! Converts what it is told to on its input, in a build with optional features
//! of the converter. The answers go to the standard error stream because the
//! `debug` feature prints to the standard output stream.
//!
//! Request: `<input> <format> <lua50> <lua51> <output>`, the input in
//! hexadecimal, the format as seven numbers, settings as
//! `<signature in hexadecimal>/<layout>/<flush>/<limit>`.
use lunify::{unify, BitWidth, Endianness, Format, InstructionLayout, LunifyError, OperandType, Settings};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn unhex(s: &str) -> Vec<u8> {
    let d = |c: u8| if c < b'a' { c - b'0' } else { c - b'a' + 10 };
    s.trim_start_matches('-').as_bytes().chunks(2).map(|c| d(c[0]) << 4 | d(c[1])).collect()
}
fn width(n: u64) -> BitWidth {
    if n == 4 {
        BitWidth::Bit32
    } else {
        BitWidth::Bit64
    }
}
fn format(s: &str) -> Format {
    let n: Vec<u64> = s.split(',').map(|x| x.parse().unwrap()).collect();
    Format {
        format: n[0] as u8,
        endianness: if n[1] == 1 { Endianness::Little } else { Endianness::Big },
        integer_width: width(n[2]),
        size_t_width: width(n[3]),
        instruction_width: width(n[4]),
        number_width: width(n[5]),
        is_number_integral: n[6] == 1,
    }
}
struct Side {
    sig: String,
    layout: InstructionLayout,
    flush: u64,
    limit: u64,
}
fn side(s: &str) -> Result<Side, LunifyError> {
    let f: Vec<&str> = s.split('/').collect();
    let ops: Vec<OperandType> = f[1]
        .split(',')
        .map(|o| {
            let n = o[1..].parse().unwrap();
            match &o[..1] {
                "O" => OperandType::Opcode(n),
                "A" => OperandType::A(n),
                "B" => OperandType::B(n),
                _ => OperandType::C(n),
            }
        })
        .collect();
    Ok(Side {
        sig: String::from_utf8(unhex(f[0])).unwrap(),
        layout: InstructionLayout::from_specification([ops[0], ops[1], ops[2], ops[3]])?,
        flush: f[2].parse().unwrap(),
        limit: f[3].parse().unwrap(),
    })
}
fn settings<'a>(l50: &'a Side, l51: &'a Side, out: &'a Side) -> Settings<'a> {
    let mut s = Settings::default();
    s.lua50.binary_signature = &l50.sig;
    s.lua50.layout = l50.layout;
    s.lua50.fields_per_flush = l50.flush;
    s.lua50.stack_limit = l50.limit;
    for (o, i) in [(&mut s.lua51, l51), (&mut s.output, out)] {
        o.binary_signature = &i.sig;
        o.layout = i.layout;
        o.fields_per_flush = i.flush;
        o.stack_limit = i.limit;
    }
    s
}
type Out = Result<Vec<u8>, LunifyError>;
fn convert(b: &[u8], f: &Format, s: &Settings) -> Result<Out, ()> {
    catch_unwind(AssertUnwindSafe(|| unify(b, f, s))).map_err(|_| ())
}
fn show(r: &Result<Out, ()>) -> String {
    match r {
        Ok(Ok(b)) => {
            let h = b.iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
            format!("ok:{}:{h:016x}", b.len())
        }
        Ok(Err(e)) => format!("err:{e:?}"),
        Err(()) => "panic".into(),
    }
}

#[cfg(feature = "serde")]
mod round {
    use super::*;
    /// Through a binary and a textual format.
    macro_rules! both {
        ($t:ty, $v:expr, $what:expr) => {{
            let v: &$t = $v;
            let b = bincode::serialize(v).map_err(|e| format!("{} cannot be serialized: {e}", $what))?;
            let j = serde_json::to_string(v).map_err(|e| format!("{} cannot be serialized: {e}", $what))?;
            let x: $t = bincode::deserialize(&b).map_err(|e| format!("{} cannot be deserialized: {e}", $what))?;
            let y: $t = serde_json::from_str(&j).map_err(|e| format!("{} cannot be deserialized: {e}", $what))?;
            if x != *v || y != *v {
                return Err(format!("{} changes: {v:?} becomes {x:?} and {y:?}", $what));
            }
            (x, y)
        }};
    }
    pub fn error(e: &LunifyError) -> Result<(), String> {
        both!(LunifyError, e, "an error");
        Ok(())
    }
    pub fn operand(o: &OperandType) -> Result<(), String> {
        both!(OperandType, o, "an operand type");
        Ok(())
    }
    pub fn all(b: &[u8], f: &Format, s: &Settings, r: &Result<Out, ()>) -> Result<(), String> {
        let (f1, f2) = both!(Format, f, "the format");
        both!(Endianness, &f.endianness, "the endianness");
        both!(BitWidth, &f.number_width, "a width");
        for l in [&s.lua50.layout, &s.lua51.layout, &s.output.layout] {
            both!(InstructionLayout, l, "a layout");
        }
        if let Ok(Err(e)) = r {
            error(e)?;
        }
        // Settings borrow their signatures: a format has to be able to lend
        // them.
        let bin = bincode::serialize(s).map_err(|e| format!("the settings cannot be serialized: {e}"))?;
        let s1: Settings = bincode::deserialize(&bin).map_err(|e| format!("the settings cannot be deserialized: {e}"))?;
        if s1 != *s {
            return Err(format!("the settings change: {s:?} becomes {s1:?}"));
        }
        let again = convert(b, &f1, &s1);
        if again != *r {
            return Err(format!("the deserialized settings and format convert differently: {}", show(&again)));
        }
        let json = serde_json::to_string(s).map_err(|e| format!("the settings cannot be serialized: {e}"))?;
        match serde_json::from_str::<Settings>(&json) {
            Ok(s2) if s2 != *s => Err(format!("the settings change: {s:?} becomes {s2:?}")),
            Ok(s2) => match convert(b, &f2, &s2) {
                x if x != *r => Err(format!("the deserialized settings and format convert differently: {}", show(&x))),
                _ => Ok(()),
            },
            // nothing that could be lent
            Err(_) if [s.lua50.binary_signature, s.lua51.binary_signature, s.output.binary_signature].iter().any(|x| serde_json::to_string(x).unwrap().contains('\\')) => Err("escaped".into()),
            Err(e) => Err(format!("the settings cannot be deserialized: {e}")),
        }
    }
}
#[cfg(not(feature = "serde"))]
mod round {
    use super::*;
    pub fn error(_: &LunifyError) -> Result<(), String> {
        Ok(())
    }
    pub fn operand(_: &OperandType) -> Result<(), String> {
        Ok(())
    }
    pub fn all(_: &[u8], _: &Format, _: &Settings, _: &Result<Out, ()>) -> Result<(), String> {
        Ok(())
    }
}

/// Every error with every value that it can carry.
fn values() -> Result<(), String> {
    use LunifyError::*;
    for n in 0..=255u8 {
        for e in [UnsupportedVersion(n), InvaildEndianness(n), UnsupportedSizeTWidth(n), UnsupportedIntegerWidth(n), UnsupportedInstructionWidth(n), UnsupportedNumberWidth(n), InvalidConstantType(n), UnsupportedInstructionFormat([n, 255 - n, n ^ 1, 7])] {
            round::error(&e)?;
        }
    }
    for n in (0..64).flat_map(|b| [(1u64 << b) - 1, 1 << b, u64::MAX << b]) {
        for e in [InvalidOpcode(n), StackTooLarge(n), InvalidJumpDestination(n as i64)] {
            round::error(&e)?;
        }
        for o in [OperandType::Opcode(n), OperandType::A(n), OperandType::B(n), OperandType::C(n)] {
            round::operand(&o)?;
        }
    }
    for e in [InvalidInstructionLayout, IncorrectSignature, FloatPrecisionLoss, IntegerOverflow, InputTooShort, InputTooLong, ValueTooBigForOperand, UnexpectedForwardJump, UnexpectedSetList, FunctionsNestedTooDeep] {
        round::error(&e)?;
    }
    Ok(())
}

/// The answer to one request.
pub fn answer(line: &str) -> String {
    let f: Vec<&str> = line.split(' ').collect();
    if f[0] == "values" {
        return format!("ok {}", values().err().unwrap_or("same".into()));
    }
    // the format that is used when none is asked for
    if f[0] == "default" {
        return format!("{:?}", Format::default());
    }
    let (b, fo) = (unhex(f[0]), format(f[1]));
    match (side(f[2]), side(f[3]), side(f[4])) {
        (Ok(a), Ok(b2), Ok(c)) => {
            let s = settings(&a, &b2, &c);
            let r = convert(&b, &fo, &s);
            format!("{} | {}", show(&r), round::all(&b, &fo, &s, &r).err().unwrap_or("same".into()))
        }
        _ => "layout".into(),
    }
}
