//! Every unsupported value in every place, against a reference header parser.
use super::util::*;
use crate::cx::Cx;
use crate::samples;
use crate::sut::{self, Sets, R};
use crate::Meta;
use lunify::LunifyError as E;
use model::chunk::{self, Fmt, Proto, K};
use model::ops::*;

pub const META: Meta = Meta {
    id: "C23",
    level: "fault_enumeration",
    rule: "versions x all 64 formats x settings: every header byte x all 256 values, every pair of header bytes x boundary values; every signature byte x all 256 values, every signature length; every opcode value x instruction positions x functions x operand bits x layouts x widths; every constant type byte x positions x functions; judged by a reference header parser; non-trivial: an unsupported value reported precisely, or a supported one not reported",
    assumptions: &["when several values are unsupported any one of them may be reported", "the integral flag of Lua 5.1 and the Lua 5.0 test number are judged by C05"],
    run,
};

fn sets() -> Vec<(&'static str, Sets)> {
    let d = Sets::default();
    let mut sig = d.clone();
    sig.l50.sig = "\x1bLua50".into();
    sig.l51.sig = "é\u{1f40d}!".into();
    sig.out.sig = "\x1bOut".into();
    let mut same = d.clone();
    same.l50.sig = "x".into();
    same.l51.sig = "x".into();
    let mut pre = d.clone();
    pre.l50.sig = "\x1bLu".into();
    pre.l51.sig = "\x1bLuaJIT".into();
    let mut none = d.clone();
    none.l51.sig = "".into();
    none.l50.sig = "\x1bLua".into();
    let mut lay = d.clone();
    use Fld::*;
    lay.l50.layout = Layout([(A, 9), (B, 10), (C, 12), (O, 7)]);
    lay.l51.layout = Layout([(C, 8), (B, 8), (A, 7), (O, 8)]);
    let mut swap = d.clone();
    swap.l50.layout = LAYOUT51;
    swap.l51.layout = LAYOUT50;
    swap.l50.sig = "\x1bLua".into();
    vec![("default", d), ("signatures", sig), ("same signature", same), ("prefix signature", pre), ("empty signature", none), ("layouts", lay), ("swapped layouts", swap)]
}

/// What the reference says about a header: the causes to reject it for, empty
/// when everything in it is supported.
fn causes(b: &[u8], s: &Sets) -> Vec<E> {
    let mut bad = vec![];
    let mut any = false;
    for v in vers() {
        let side = s.input(v);
        let Some(r) = b.strip_prefix(side.sig.as_bytes()) else { continue };
        let Some(&ver) = r.first() else { continue };
        any = true;
        let own = if v == Ver::L50 { 0x50 } else { 0x51 };
        if ver != own {
            if ver == 0x50 || ver == 0x51 {
                // a supported version behind the signature of the other one
                bad.push(E::IncorrectSignature);
            }
            bad.push(E::UnsupportedVersion(ver));
            continue;
        }
        bad.clear();
        let mut i = 1;
        let mut next = || {
            i += 1;
            r.get(i - 1).copied()
        };
        let width = |x: u8| x == 4 || x == 8;
        let mut go = || -> Option<()> {
            if v == Ver::L51 {
                next()?;
            }
            let x = next()?;
            if x > 1 {
                bad.push(E::InvaildEndianness(x))
            }
            let x = next()?;
            if !width(x) {
                bad.push(E::UnsupportedIntegerWidth(x))
            }
            let x = next()?;
            if !width(x) {
                bad.push(E::UnsupportedSizeTWidth(x))
            }
            let x = next()?;
            if !width(x) {
                bad.push(E::UnsupportedInstructionWidth(x))
            }
            if v == Ver::L50 {
                let got = [next()?, next()?, next()?, next()?];
                let want = [Fld::O, Fld::A, Fld::B, Fld::C].map(|f| side.layout.size(f) as u8);
                if got != want {
                    bad.push(E::UnsupportedInstructionFormat(got))
                }
            }
            let x = next()?;
            if !width(x) {
                bad.push(E::UnsupportedNumberWidth(x))
            }
            Some(())
        };
        go();
        return bad;
    }
    if !any {
        bad.push(E::IncorrectSignature)
    }
    bad
}
fn is_header_error(e: &E) -> bool {
    matches!(
        e,
        E::IncorrectSignature
            | E::UnsupportedVersion(_)
            | E::InvaildEndianness(_)
            | E::UnsupportedIntegerWidth(_)
            | E::UnsupportedSizeTWidth(_)
            | E::UnsupportedInstructionWidth(_)
            | E::UnsupportedInstructionFormat(_)
            | E::UnsupportedNumberWidth(_)
    )
}

struct Case<'a> {
    cx: &'a Cx,
    i: usize,
    key: String,
    s: &'a Sets,
    fo: Fmt,
}
impl Case<'_> {
    /// Judge an input whose header was changed.
    fn header(&self, b: &[u8], what: &dyn Fn() -> String) -> bool {
        self.cx.eval();
        let want = causes(b, self.s);
        let r = sut::unify(b, &self.fo, self.s);
        let msg = match &r {
            R::Panic(p) => Some(format!("the conversion panicked: {p}")),
            R::Err(e) if want.is_empty() && is_header_error(e) => Some(format!("everything in the header is supported, but it is rejected with {e:?}")),
            R::Err(e) if !want.is_empty() && !want.contains(e) => Some(format!("rejected with {e:?} instead of {want:?}")),
            R::Ok(_) if !want.is_empty() => Some(format!("accepted instead of rejected with {want:?}")),
            _ => None,
        };
        if let Some(m) = msg {
            self.cx.bad(self.i, &format!("{}: {}", self.key, what()), &m, b, &self.fo, self.s, "");
            return false;
        }
        true
    }
    /// The input must be rejected with exactly this error, or, for `None`, not
    /// with an error of this kind.
    fn exact(&self, b: &[u8], want: Option<E>, kind: fn(&E) -> bool, what: &dyn Fn() -> String) -> bool {
        self.cx.eval();
        let r = sut::unify(b, &self.fo, self.s);
        let msg = match (&r, want) {
            (R::Panic(p), _) => Some(format!("the conversion panicked: {p}")),
            (R::Err(e), None) if kind(e) || is_header_error(e) => Some(format!("a supported value is rejected with {e:?}")),
            (R::Err(e), Some(w)) if *e != w => Some(format!("rejected with {e:?} instead of {w:?}")),
            (R::Ok(_), Some(w)) => Some(format!("accepted instead of rejected with {w:?}")),
            _ => None,
        };
        if let Some(m) = msg {
            self.cx.bad(self.i, &format!("{}: {}", self.key, what()), &m, b, &self.fo, self.s, "");
            return false;
        }
        true
    }
}

fn run(cx: &Cx) {
    let mut work = vec![];
    for (sn, s) in sets() {
        for v in vers() {
            for f in Fmt::all() {
                if s.input(v).layout.total() > 8 * f.ins as u32 {
                    continue;
                }
                work.push((sn, s.clone(), v, f));
            }
        }
    }
    cx.par(&work, |i, (sn, s, v, f)| {
        let (v, side) = (*v, s.input(*v));
        let fo = Fmt { size_t: 12 - f.size_t, ins: 8, ..*f };
        let c = Case { cx, i, key: format!("{sn}/{v:?}/{}", short(f)), s, fo };
        let p = samples::adapt(&samples::rich(v, side), f);
        let (input, marks) = chunk::write_marked(v, f, side, &p);
        if !c.exact(&input, None, |_| true, &|| "complete".into()) {
            return;
        }
        let n = side.sig.len();
        let body = n + if v == Ver::L50 { 11 } else { 8 };
        let whole = cx.thorough || (f.int == 4 && f.num == 8 && f.ins == 4);
        let mut q = input.clone();
        // single bytes of the header and of the signature
        for at in 0..body {
            for x in 0..=255u8 {
                q[at] = x;
                if !c.header(&q, &|| format!("byte {at} is {x}")) {
                    return;
                }
            }
            q[at] = input[at];
        }
        cx.add("header bytes", body as u64 * 256);
        // pairs of bytes
        let vals = [0u8, 1, 2, 3, 4, 5, 6, 8, 9, 0x50, 0x51, 255];
        if whole {
            for a in n..body {
                for b in a + 1..body {
                    for x in vals {
                        for y in vals {
                            (q[a], q[b]) = (x, y);
                            if !c.header(&q, &|| format!("bytes {a} and {b} are {x} and {y}")) {
                                return;
                            }
                        }
                    }
                    (q[a], q[b]) = (input[a], input[b]);
                }
            }
            cx.count("formats with pairs of header bytes");
        }
        // operand sizes of Lua 5.0 in every order
        if v == Ver::L50 {
            let at = n + 5;
            let o: Vec<u8> = input[at..at + 4].to_vec();
            for k in 0..256usize {
                for d in [0u8, 1, 255] {
                    for j in 0..4 {
                        q[at + j] = o[k >> (2 * j) & 3].wrapping_add(if j == k & 3 { d } else { 0 });
                    }
                    if !c.header(&q, &|| format!("operand sizes {:?}", &q[at..at + 4])) {
                        return;
                    }
                }
            }
            q[at..at + 4].copy_from_slice(&o);
        }
        // signatures of another length
        for k in 0..n {
            let mut z = side.sig.as_bytes()[..k].to_vec();
            z.extend(&input[n..]);
            if !c.header(&z, &|| format!("only {k} bytes of the signature")) {
                return;
            }
            if !c.header(&input[..k], &|| format!("nothing but {k} bytes of the signature")) {
                return;
            }
        }
        for x in [&b"\x1b"[..], b"\x1bLua", b"\0", b"\xef\xbb\xbf", b"#!/usr/bin/lua\n", b"return 1", b"PQ", b"QP"] {
            let mut z = x.to_vec();
            z.extend(&input);
            if !s.l50.sig.is_empty() && !s.l51.sig.is_empty() && !c.header(&z, &|| format!("preceded by {x:?}")) {
                return;
            }
        }
        cx.seen(&(sn, v, f, "header"));
        cx.sample(|| format!("{}: every byte of a {body} byte header and signature set to every value", c.key));
        // constant types
        for &(at, _, what) in &marks {
            if what != "constant type" {
                continue;
            }
            for x in 0..=255u8 {
                q[at] = x;
                let want = (![0, 1, 3, 4].contains(&x)).then_some(E::InvalidConstantType(x));
                if want.is_none() && x != input[at] {
                    continue; // the rest is read differently
                }
                if !c.exact(&q, want, |e| matches!(e, E::InvalidConstantType(_)), &|| format!("constant type {x} at byte {at}")) {
                    return;
                }
            }
            q[at] = input[at];
            cx.count("places of constant types");
        }
        // opcodes
        opcodes(&c, v, f, side, &p);
    });
    // instructions in wider layouts
    let mut work = vec![];
    use Fld::*;
    for l in [
        LAYOUT50,
        LAYOUT51,
        Layout([(O, 6), (A, 7), (B, 8), (C, 8)]),
        Layout([(O, 7), (A, 8), (B, 8), (C, 9)]),
        Layout([(A, 8), (O, 8), (B, 8), (C, 8)]),
        Layout([(A, 7), (C, 9), (B, 9), (O, 7)]),
        Layout([(C, 12), (B, 12), (A, 20), (O, 10)]),
        Layout([(O, 31), (A, 8), (B, 9), (C, 9)]),
        Layout([(B, 9), (C, 9), (O, 31), (A, 15)]),
        Layout([(A, 30), (O, 16), (C, 9), (B, 9)]),
    ] {
        for v in vers() {
            for ins in [4, 8] {
                for little in [true, false] {
                    for flush in [50, 32] {
                        if l.total() <= 8 * ins as u32 {
                            work.push((l, v, Fmt { ins, little, ..Fmt::NATIVE }, flush))
                        }
                    }
                }
            }
        }
    }
    cx.par(&work, |i, &(l, v, f, flush)| {
        let mut s = Sets::default();
        s.l50.layout = l;
        s.l51.layout = l;
        s.out.flush = flush;
        let c = Case { cx, i: 100_000 + i, key: format!("{l:?}/{v:?}/{}/{flush}", short(&f)), s: &s, fo: Fmt { size_t: 4, ins: 8, ..f } };
        opcodes(&c, v, &f, s.input(v), &samples::rich(v, s.input(v)));
    });
    supported(cx);
}

fn opcodes(c: &Case, v: Ver, f: &Fmt, side: &Side, p: &Proto) {
    let ops = v.ops().len() as u64;
    let max = side.layout.fmax(Fld::O);
    let vals: Vec<u64> = (0..=max.min(255)).chain([256, 512, 1 << 10, 1 << 15, 1 << 16, 1 << 30, max - 1, max].into_iter().flat_map(|x| [x, x + 1, x + 3])).filter(|&x| x <= max).collect();
    let lay = &side.layout;
    let (po, so) = lay.pos(Fld::O);
    let mask = ((1u64 << so) - 1) << po;
    let all = if lay.total() == 64 { u64::MAX } else { (1 << lay.total()) - 1 };
    let n = p.code.len();
    // (path, position)
    let places: [(&[usize], usize); 6] = [(&[], 0), (&[], n / 2), (&[], n - 1), (&[0], 0), (&[0, 0], 0), (&[1], 0)];
    for (path, pc) in places {
        for &x in &vals {
            // invalid opcodes carry any operands; valid ones the original ones or none
            for bits in [0, all, 0x5555_5555_5555_5555 & all] {
                let mut q = p.clone();
                let mut z = &mut q;
                for &k in path {
                    z = &mut z.p[k]
                }
                z.code[pc] = bits & !mask | x << po;
                let b = chunk::write(v, f, side, &q);
                let want = (x >= ops).then_some(E::InvalidOpcode(x));
                if !c.exact(&b, want, |e| matches!(e, E::InvalidOpcode(_)), &|| format!("opcode {x} at {path:?}:{pc} with operands {bits:#x}")) {
                    return;
                }
            }
        }
        c.cx.count("places of opcodes");
    }
    c.cx.seen(&c.key);
}

/// Everything that is supported, together: the whole product is accepted.
fn supported(cx: &Cx) {
    let ks = [K::Nil, K::Bool(false), K::Bool(true), K::Flt(3.0), K::s("x"), K::Str(vec![])];
    let mut work = vec![];
    for v in vers() {
        for f in Fmt::all() {
            for format in if v == Ver::L51 { 0..=255u8 } else { 0..=0 } {
                work.push((v, Fmt { format, ..f }));
            }
        }
    }
    cx.par(&work, |i, &(v, f)| {
        let s = Sets::default();
        let ks = &ks;
        let c = Case { cx, i: 200_000 + i, key: format!("supported/{v:?}/{}", short(&f)), s: &s, fo: Fmt { size_t: 12 - f.size_t, ..f } };
        let side = s.input(v);
        let e = |c: Canon| encode(v, side, &c).unwrap();
        for a in ks {
            for b in ks {
                let q = Proto {
                    code: vec![e(Canon { op: Op::LoadK, a: Some(0), x: Arg::N(1), y: Arg::No }), e(Canon { op: Op::Return, a: Some(0), x: Arg::N(1), y: Arg::No })],
                    k: vec![a.clone(), b.clone()],
                    lines: vec![1, 2],
                    ..samples::rich(v, side)
                };
                let b = chunk::write(v, &f, side, &samples::adapt(&q, &f));
                cx.eval();
                let r = sut::unify(&b, &c.fo, &s);
                if !matches!(r, R::Ok(_)) {
                    cx.bad(c.i, &c.key, &format!("a chunk with supported values only is rejected: {}", r.brief()), &b, &c.fo, &s, "");
                    return;
                }
            }
        }
        cx.count("supported headers");
        cx.seen(&(v, f, "supported"));
    });
}
