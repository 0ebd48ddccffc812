//! Layout specifications.
use crate::cx::Cx;
use crate::samples;
use crate::sut::{self, guarded, Sets, R};
use crate::Meta;
use lunify::{InstructionLayout, LunifyError, OperandType};
use model::chunk::{self, Fmt};
use model::ops::*;

pub const META: Meta = Meta {
    id: "C07",
    level: "exploration",
    rule: "all 256 sequences of four operand kinds x all combinations of boundary sizes; every accepted layout of a smaller size set is used for input and for output; non-trivial: verdict compared with the rule, placement decoded",
    assumptions: &["the documented limits: opcode >= 6, A >= 7, B and C >= 8, each below 32, B and C adjacent, at most 64 bits"],
    run,
};

fn usable(s: &[(Fld, u64); 4]) -> bool {
    let at = |f: Fld| s.iter().position(|x| x.0 == f);
    let (Some(o), Some(a), Some(b), Some(c)) = (at(Fld::O), at(Fld::A), at(Fld::B), at(Fld::C)) else { return false };
    let ok = |i: usize, min: u64| s[i].1 >= min && s[i].1 < 32;
    ok(o, 6) && ok(a, 7) && ok(b, 8) && ok(c, 8) && b.abs_diff(c) == 1 && s.iter().map(|x| x.1).sum::<u64>() <= 64
}

fn run(cx: &Cx) {
    let sizes: Vec<u64> = if cx.thorough {
        (0..=34).chain([48, 63, 64, 65, 255, 256, 1 << 32, u64::MAX]).collect()
    } else {
        vec![0, 1, 5, 6, 7, 8, 9, 10, 16, 17, 18, 25, 26, 30, 31, 32, 33, 64, u64::MAX]
    };
    let kinds = [Fld::O, Fld::A, Fld::B, Fld::C];
    let mut seqs = vec![];
    for i in 0..256usize {
        let k = [kinds[i & 3], kinds[i >> 2 & 3], kinds[i >> 4 & 3], kinds[i >> 6]];
        for &x in &sizes {
            seqs.push((k, x))
        }
    }
    let ot = |f: Fld, n: u64| match f {
        Fld::O => OperandType::Opcode(n),
        Fld::A => OperandType::A(n),
        Fld::B => OperandType::B(n),
        Fld::C => OperandType::C(n),
    };
    let base51 = samples::rich(Ver::L51, &Side::def51());
    cx.par(&seqs, |i, (k, x)| {
        let distinct = (0..4).all(|a| (0..a).all(|b| k[a] != k[b]));
        for &y in &sizes {
            for &z in &sizes {
                for &w in &sizes {
                    if !distinct && !cx.thorough && (w > 33 || z > 33) {
                        continue;
                    }
                    let s = [(k[0], *x), (k[1], y), (k[2], z), (k[3], w)];
                    cx.eval();
                    let spec = s.map(|(f, n)| ot(f, n));
                    let key = format!("{s:?}");
                    let r = guarded(|| InstructionLayout::from_specification(spec));
                    let want = usable(&s);
                    let what = match &r {
                        Err(p) => Some(format!("panicked: {p}")),
                        Ok(Ok(_)) if !want => Some("an unusable layout is accepted".into()),
                        Ok(Err(e)) if want => Some(format!("a usable layout is rejected: {e:?}")),
                        Ok(Err(e)) if *e != LunifyError::InvalidInstructionLayout => Some(format!("rejected with {e:?}")),
                        _ => None,
                    };
                    if let Some(m) = what {
                        cx.violation(i, key, m.clone(), format!("layout specification {s:?} (least significant first): {m}\n"));
                        continue;
                    }
                    if want {
                        cx.seen(&key);
                        cx.count("usable");
                        let small = s.iter().all(|x| [6, 7, 8, 9, 10, 16, 17, 18, 25, 26, 31].contains(&x.1));
                        if small {
                            placed(cx, i, &Layout(s.map(|(f, n)| (f, n as u32))), &base51)
                        }
                    }
                }
            }
        }
    });
}

/// Write with the layout, read with the layout, through the real conversion.
fn placed(cx: &Cx, order: usize, l: &Layout, base: &chunk::Proto) {
    let ins = if l.total() > 32 { 8 } else { 4 };
    let mut s = Sets::default();
    s.out.layout = *l;
    let fo = Fmt { ins, ..Fmt::NATIVE };
    let input = chunk::write(Ver::L51, &samples::NATIVE4, &s.l51, base);
    cx.eval();
    let key = format!("use {l:?}");
    let bad = |w: &str, f: &Fmt, s: &Sets, input: &[u8]| cx.bad(order, &key, w, input, f, s, "");
    let e = match crate::oracle::expect51(base, &s.l51, &s.out, &fo) {
        Ok(e) => e,
        Err(why) => {
            let r = sut::unify(&input, &fo, &s);
            if !crate::oracle::unrepresentable(&r, &why) {
                bad(&format!("operands do not fit this layout: {}", r.brief()), &fo, &s, &input)
            }
            return;
        }
    };
    let words = match sut::unify(&input, &fo, &s) {
        R::Ok(o) => match chunk::read(Ver::L51, &s.out, &o) {
            Ok((_, q)) => q,
            Err(e) => return bad(&format!("output in this layout does not decode: {e}"), &fo, &s, &input),
        },
        r => return bad(&format!("no output in this layout: {}", r.brief()), &fo, &s, &input),
    };
    if let Some(d) = crate::oracle::differ(&e, &words, &s.out, "main") {
        return bad(&format!("operands are not where the layout puts them: {d}"), &fo, &s, &input);
    }
    // and back
    let mut t = Sets::default();
    t.l51.layout = *l;
    let input = chunk::write(Ver::L51, &fo, &t.l51, &e);
    cx.eval();
    match sut::unify(&input, &samples::NATIVE4, &t) {
        R::Ok(o) => match chunk::read(Ver::L51, &t.out, &o) {
            Ok((_, q)) => {
                if let Some(d) = crate::oracle::differ(base, &q, &t.out, "main") {
                    bad(&format!("input in this layout is misread: {d}"), &samples::NATIVE4, &t, &input)
                } else {
                    cx.count("layouts used");
                    cx.sample(|| format!("{l:?}: {} instructions written and read back", e.code.len()))
                }
            }
            Err(x) => bad(&format!("output does not decode: {x}"), &samples::NATIVE4, &t, &input),
        },
        r => bad(&format!("input in this layout is not converted: {}", r.brief()), &samples::NATIVE4, &t, &input),
    }
}
