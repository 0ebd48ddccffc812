//! Strings survive byte for byte.
use super::util::*;
use crate::cx::Cx;
use crate::oracle;
use crate::samples;
use crate::sut::{self, Sets, R};
use crate::Meta;
use model::chunk::{self, Fmt, Proto, K};
use model::ops::*;

pub const META: Meta = Meta {
    id: "C04",
    level: "exploration",
    rule: "every single byte, all words of length <= 3 over {0,1,'A',0x7f,0x80,0xc3,0xa9,0xff}, every length 0..300 and lengths around 2^8, 2^12, 2^16, 2^20 and 2^24, multi byte codes (whole and broken) at the ends and in the middle of strings of any length, in every string position, version, byte order and size_t width; every assignment of four strings to seven related places (sources of nested functions, constants, names); non-trivial: the stored bytes were compared",
    assumptions: &[],
    run,
};

pub fn words(thorough: bool) -> Vec<Vec<u8>> {
    let mut w: Vec<Vec<u8>> = vec![vec![]];
    for b in 0..=255u8 {
        w.push(vec![b]);
        w.push(vec![b'x', b, 0]);
    }
    let al = [0, 1, b'A', 0x7f, 0x80, 0xc3, 0xa9, 0xff];
    let mut cur: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..if thorough { 4 } else { 3 } {
        cur = cur
            .iter()
            .flat_map(|x| {
                al.iter().map(move |&b| {
                    let mut y = x.clone();
                    y.push(b);
                    y
                })
            })
            .collect();
        w.extend(cur.clone());
    }
    // every pair of bytes that could be taken for (or become) a multi byte code
    for a in (0x7e..=0xffu8).step_by(if thorough { 1 } else { 3 }) {
        for b in (0x7e..=0xffu8).step_by(if thorough { 1 } else { 5 }) {
            w.push(vec![a, b, 0]);
        }
    }
    for n in 0..=300usize {
        let mut s: Vec<u8> = (0..n).map(|i| (i * 7 + 1) as u8 | 1).collect();
        s.push(0);
        w.push(s);
    }
    for n in [4095, 4096, 65534, 65535, 65536, 70000] {
        w.push((0..n).map(|i| (i % 251) as u8).collect());
    }
    w.sort();
    w.dedup();
    w.sort_by_key(|x| x.len());
    w
}

/// Strings of any length that are valid in some multi byte encoding, or
/// nearly so.
fn multibyte(thorough: bool) -> Vec<Vec<u8>> {
    let codes: [&[u8]; 10] = [
        "\u{e9}".as_bytes(),
        "\u{20ac}".as_bytes(),
        "\u{1f600}".as_bytes(),
        "\u{80}".as_bytes(),
        "\u{feff}".as_bytes(),
        &[0xc3],
        &[0xe2, 0x82],
        &[0xc0, 0x80],
        &[0xed, 0xa0, 0x80],
        &[0x80],
    ];
    let mut lens: Vec<usize> = (0..=12).collect();
    for m in [16, 24, 32, 48, 64, 100, 128, 200, 256, 512, 1024, 4096] {
        lens.extend(m - 4..=m + 2);
    }
    if thorough {
        lens.extend(0..=520);
    }
    lens.sort();
    lens.dedup();
    let mut v = vec![];
    for c in codes {
        for &n in &lens {
            let pad: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
            v.push([c, &pad, &[0]].concat());
            v.push([&pad, c, &[0]].concat());
            v.push([&pad, c].concat());
            v.push([&pad[..n / 2], c, &pad[n / 2..], c, &[0]].concat());
            v.push([&c.repeat(n + 1)[..], &[0]].concat());
            v.push([&pad[..n % 4], &c.repeat(n / 2 + 1)[..], &[0]].concat());
        }
    }
    v.sort();
    v.dedup();
    v
}

fn place(base: &Proto, pos: usize, w: &[u8]) -> Proto {
    let mut p = base.clone();
    match pos {
        0 => p.source = w.to_vec(),
        1 => p.k[0] = K::Str(w.to_vec()),
        2 => p.locals[0].name = w.to_vec(),
        3 => p.p[0].upnames[1] = w.to_vec(),
        4 => p.p[0].source = w.to_vec(),
        5 => p.p[0].k.push(K::Str(w.to_vec())),
        6 => {
            // next to equal and slightly different strings
            let mut a = w.to_vec();
            a.push(0);
            let mut b = w.to_vec();
            b.push(0x80);
            p.k = vec![K::Str(w.to_vec()), K::Str(a.clone()), K::Str(w.to_vec()), K::Str(b), K::Str(a)]
        }
        _ => p.p[0].locals[0].name = w.to_vec(),
    }
    p
}

fn run(cx: &Cx) {
    relations(cx, 10_000_000);
    let s = Sets::default();
    let ws = words(cx.thorough);
    cx.add("strings", ws.len() as u64);
    let bases = vers().map(|v| (v, samples::rich(v, s.input(v))));
    let mut items = vec![];
    for w in &ws {
        for pos in 0..8 {
            items.push((w, pos, false));
        }
    }
    let multi = multibyte(cx.thorough);
    cx.add("strings with multi byte codes", multi.len() as u64);
    for w in &multi {
        for pos in 0..8 {
            items.push((w, pos, true));
        }
    }
    let huge: Vec<Vec<u8>> = [(1usize << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 3]
        .iter()
        .map(|n| (0..*n).map(|i| (i % 251) as u8).collect())
        .collect();
    for w in &huge {
        for pos in [0, 1, 3, 7] {
            items.push((w, pos, true));
        }
    }
    let fmts: Vec<Fmt> = Fmt::all().into_iter().filter(|f| f.int == 4 && f.ins == 4 && f.num == 8 && !f.integral).collect();
    cx.par(&items, |i, (w, pos, few)| {
        for (v, base) in &bases {
            let p = place(base, *pos, w);
            let e = match v {
                Ver::L50 => expect50(&p, &s.l50, &s.out).unwrap(),
                Ver::L51 => p.clone(),
            };
            for fi in &fmts {
                for fo in &fmts {
                    if *v == Ver::L51 && fi == fo {
                        continue;
                    }
                    if *few && (fi != &fmts[0] || fo == fi || w.len() < 1 << 17 && fo != &fmts[1]) {
                        continue;
                    }
                    let input = chunk::write(*v, fi, s.input(*v), &p);
                    cx.eval();
                    let key = format!("{v:?}/position {pos}/{:02x?}({} bytes)/{}->{}", &w[..w.len().min(8)], w.len(), short(fi), short(fo));
                    match sut::unify(&input, fo, &s) {
                        R::Ok(o) => match chunk::read(Ver::L51, &s.out, &o) {
                            Ok((_, q)) => {
                                cx.seen(&key);
                                let mut e2 = e.clone();
                                if *v == Ver::L50 {
                                    copy_last(&mut e2, &q)
                                }
                                if let Some(d) = oracle::differ_data(&e2, &q, "main").or_else(|| oracle::differ_data(&e2.p[0], &q.p[0], "main.0")) {
                                    cx.bad(i, &key, &d, &input, fo, &s, "");
                                } else {
                                    cx.sample(|| format!("{key}: stored bytes equal"))
                                }
                            }
                            Err(x) => cx.bad(i, &key, &format!("output does not decode: {x}"), &input, fo, &s, ""),
                        },
                        r => cx.bad(i, &key, &format!("not converted: {}", r.brief()), &input, fo, &s, ""),
                    }
                }
            }
        }
    });
}
/// Every combination of equal and different strings in related places.
fn relations(cx: &Cx, order: usize) {
    let s = Sets::default();
    let words: [&[u8]; 4] = [b"", b"\0", b"x\0", b"=x\0"];
    let n = 7u32;
    let items: Vec<usize> = (0..words.len().pow(n)).collect();
    let bases = vers().map(|v| (v, samples::rich(v, s.input(v))));
    let fmts = [Fmt::NATIVE, samples::NATIVE4, Fmt { little: false, int: 8, ..Fmt::NATIVE }];
    cx.par(&items, |i, &code| {
        let w = |k: u32| words[code / words.len().pow(k) % words.len()].to_vec();
        for (v, base) in &bases {
            let mut p = base.clone();
            p.source = w(0);
            p.k[0] = K::Str(w(1));
            p.locals[0].name = w(2);
            p.p[0].source = w(3);
            p.p[0].k[0] = K::Str(w(4));
            p.p[0].upnames[1] = w(5);
            p.p[0].upnames[0] = w(2);
            p.p[0].locals[0].name = w(5);
            p.p[0].p[0].source = w(6);
            p.p[1].source = w(6);
            let e = match v {
                Ver::L50 => expect50(&p, &s.l50, &s.out).unwrap(),
                Ver::L51 => p.clone(),
            };
            for (fi, fo) in [(&fmts[0], &fmts[0]), (&fmts[1], &fmts[0]), (&fmts[0], &fmts[2]), (&fmts[2], &fmts[1])] {
                if *v == Ver::L51 && fi == fo {
                    continue;
                }
                let input = chunk::write(*v, fi, s.input(*v), &p);
                cx.eval();
                let key = format!("{v:?}/relations {code}/{}->{}", short(fi), short(fo));
                let d = match sut::unify(&input, fo, &s) {
                    R::Ok(o) => match chunk::read(Ver::L51, &s.out, &o) {
                        Ok((_, q)) => {
                            cx.seen(&key);
                            let mut e2 = e.clone();
                            if *v == Ver::L50 {
                                copy_last(&mut e2, &q)
                            }
                            deep(&e2, &q, "main")
                        }
                        Err(x) => Some(format!("output does not decode: {x}")),
                    },
                    r => Some(format!("not converted: {}", r.brief())),
                };
                if let Some(d) = d {
                    cx.bad(order + i, &key, &d, &input, fo, &s, "");
                }
            }
        }
    });
}
/// The first difference in the data of two trees.
fn deep(a: &Proto, b: &Proto, path: &str) -> Option<String> {
    oracle::differ_data(a, b, path).or_else(|| {
        if a.p.len() != b.p.len() {
            return Some(format!("{path}: {} functions instead of {}", b.p.len(), a.p.len()));
        }
        a.p.iter().zip(&b.p).enumerate().find_map(|(i, (x, y))| deep(x, y, &format!("{path}.{i}")))
    })
}
/// Lua 5.0 has no last line: nothing is required of it.
pub fn copy_last(e: &mut Proto, g: &Proto) {
    e.last_line = g.last_line;
    for (a, b) in e.p.iter_mut().zip(&g.p) {
        copy_last(a, b)
    }
}
