//! Names and constants that the conversion adds.
use crate::behave::{Case, Jobs};
use crate::cx::Cx;
use crate::sut::Sets;
use crate::Meta;
use model::chunk::{Proto, K};
use model::ops::*;
use model::product::Cfg;

pub const META: Meta = Meta {
    id: "C22",
    level: "model_checking",
    rule: "loops at every position of a function x every subset of clashing constants (the names the unmodified conversion would pick, and their successors) used by the program as globals and as data x nestings; constants that resemble the shared ones (names with extra bytes, nil, booleans, numbers); runs of up to 1000 taken names at distances up to 65 533 instructions and functions large in one dimension; constants and the names stored to are compared on the output, and the programs are explored with the clashing globals observed; non-trivial: more than one observable event",
    assumptions: &["the globals `type` and `next` are the stock ones", "names used only by other functions of the chunk are out of scope"],
    run,
};

fn cfg() -> Cfg {
    use model::product::{one, Ans::*};
    Cfg {
        it: vec![one(Nil), one(Num(1.0)), vec![Num(2.0), Num(22.0)]],
        num: vec![one(Num(0.0)), one(Num(2.0))],
        presets: vec![("tab", List(vec![Num(5.0), Num(6.0)]))],
        ignore_n: true,
        max_states: 150,
        max_events: 16,
        ..Cfg::default()
    }
}

fn added(p: &Proto, q: &Proto, side: &Side, path: &str) -> Option<String> {
    if q.k.len() < p.k.len() || p.k.iter().zip(&q.k).any(|(a, b)| !a.same(b)) {
        return Some(format!("function {path}: constants {:?} became {:?}", p.k, q.k));
    }
    for (pc, &w) in q.code.iter().enumerate() {
        let Some(c) = canon(Ver::L51, side, w) else { continue };
        if let (Op::SetGlobal | Op::GetGlobal | Op::LoadK, Arg::N(k)) = (c.op, c.x) {
            if k >= p.k.len() as u64 {
                let Some(v) = q.k.get(k as usize) else { return Some(format!("function {path}: instruction {pc} uses constant {k} of {}", q.k.len())) };
                if c.op == Op::SetGlobal {
                    if p.k.iter().any(|x| x == v) {
                        return Some(format!("function {path}: instruction {pc} stores to {v:?}, a name of the program"));
                    }
                }
                if c.op != Op::LoadK && !matches!(v, K::Str(_)) {
                    return Some(format!("function {path}: instruction {pc} uses {v:?} as a name"));
                }
            }
        }
    }
    p.p.iter().zip(&q.p).enumerate().find_map(|(i, (a, b))| added(a, b, side, &format!("{path}.{i}")))
}

fn names(q: &Proto, p: &Proto, out: &mut Vec<String>) {
    for k in q.k.iter().skip(p.k.len()) {
        if let K::Str(s) = k {
            let s = String::from_utf8_lossy(&s[..s.len() - 1]).into_owned();
            if s.contains("lunify") && !out.contains(&s) {
                out.push(s)
            }
        }
    }
    for (a, b) in q.p.iter().zip(&p.p) {
        names(a, b, out)
    }
}

/// Put a global name into the constants under which the program uses it. The
/// nested functions use the names too: names that are used only by other
/// functions are not covered.
fn rename(p: &Proto, map: &[(String, String)]) -> Proto {
    let mut q = p.clone();
    for (from, _) in map {
        if !q.k.iter().any(|k| k.same(&K::s(from))) {
            q.k.push(K::s(from))
        }
    }
    for k in &mut q.k {
        if let K::Str(s) = k {
            let n = String::from_utf8_lossy(&s[..s.len() - 1]).into_owned();
            if let Some((_, to)) = map.iter().find(|m| m.0 == n) {
                *k = K::s(to)
            }
        }
    }
    q.p = p.p.iter().map(|x| rename(x, map)).collect();
    q
}

fn run(cx: &Cx) {
    let t = cx.thorough;
    let bodies = [
        "for i = 1, 2 do emit(i) %X end",
        "for i = num(), 2 do for j = 1, i do emit(i, j) end %X end",
        "for k in tab do emit(k) %X end",
        "for k, v in tab do for i = 1, 2 do emit(k, v, i) %X end end",
        "for k in tab do for l in tab do emit(k, l) end %X end",
        "for i = 1, 2 do for k, v in it do for j = 1, 2 do emit(i, k, v, j) %X end end end",
        "local function f() for i = 1, 2 do emit(i) %X end end f() for i = 1, 2 do f() end",
        "for i = 1, 2 do local a, b = i, 7 %X emit(a, b) end",
    ];
    // the first free global names stand for the clashing ones
    let uses = [
        "",
        "emit(N0, N1)",
        "N0 = 1 N1 = 2",
        "local u = \"N0\" emit(u, N1)",
        "N0 = val(3) emit({N0 = 4, \"N1\"})",
    ];
    let pads: Vec<String> = (0..if t { 40 } else { 12 }).map(|n| "x = x ".to_string().repeat(n)).collect();
    let sets = Sets::default();
    let mut work = vec![];
    for b in bodies {
        for u in uses {
            for pad in &pads {
                for after in ["", "emit(N0, N1, N2)"] {
                    work.push(format!("local x = 1 {pad}N0 = 11 N1 = 12 {} {after} emit(x)", b.replace("%X", u)));
                }
            }
        }
    }
    let mut j = Jobs::new(Ver::L50, sets.clone(), cfg());
    for s in &work {
        j.add("plain", s.clone());
    }
    // names that the conversion picks for this very program
    for s in &work {
        let Ok(p) = model::gen::comp(&model::parse::parse(s), Ver::L50, &sets.l50) else { continue };
        let c = Case::new(0, String::new(), Ver::L50, sets.clone());
        let Some((_, crate::sut::R::Ok(o))) = crate::behave::convert(cx, &c, &p) else { continue };
        let Ok((_, q)) = model::chunk::read(Ver::L51, &sets.out, &o) else { continue };
        let mut picked = vec![];
        names(&q, &p, &mut picked);
        picked.truncate(if t { 6 } else { 4 });
        let mut pool: Vec<String> = picked.clone();
        for n in &picked {
            if let Some(stem) = n.strip_suffix("_0") {
                pool.push(format!("{stem}_1"));
            }
        }
        // every ordered choice of up to two of them for N0 and N1
        for a in &pool {
            for b in &pool {
                if a != b {
                    let map = [("N0".to_string(), a.clone()), ("N1".to_string(), b.clone())];
                    j.raw("clash", format!("N0={a} N1={b}: {s}"), rename(&p, &map));
                }
            }
        }
        // more than two: a chain of successors
        if let Some(stem) = picked.first().and_then(|n| n.strip_suffix("_0")) {
            let mut q = p.clone();
            for i in 0..if t { 40 } else { 14 } {
                q.k.push(K::s(&format!("{stem}_{i}")));
                let mut r = q.clone();
                r.k.push(K::s(&format!("{stem}_{}", i + 2)));
                j.raw("chain", format!("{stem}_0..{i}: {s}"), q.clone());
                j.raw("chain", format!("{stem}_0..{i}, {}: {s}", i + 2), r);
            }
        }
        // the constants the expansions share
        for extra in [vec![K::s("type")], vec![K::s("table"), K::s("next")], vec![K::Nil], vec![K::s("next"), K::Nil, K::s("type"), K::s("table")]] {
            let mut q = p.clone();
            q.k.extend(extra.clone());
            j.raw("shared", format!("with {extra:?}: {s}"), q);
        }
    }
    // constants that resemble the ones the expansions share
    super::c10::extras(&mut j, &["local a = 1 %L emit(a)", "local function f() for i = 1, 2 do %L end end f() emit(\"next\", nil)"]);
    for s in super::c10::near() {
        for l in ["for k, v in tab do emit(k, v) end", "for k in it do emit(k) end"] {
            let p = model::gen::comp(&model::parse::parse(&format!("local a = 1 {l} emit(a)")), Ver::L50, &sets.l50).expect("harness: compiles");
            for name in [format!("{s}\0"), s.clone(), format!("\0{s}")] {
                let mut q = p.clone();
                q.k.push(K::s(&name));
                j.raw("near", format!("with {name:?}: {l}"), q);
            }
        }
    }
    // runs of names that are taken, at any distance from the start, and in
    // large functions
    j.cfg(crate::large::cfg(cfg()));
    for (i, pad) in [0usize, 1, 5, 90, 95, 99, 100, 250, 255, 256, 900, 990, 998, 1000, 1020, 4090, 9990, 32_760, 65_530].into_iter().enumerate() {
        for extra in 0..4 {
            for l in ["for i = 1, 2 do emit(i) end for i = 1, 2 do emit(i) end", "for k in tab do emit(k) end for i = 1, 2 do emit(i) end"] {
                let s = format!("local x = 1 {}{l} emit(x)", "x = x ".repeat(pad + extra));
                let Ok(p) = model::gen::comp(&model::parse::parse(&s), Ver::L50, &sets.l50) else { continue };
                let c = Case::new(0, String::new(), Ver::L50, sets.clone());
                let Some((_, crate::sut::R::Ok(o))) = crate::behave::convert(cx, &c, &p) else { continue };
                let Ok((_, q)) = model::chunk::read(Ver::L51, &sets.out, &o) else { continue };
                let mut picked = vec![];
                names(&q, &p, &mut picked);
                let desc = format!("{l} after {} instructions", pad + extra);
                j.raw("distance", desc.clone(), p.clone());
                for stem in picked.iter().take(2).filter_map(|n| n.strip_suffix("_0")) {
                    for n in [1usize, 2, 9, 10, 11, 12, 99, 100, 101, 255, 256, 257, 300, 1000] {
                        if (n > 12 && i % 6 != 0) || (n > 300 && i != 0) {
                            continue;
                        }
                        let mut q = p.clone();
                        q.k.extend((0..n).map(|i| K::s(&format!("{stem}_{i}"))));
                        j.raw("run", format!("{stem}_0 to {} taken: {desc}", n - 1), q);
                    }
                }
            }
        }
    }
    crate::large::deep(&mut j, cfg(), &[(32, 50), (2, 3)], &["for i = 1, 2 do emit(i) end for k in tab do emit(k) end"], t);
    crate::large::add(
        &mut j,
        cfg(),
        &[(32, 50), (2, 3)],
        &["for i = 1, 2 do emit(i) end % for i = 1, 2 do emit(i) end for k in tab do emit(k) end", "for k in tab do emit(k) end for i = 1, 2 do % emit(i, y) end"],
        t,
    );
    j.run(cx, |c, src, p, q| {
        if let Some(d) = added(p, q, &c.sets.out, "0") {
            cx.violation(c.order, c.key.clone(), d.clone(), format!("property: C22\n{}\n{d}\nsource:\n{src}\n", c.sets.describe()))
        }
    });
}
