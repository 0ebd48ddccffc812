//! Histories and interleavings of conversions.
use super::util::*;
use crate::cx::{hash64, Cx};
use crate::samples;
use crate::sched::Sched;
use crate::sut::{self, Sets, R};
use crate::Meta;
use lunify::{Format, Settings};
use model::chunk::{self, Fmt, Proto, K};
use model::gen;
use model::ops::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub const META: Meta = Meta {
    id: "C21",
    level: "model_checking",
    rule: "all sequences up to a length of conversions (of every kind: versions, settings, formats, errors at every stage), each in a fresh process and again in processes with a history, compared with the result of the first conversion of a fresh process; conversions of functions with many constants, functions and records among them; long repetitions of one or two of them; all pairs of conversions that differ in a single format field, setting or input byte, given at the same addresses; all interleavings of two conversions with two preemptions at any memory allocation; non-trivial: a history with at least two conversions, or a schedule with a preemption inside a conversion",
    assumptions: &["threads can only be preempted where the conversion allocates memory"],
    run,
};

struct Action {
    name: &'static str,
    input: Vec<u8>,
    fo: Fmt,
    sets: Sets,
}
fn actions() -> Vec<Action> {
    let d = Sets::default();
    let n4 = samples::NATIVE4;
    let mut o = vec![];
    let comp = |v: Ver, s: &Sets, src: &str| gen::comp(&model::parse::parse(src), v, s.input(v)).unwrap();
    let mut add = |name: &'static str, v: Ver, fi: Fmt, p: &Proto, fo: Fmt, s: &Sets, change: &dyn Fn(&mut Vec<u8>)| {
        let mut input = chunk::write(v, &fi, s.input(v), &samples::adapt(p, &fi));
        change(&mut input);
        o.push(Action { name, input, fo, sets: s.clone() });
    };
    let id = |_: &mut Vec<u8>| {};
    let nat = Fmt::NATIVE;
    let (r50, r51) = (samples::rich(Ver::L50, &d.l50), samples::rich(Ver::L51, &d.l51));
    add("5.0", Ver::L50, nat, &r50, n4, &d, &id);
    add("5.1", Ver::L51, nat, &r51, n4, &d, &id);
    add("5.1 as is", Ver::L51, nat, &r51, nat, &d, &id);
    let loops = "for i = 1, 3 do for k in tab do emit(i, k) end for a, b in it do emit(a) end end";
    add("5.0 loops", Ver::L50, nat, &comp(Ver::L50, &d, loops), nat, &d, &id);
    let va = "local function f(a, ...) emit(arg) local t = {1, 2, nil, a, function() return a end} return t end f(1)";
    add("5.0 variadic", Ver::L50, nat, &comp(Ver::L50, &d, va), nat, &d, &id);
    let s = Sets::flush(50, 2);
    let tab = "local t = {1, 2, 3, {4, 5, 6}, 7, multi()} emit(t)";
    add("5.1 smaller flush", Ver::L51, nat, &comp(Ver::L51, &s, tab), n4, &s, &id);
    let s = Sets::flush(2, 5);
    add("5.0 larger flush", Ver::L50, nat, &comp(Ver::L50, &s, tab), n4, &s, &id);
    let mut s = d.clone();
    s.l50.sig = "\x1bOne".into();
    s.l51.sig = "Two\u{e9}".into();
    s.out.sig = "".into();
    add("signatures", Ver::L51, nat, &r51, n4, &s, &id);
    let mut s = d.clone();
    use Fld::*;
    s.l50.layout = Layout([(A, 9), (B, 12), (C, 13), (O, 7)]);
    s.l51.layout = LAYOUT50;
    s.out.layout = Layout([(C, 10), (B, 9), (O, 6), (A, 7)]);
    s.l50.limit = 100;
    let w = Fmt { ins: 8, little: false, ..nat };
    add("layouts", Ver::L50, w, &samples::rich(Ver::L50, &s.l50), n4, &s, &id);
    add("integral big endian", Ver::L51, Fmt { little: false, integral: true, int: 8, num: 4, ..nat }, &r51, n4, &d, &id);
    let strip = Strip::ALL.apply(&comp(Ver::L50, &d, loops));
    add("stripped", Ver::L50, nat, &strip, nat, &d, &id);
    // every setting with a value that makes a difference
    let consts: String = (0..140).map(|i| format!("emit(any() == {i}) ")).collect();
    let mut s = d.clone();
    s.out.layout = Layout([(O, 6), (A, 8), (C, 9), (B, 8)]);
    add("error: narrow", Ver::L51, nat, &comp(Ver::L51, &s, &consts), n4, &s, &id);
    add("many constants", Ver::L51, nat, &comp(Ver::L51, &d, &consts), n4, &d, &id);
    let mut s = d.clone();
    s.out.layout = Layout([(O, 6), (A, 8), (C, 13), (B, 12)]);
    s.out.limit = 255;
    let wide = Fmt { little: false, int: 8, size_t: 8, ins: 8, num: 4, integral: true, format: 0 };
    add("wide", Ver::L50, n4, &comp(Ver::L50, &s, &consts), wide, &s, &id);
    let far: String = (0..15).map(|i| format!("local l{i} = {i} ")).collect();
    let mut s = d.clone();
    s.l50.limit = 12;
    s.l50.flush = 3;
    s.l51.limit = 3;
    s.l51.flush = 7;
    s.out.limit = 20;
    s.out.flush = 4;
    add("5.0 limits", Ver::L50, nat, &comp(Ver::L50, &s, &format!("emit(any() == 3) {loops} {tab} {}", "local l0, l1, l2 = 1, 2, 3 emit(l2)")), n4, &s, &id);
    add("5.1 limits", Ver::L51, nat, &comp(Ver::L51, &s, tab), n4, &s, &id);
    add("error: stack limit", Ver::L50, nat, &comp(Ver::L50, &d, &format!("{far} {loops}")), n4, &s, &id);
    add("stack limit", Ver::L50, nat, &comp(Ver::L50, &d, &format!("{far} {loops}")), n4, &d, &id);
    // errors, from early to late
    add("error: signature", Ver::L51, nat, &r51, n4, &d, &|b| b[0] = b'x');
    add("error: version", Ver::L51, nat, &r51, n4, &d, &|b| b[4] = 0x52);
    add("error: endianness", Ver::L50, nat, &r50, n4, &d, &|b| b[5] = 7);
    add("error: too short", Ver::L50, nat, &comp(Ver::L50, &d, loops), n4, &d, &|b| b.truncate(b.len() - 5));
    add("error: too long", Ver::L51, nat, &r51, n4, &d, &|b| b.push(0));
    let mut bad = comp(Ver::L50, &d, loops);
    let k = bad.code.len() - 2;
    bad.code[k] |= 63;
    add("error: opcode", Ver::L50, nat, &bad, n4, &d, &id);
    // errors deep inside of nested functions
    let mut deep = r51.clone();
    let code = deep.p[0].p[0].code.len() - 1;
    deep.p[0].p[0].code[code] |= 63;
    add("error: nested opcode", Ver::L51, nat, &deep, n4, &d, &id);
    let mut deep = Proto { code: vec![r50.p[0].p[0].code[0] | 63], ..r50.p[0].p[0].clone() };
    for _ in 0..60 {
        deep = Proto { p: vec![deep], ..r50.p[0].p[0].clone() };
    }
    add("error: deep", Ver::L50, nat, &deep, nat, &d, &id);
    let mut deep = r51.p[0].p[0].clone();
    for _ in 0..150 {
        deep = Proto { p: vec![deep], ..r51.p[0].p[0].clone() };
    }
    add("deep", Ver::L51, nat, &deep, n4, &d, &id);
    let mut s = d.clone();
    s.out.limit = 4;
    add("error: stack", Ver::L50, nat, &comp(Ver::L50, &d, loops), n4, &s, &id);
    let mut f = r51.clone();
    f.k[1] = K::Flt(0.5);
    add("error: fraction", Ver::L51, nat, &f, Fmt { integral: true, ..nat }, &d, &id);
    let mut s = Sets::flush(50, 2);
    s.out.layout = Layout([(O, 6), (A, 7), (B, 8), (C, 8)]);
    let far: String = (0..150).map(|i| format!("local l{i} = {i} ")).collect();
    add("error: operand", Ver::L51, nat, &comp(Ver::L51, &s, &format!("{far} emit(l149)")), n4, &s, &id);
    // many of everything
    let many = |n: usize| format!("local y, z = 5, {{}} {}", ["constants", "names", "functions", "records", "locals", "lists"].map(|d| crate::large::fill(d, n)).concat());
    add("large", Ver::L50, nat, &comp(Ver::L50, &d, &format!("{} {loops}", many(140))), n4, &d, &id);
    add("large as is", Ver::L51, nat, &comp(Ver::L51, &d, &many(150)), nat, &d, &id);
    let long: String = "for i = 1, 3 do local q = {i, i} emit(q) end ".repeat(300);
    add("long", Ver::L51, nat, &comp(Ver::L51, &Sets::flush(3, 2), &format!("G = \"{}\" {long}", "s".repeat(5000))), n4, &Sets::flush(3, 2), &id);
    o
}

/// Child process: convert these one after another; print what comes out.
pub fn seq(a: &[String]) {
    let acts = actions();
    for x in a {
        let x = &acts[x.parse::<usize>().unwrap()];
        println!("{:016x}", hash64(&format!("{:?}", sut::unify(&x.input, &x.fo, &x.sets))));
    }
}
fn child(ids: &[usize]) -> Option<Vec<String>> {
    spawn("seq", ids)
}
fn spawn(what: &str, ids: &[usize]) -> Option<Vec<String>> {
    let o = std::process::Command::new(std::env::current_exe().unwrap())
        .arg(what)
        .args(ids.iter().map(|x| x.to_string()))
        .env_remove("VP_WATCH")
        .stderr(std::process::Stdio::null())
        .output()
        .ok()?;
    o.status.success().then(|| String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect())
}

/// Conversions that differ in a single respect from the first one.
fn near() -> Vec<Action> {
    use Fld::*;
    let d = Sets::default();
    let src = "local function f(a, ...) emit(arg, a) end local t = {1, 2, 3, f} for i = 1, 2 do emit(t[i] == 3, \"s\") end for k in tab do emit(k) end";
    let mut o = vec![];
    for v in vers() {
        let p = gen::comp(&model::parse::parse(src), v, d.input(v)).unwrap();
        let input = chunk::write(v, &Fmt::NATIVE, d.input(v), &p);
        let base = |name| Action { name, input: input.clone(), fo: samples::NATIVE4, sets: d.clone() };
        o.push(base("base"));
        for f in Fmt::all() {
            o.push(Action { fo: f, ..base("output format") });
            o.push(Action { fo: Fmt { format: 7, ..f }, ..base("output format byte") });
        }
        for side in 0..3 {
            let mut set = |f: &dyn Fn(&mut Side)| {
                let mut a = base("one setting");
                f(match side {
                    0 => &mut a.sets.l50,
                    1 => &mut a.sets.l51,
                    _ => &mut a.sets.out,
                });
                o.push(a);
            };
            for sig in ["", "\x1bLub", "\x1bLua1", "x"] {
                set(&|s| s.sig = sig.into());
            }
            for l in [LAYOUT50, LAYOUT51, Layout([(O, 6), (A, 8), (C, 9), (B, 8)]), Layout([(O, 7), (A, 8), (C, 8), (B, 9)])] {
                set(&|s| s.layout = l);
            }
            for flush in [1, 2, 3, 32, 33, 49, 50, 51] {
                set(&|s| s.flush = flush);
            }
            for limit in [2, 8, 12, 100, 249, 250, 255] {
                set(&|s| s.limit = limit);
            }
        }
        for k in 0..input.len() {
            for bit in [1, 4] {
                let mut a = base("one byte");
                a.input[k] ^= bit;
                o.push(a);
            }
        }
        for k in 0..3 {
            let mut a = base("other length");
            match k {
                0 => a.input.push(0),
                1 => drop(a.input.pop()),
                _ => a.input.clear(),
            }
            o.push(a);
        }
    }
    o
}
pub fn near_child(a: &[String]) {
    let acts = near();
    for x in a {
        let x = &acts[x.parse::<usize>().unwrap()];
        println!("{:016x}", hash64(&format!("{:?}", sut::unify(&x.input, &x.fo, &x.sets))));
    }
}
/// Every two conversions that differ in one respect, in turn on one thread,
/// with everything that they are given at the same addresses.
fn nearby(cx: &Cx) {
    let acts = near();
    let n = acts.len();
    let ids: Vec<usize> = (0..n).collect();
    let want: Vec<std::sync::OnceLock<String>> = (0..n).map(|_| Default::default()).collect();
    cx.par(&ids, |_, &k| {
        cx.eval();
        let _ = want[k].set(spawn("near", &[k]).expect("harness: child process").pop().expect("harness: child output"));
    });
    let bases: Vec<usize> = ids.iter().copied().filter(|&k| acts[k].name == "base").collect();
    let few: Vec<usize> = ids.iter().copied().filter(|&k| ["base", "output format", "output format byte", "one setting", "other length"].contains(&acts[k].name)).collect();
    let work: Vec<usize> = if cx.thorough { ids.clone() } else { few.clone() };
    cx.par(&work, |i, &a| {
        let ra = sut::unify(&acts[a].input, &acts[a].fo, &acts[a].sets);
        let mut buf = Vec::with_capacity(100_000);
        let others: &[usize] = if bases.contains(&a) { &ids } else { &few };
        let own: Vec<Option<Settings>> = others.iter().map(|&b| sut::settings(&acts[b].sets)).collect();
        let Some(sa) = sut::settings(&acts[a].sets) else { return };
        // the same places for all of them
        let (mut format, mut sets);
        for (k, &b) in others.iter().enumerate() {
            let Some(sb) = own[k] else { continue };
            for (x, s) in [(a, sa), (b, sb), (a, sa)] {
                buf.clear();
                buf.extend_from_slice(&acts[x].input);
                format = sut::format(&acts[x].fo);
                sets = s;
                cx.eval();
                let r = sut::unify_with(&buf, &format, &sets);
                let ok = if x == a { r == ra } else { format!("{:016x}", hash64(&format!("{r:?}"))) == *want[b].get().unwrap() };
                if !ok {
                    let e = &acts[x];
                    let key = format!("near: {}/{} after {}/{}", e.name, x, acts[if x == a { b } else { a }].name, if x == a { b } else { a });
                    cx.bad(5_000_000 + i, &key, &format!("{} is not the result of the same conversion in a fresh process", r.brief()), &e.input, &e.fo, &e.sets, "");
                    return;
                }
            }
        }
        if format!("{:016x}", hash64(&format!("{ra:?}"))) != *want[a].get().unwrap() {
            cx.bad(5_000_000 + i, &format!("near: {}/{a}", acts[a].name), "not the result of the same conversion in a fresh process", &acts[a].input, &acts[a].fo, &acts[a].sets, "");
        }
        cx.add("pairs that differ in one respect", others.len() as u64);
        cx.seen(&("near", a));
    });
}

fn large(a: &Action) -> bool {
    ["large", "large as is", "long"].contains(&a.name)
}
fn sequences(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..len {
        v = v.iter().flat_map(|s| (0..n).map(move |k| [&s[..], &[k]].concat())).collect();
    }
    v
}

fn run(cx: &Cx) {
    let t = cx.thorough;
    let acts = actions();
    let n = acts.len();
    // the reference: the first conversion of a process
    let want: Vec<String> = (0..n).map(|i| child(&[i]).expect("harness: child process").pop().expect("harness: child output")).collect();
    cx.add("kinds of conversions", n as u64);
    let report = |i: usize, key: String, at: usize, what: String| {
        let a = &acts[at];
        cx.bad(i, &key, &what, &a.input, &a.fo, &a.sets, "");
    };
    let name = |s: &[usize]| s.iter().map(|&i| acts[i].name).collect::<Vec<_>>().join(" | ");
    // histories in fresh processes
    // (the last ones, which are large, in the short ones only)
    let few = n - acts.iter().filter(|a| large(a)).count();
    let mut hist = vec![];
    for len in 1..=2 {
        hist.extend(sequences(n, len));
    }
    hist.extend(sequences(few, 3));
    if t {
        hist.extend(sequences(few, 4).into_iter().filter(|s| s.iter().all(|k| k % 2 == 0 || *k < 9)));
    }
    cx.par(&hist, |i, s| {
        cx.evals.fetch_add(s.len() as u64, Relaxed);
        cx.transitions.fetch_add(s.len() as u64, Relaxed);
        match child(s) {
            None => report(i, format!("history: {}", name(s)), s[s.len() - 1], "the process died".into()),
            Some(r) => {
                for (k, &a) in s.iter().enumerate() {
                    if r.get(k) != Some(&want[a]) {
                        report(i, format!("history: {}", name(s)), a, format!("conversion {k} of the history differs from the same conversion without a history"));
                        return;
                    }
                }
            }
        }
        cx.states.fetch_add(1, Relaxed);
        cx.count("histories in fresh processes");
        if s.len() > 1 {
            cx.seen(s);
            cx.sample(|| format!("history: {}", name(s)));
        }
    });
    // longer histories, one after another in the same process
    let deep = sequences(few, if t { 5 } else { 4 });
    let full: Vec<R> = acts.iter().map(|a| sut::unify(&a.input, &a.fo, &a.sets)).collect();
    for (i, r) in full.iter().enumerate() {
        if format!("{:016x}", hash64(&format!("{r:?}"))) != want[i] {
            report(1_000_000 + i, format!("in process: {}", acts[i].name), i, "the result differs from the one in a fresh process".into());
        }
        if acts[i].name.starts_with("error") != matches!(r, R::Err(_)) {
            cx.count("kinds of conversions with an unexpected outcome");
            if std::env::var("VP_DEBUG").is_ok() {
                eprintln!("{}: {}", acts[i].name, r.brief());
            }
        }
    }
    let own: Vec<(Format, Settings)> = acts.iter().map(|a| (sut::format(&a.fo), sut::settings(&a.sets).unwrap())).collect();
    cx.par(&deep, |i, s| {
        for (k, &a) in s.iter().enumerate() {
            let x = &acts[a];
            cx.eval();
            let (f, st) = own[a];
            let before = (f, st);
            let input = x.input.clone();
            let r = sut::unify_with(&input, &f, &st);
            if r != full[a] {
                report(2_000_000 + i, format!("in process: {}", name(s)), a, format!("conversion {k} differs: {} instead of {}", r.brief(), full[a].brief()));
                return;
            }
            if input != x.input || (f, st) != before {
                report(2_000_000 + i, format!("in process: {}", name(s)), a, "the conversion changed its arguments".into());
                return;
            }
        }
        cx.count("histories in one process");
    });
    // many repetitions of one conversion, or of two in turn, on one thread;
    // then every other one
    let mut pairs: Vec<(usize, usize, usize)> = (0..n).map(|a| (a, a, if t { 200_000 } else { 4_000 })).collect();
    for a in 0..n {
        for b in 0..n {
            if a != b {
                pairs.push((a, b, if t { 20_000 } else { 300 }));
            }
        }
    }
    cx.par(&pairs, |i, &(a, b, times)| {
        std::thread::scope(|sc| {
            sc.spawn(|| {
                let times = if large(&acts[a]) || large(&acts[b]) { times / 30 } else { times };
                for k in 0..times {
                    for x in [a, b] {
                        cx.eval();
                        let r = sut::unify(&acts[x].input, &acts[x].fo, &acts[x].sets);
                        if r != full[x] {
                            report(3_000_000 + i, format!("repetition {k} of {} | {}", acts[a].name, acts[b].name), x, format!("{} instead of {}", r.brief(), full[x].brief()));
                            return;
                        }
                    }
                }
                for x in 0..n {
                    cx.eval();
                    let r = sut::unify(&acts[x].input, &acts[x].fo, &acts[x].sets);
                    if r != full[x] {
                        report(3_000_000 + i, format!("{} after {times} x {} | {}", acts[x].name, acts[a].name, acts[b].name), x, format!("{} instead of {}", r.brief(), full[x].brief()));
                        return;
                    }
                }
                cx.count("repetitions on one thread");
            });
        });
    });
    nearby(cx);
    threads(cx, &acts, &full, &own);
}

/// Two conversions at the same time, under all schedules with at most two
/// preemptions.
fn threads(cx: &Cx, acts: &[Action], full: &[R], own: &[(Format, Settings)]) {
    let n = acts.len();
    // number of points of each conversion
    let points: Vec<u64> = (0..n)
        .map(|a| {
            let s = Sched::new(u64::MAX, u64::MAX);
            s.enter(0);
            sut::unify_with(&acts[a].input, &own[a].0, &own[a].1);
            s.leave(0);
            s.points(0)
        })
        .collect();
    let freed = AtomicU64::new(0);
    let mut pairs: Vec<(usize, usize)> = vec![];
    for a in 0..n {
        for b in 0..n {
            pairs.push((a, b));
        }
    }
    cx.add("preemption points", points.iter().sum());
    let cap: u64 = if cx.thorough { 160 } else { 24 };
    let mut seen: HashMap<usize, u64> = HashMap::new();
    for (a, p) in points.iter().enumerate() {
        seen.insert(a, *p);
    }
    let sched = |cx: &Cx, i: usize, a: usize, b: usize, x: u64, y: u64, workers: &Pair| -> bool {
        cx.evals.fetch_add(2, Relaxed);
        let s = Sched::new(x, y);
        let (ra, rb) = workers.run(&s, (&acts[a], &own[a]), (&acts[b], &own[b]));
        cx.states.fetch_add(1, Relaxed);
        cx.transitions.fetch_add(s.points(0) + s.points(1), Relaxed);
        if s.freed() {
            freed.fetch_add(1, Relaxed);
        }
        for (k, r, at) in [(0, ra, a), (1, rb, b)] {
            if r != full[at] {
                let key = format!("threads: {} until allocation {x}, {} until allocation {y}", acts[a].name, acts[b].name);
                cx.bad(4_000_000 + i, &key, &format!("thread {k} got {} instead of {}", r.brief(), full[at].brief()), &acts[at].input, &acts[at].fo, &acts[at].sets, "");
                return false;
            }
        }
        true
    };
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..4 {
            sc.spawn(|| {
                let w = Pair::new();
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= pairs.len() || cx.stopped() {
                        break;
                    }
                    let (a, b) = pairs[i];
                    let cap = if large(&acts[a]) || large(&acts[b]) { cap / 4 } else { cap };
                    // all points, or evenly spread ones when there are more
                    let pick = |n: u64| -> Vec<u64> {
                        if n <= cap {
                            (0..=n).collect()
                        } else {
                            let mut v: Vec<u64> = (0..=cap).map(|k| k * n / cap).collect();
                            v.dedup();
                            v
                        }
                    };
                    'all: for x in pick(points[a]) {
                        for y in pick(points[b]) {
                            if !sched(cx, i, a, b, x, y, &w) {
                                break 'all;
                            }
                            cx.count("schedules");
                        }
                    }
                    cx.seen(&("threads", a, b));
                }
            });
        }
    });
    cx.add("schedules in which a thread waited for the other", freed.load(Relaxed));
}

/// Two threads that are reused for all schedules.
struct Pair {
    go: [std::sync::mpsc::SyncSender<Job>; 2],
    back: [std::sync::mpsc::Receiver<R>; 2],
}
struct Job(*const Sched, *const Action, *const (Format, Settings<'static>));
unsafe impl Send for Job {}
impl Pair {
    fn new() -> Pair {
        let mk = |me: usize| {
            let (tx, rx) = std::sync::mpsc::sync_channel::<Job>(1);
            let (bt, br) = std::sync::mpsc::sync_channel::<R>(1);
            std::thread::spawn(move || {
                while let Ok(j) = rx.recv() {
                    let (s, a, o) = unsafe { (&*j.0, &*j.1, &*j.2) };
                    s.enter(me);
                    let r = sut::unify_with(&a.input, &o.0, &o.1);
                    s.leave(me);
                    if bt.send(r).is_err() {
                        break;
                    }
                }
            });
            (tx, br)
        };
        let (a, b) = (mk(0), mk(1));
        Pair { go: [a.0, b.0], back: [a.1, b.1] }
    }
    fn run(&self, s: &Sched, a: (&Action, &(Format, Settings<'_>)), b: (&Action, &(Format, Settings<'_>))) -> (R, R) {
        for (k, (x, o)) in [a, b].into_iter().enumerate() {
            let o = o as *const (Format, Settings<'_>) as *const (Format, Settings<'static>);
            self.go[k].send(Job(s, x, o)).unwrap();
        }
        (self.back[0].recv().unwrap(), self.back[1].recv().unwrap())
    }
}
