//! Control flow and expressions of Lua 5.0 programs.
use crate::behave::{Case, Jobs};
use crate::corpus;
use crate::cx::Cx;
use crate::large;
use crate::sut::Sets;
use crate::Meta;
use model::chunk::{raw, Proto, K};
use model::ops::*;
use model::product::Cfg;

pub const META: Meta = Meta {
    id: "C08",
    level: "model_checking",
    rule: "every block of nested control statements up to a node bound, functions of every kind of parameter list starting with a loop and its uninitialized locals, every expression tree up to a depth in five contexts, every control flow graph of k raw basic blocks, each with statements in between whose conversion adds or removes instructions; functions large in one dimension (code, constants, functions, records, locals, loops, calls) around every power of two; all answers of all conditions explored; non-trivial: more than one observable event",
    assumptions: &["the environment answers from a small set of values", "reference machines (bound to stock Lua 5.1 in C20)"],
    run,
};

/// Statements whose conversion changes the number of instructions.
pub const FAT: [&str; 5] = [
    "emit({$,2,3,4,5,6,7})",
    "for i = 1,1 do emit(i) end",
    "for k in it do emit(k) end",
    "for k in tab do emit(k) end",
    "emit({a = {$,2}, 3, 4; n = 5, 6})",
];

pub fn fatten(src: &str, r: usize) -> String {
    let mut o = String::new();
    let mut k = r;
    let mut rest = src;
    while let Some(p) = rest.find("emit(") {
        let end = p + rest[p..].find(')').unwrap() + 1;
        let arg = &rest[p + 5..end - 1];
        o += &rest[..p];
        if arg.chars().all(|c| c.is_ascii_digit()) && !arg.is_empty() {
            o += &rest[p..end];
            o += " ";
            o += &FAT[k % FAT.len()].replace('$', arg);
            k += 1;
        } else {
            o += &rest[p..end];
        }
        rest = &rest[end..];
    }
    o + rest
}

pub fn cfg() -> Cfg {
    use model::product::{one, Ans::*};
    Cfg {
        num: vec![one(Num(0.0)), one(Num(2.0))],
        any: vec![one(Nil), one(Bool(false)), one(Num(0.0))],
        it: vec![one(Nil), one(Num(1.0))],
        presets: vec![("tab", List(vec![Num(5.0), Num(6.0)]))],
        max_states: 600,
        max_events: 24,
        ..Cfg::default()
    }
}

fn run(cx: &Cx) {
    super::util::boolean_bytes(cx, Ver::L50, 10_000_000);
    let t = cx.thorough;
    let kinds = ["emit", "local", "set", "break", "return", "closure", "if", "ifelse", "while", "repeat", "do"];
    let mut j = Jobs::new(Ver::L50, Sets::default(), cfg());
    let small = corpus::control(3, 1, &kinds);
    let prog = |s: &str| format!("local x = 0 {s} emit(\"end\")");
    for s in corpus::control(4, 1, &kinds) {
        j.add("control", prog(&s));
    }
    let ex = corpus::exprs(2);
    for e in &ex {
        {
            j.add("expression", format!("local a = any() local b = {e} emit(b) G = {e} emit({e}, 1) if {e} then emit(1) else emit(2) end return {e}"));
            j.add("expression", format!("local a = any() while {e} do emit(2) end repeat emit(3) until {e} a = {e} emit(a)"));
        }
    }
    if t {
        for s in corpus::control(5, 0, &["emit", "local", "break", "if", "ifelse", "while", "repeat"]) {
            j.add("control", prog(&s));
        }
        for e in corpus::exprs(3).iter().step_by(8) {
            j.add("deep expression", format!("local a = any() local b = {e} emit(b) if {e} then emit(1) end"));
        }
    }
    for e in arith() {
        j.add("operators", e);
    }
    for s in starts() {
        j.add("start", s);
    }
    for (fi, fo) in [(32, 50), (2, 3), (4, 9), (3, 2)] {
        j.sets(Sets::flush(fi, fo));
        for (i, s) in small.iter().enumerate() {
            if s.contains("emit") {
                for r in 0..if t { 5 } else { 3 } {
                    j.add("resized", prog(&fatten(s, i + r * 2)));
                }
            }
        }
    }
    j.sets(Sets::flush(2, 3));
    for (d, p) in cfgs(4, t) {
        j.raw("graph", d, p);
    }
    large::deep(&mut j, cfg(), &[(32, 50), (2, 3)], &["emit(ask() and y or z, y == 5)", "while ask() do if any() then break end emit(y) end"], t);
    large::add(
        &mut j,
        cfg(),
        &[(32, 50), (2, 3)],
        &[
            "local t = {f = 3} % emit(ask() and y or z, obj:m(1), y + 77777, t.f) G = 5 G = G + 1 emit(G)",
            "if ask() then % emit(1, y) else emit(2) % emit(3) end emit(4, z)",
            "while ask() do % emit(1, y) if ask() then break end end emit(2)",
            "repeat % emit(y) until ask() emit(3)",
        ],
        t,
    );
    j.run(cx, |_, _, _, _| {});
    far(cx);
}

/// Functions that start with a loop.
fn starts() -> Vec<String> {
    let mut v = vec![];
    let firsts = ["", "local a", "local a, b", "local a, b, c", "local a = nil", "local a = true", "local a, b = false", "local a = {}", "local a local b", "local a = 1", "emit(1)", "G = 2"];
    let loops = [
        "repeat % until ask()",
        "while true do % if ask() then break end end",
        "while ask() do % end",
        "repeat % while ask() do % end until ask()",
        "if ask() then % end",
        "do % end",
        "for i = 1, 2 do % end",
        "for k in it do % end",
        "%",
    ];
    let uses = ["emit(1)", "emit(a) a = 5", "emit(a, b) b = a a = 3 emit(a, b)", "local c emit(c, a) c = 3 a = c", "if a then emit(2) end a = true b = 4", "emit({a, b}) a = 2 b = a"];
    for f in firsts {
        for l in loops {
            for u in uses {
                let body = l.replace('%', &format!("{f} {u}"));
                v.push(format!("{body} emit(a, b)"));
                for head in ["f()", "f(a)", "f(a, b)", "f(...)", "f(a, ...)"] {
                    v.push(format!("local function {head} {body} emit(a, b) end f() f(1) f(1, 2) f(nil, 3)"));
                }
            }
        }
    }
    v
}

/// Every operator with every kind of operand.
pub fn arith() -> Vec<String> {
    let mut v = vec![];
    let ops = ["+", "-", "*", "/", "^", "..", "<", "<=", ">", ">=", "==", "~=", "and", "or"];
    let l = ["1", "a", "num()", "G", "t[1]", "t.f", "(1 + a)", "#", "-a", "not a"];
    for o in ops {
        for x in l {
            for y in l {
                if x == "#" || y == "#" {
                    continue;
                }
                let (x, y) = if o == ".." { (x.replace("not a", "a"), y.replace("not a", "a")) } else { (x.to_string(), y.to_string()) };
                if x == y {
                    // the same register on both sides and as the result
                    v.push(format!("local a, b = num(), 3 a = {x} {o} {y} b = b {o} b emit(a, b) b = a {o} b a = b {o} a emit(a, b)"));
                }
                v.push(format!("local a, t = num(), {{7, f = 8}} G = 3 local r = {x} {o} {y} emit(r, {x} {o} {y}) t[{y}] = {x} emit(t) if {x} {o} {y} then emit(1) end"));
            }
        }
    }
    v
}

pub struct B50 {
    pub code: Vec<u64>,
    pub k: Vec<K>,
}
impl B50 {
    pub fn k(&mut self, k: K) -> u64 {
        match self.k.iter().position(|x| *x == k) {
            Some(i) => i as u64,
            None => {
                self.k.push(k);
                self.k.len() as u64 - 1
            }
        }
    }
    pub fn put(&mut self, op: Op, a: u64, x: Arg, y: Arg) -> usize {
        let a = match mode(Ver::L50, op) {
            Mode::Abc(true, ..) | Mode::ABx(true) | Mode::AsBx(true) => Some(a),
            _ => None,
        };
        self.code.push(encode(Ver::L50, &Side::def50(), &Canon { op, a, x, y }).unwrap());
        self.code.len() - 1
    }
    pub fn sbx(&mut self, at: usize, op: Op, a: u64, to: usize) {
        let a = if op == Op::Jmp { None } else { Some(a) };
        let j = to as i64 - at as i64 - 1;
        self.code[at] = encode(Ver::L50, &Side::def50(), &Canon { op, a, x: Arg::J(j), y: Arg::No }).unwrap();
    }
    pub fn global_call(&mut self, f: &str, r: u64, arg: Option<u64>, res: u64) {
        let g = self.k(K::s(f));
        self.put(Op::GetGlobal, r, Arg::N(g), Arg::No);
        if let Some(x) = arg {
            let k = self.k(K::Flt(x as f64));
            self.put(Op::LoadK, r + 1, Arg::N(k), Arg::No);
        }
        self.put(Op::Call, r, Arg::N(1 + arg.is_some() as u64), Arg::N(1 + res));
    }
    pub fn proto(self, maxstack: u8) -> Proto {
        let n = self.code.len();
        Proto { source: raw("@raw"), maxstack, lines: (0..n as i64).collect(), code: self.code, k: self.k, ..Proto::default() }
    }
}

/// Every graph of `k` basic blocks: block body x terminator per block.
fn cfgs(k: usize, all: bool) -> Vec<(String, Proto)> {
    // bodies: 0 plain, 1 a list whose first SETLIST is removed, 2 a generic for step
    // terminators: 0 fall through, 1.. goto t, then if ask() goto t, then goto the SETLIST of block t
    let bodies = if all { 3 } else { 2 };
    let per = bodies * (1 + 2 * k);
    let mut out = vec![];
    let total = per.pow(k as u32);
    for code in 0..total {
        let mut c = code;
        let mut blocks = vec![];
        for _ in 0..k {
            let b = c % per;
            c /= per;
            blocks.push((b % bodies, b / bodies));
        }
        // the last block always ends the program unless it jumps
        let mut b = B50 { code: vec![], k: vec![] };
        let mut start = vec![];
        let mut fix = vec![];
        for (i, (body, term)) in blocks.iter().enumerate() {
            start.push(b.code.len());
            if *body == 2 {
                let it = b.k(K::s("it"));
                b.put(Op::GetGlobal, 3, Arg::N(it), Arg::No);
                b.put(Op::LoadNil, 4, Arg::R(6), Arg::No);
                // ends at once or goes on with the next instruction
                b.put(Op::TForLoop, 3, Arg::No, Arg::N(1));
                let at = b.put(Op::Jmp, 0, Arg::J(0), Arg::No);
                b.sbx(at, Op::Jmp, 0, at + 1 + 2 * (i % 2));
                b.global_call("ask", 7, None, 0);
            }
            b.global_call("emit", 0, Some(i as u64 + 10), 0);
            if *body == 1 {
                let e = b.k(K::s("emit"));
                b.put(Op::NewTable, 4, Arg::No, Arg::No);
                for n in 0..2 {
                    let x = b.k(K::Flt(20.0 + n as f64));
                    b.put(Op::LoadK, 5 + n, Arg::N(x), Arg::No);
                }
                b.put(Op::SetList, 4, Arg::N(1), Arg::No);
                let x = b.k(K::Flt(22.0));
                b.put(Op::LoadK, 5, Arg::N(x), Arg::No);
                b.put(Op::SetList, 4, Arg::N(2), Arg::No);
                b.put(Op::GetGlobal, 3, Arg::N(e), Arg::No);
                b.put(Op::Call, 3, Arg::N(2), Arg::N(1));
            }
            match *term {
                0 => {}
                t if t <= k => {
                    let at = b.put(Op::Jmp, 0, Arg::J(0), Arg::No);
                    fix.push((at, t - 1));
                }
                t => {
                    b.global_call("ask", 0, None, 1);
                    b.put(Op::Test, 0, Arg::R(0), Arg::N((i % 2) as u64));
                    let at = b.put(Op::Jmp, 0, Arg::J(0), Arg::No);
                    fix.push((at, t - k - 1));
                }
            }
        }
        b.put(Op::Return, 0, Arg::N(1), Arg::No);
        for (at, t) in fix {
            b.sbx(at, Op::Jmp, 0, start[t]);
        }
        out.push((format!("blocks {blocks:?}"), b.proto(10)));
    }
    out
}

/// Jumps close to the largest distance an instruction can hold.
fn far(cx: &Cx) {
    use crate::behave::check_proto;
    let mut jobs = vec![];
    // (instructions between jump and target, resized statements among them)
    for fill in [131060usize, 131065, 131070, 131071] {
        for fat in [0usize, 1] {
            for back in [false, true] {
                jobs.push((fill, fat, back));
            }
        }
    }
    cx.par(&jobs, |i, &(fill, fat, back)| {
        let mut b = B50 { code: vec![], k: vec![] };
        b.global_call("ask", 0, None, 1);
        b.put(Op::Test, 0, Arg::R(0), Arg::N(0));
        let at = b.put(Op::Jmp, 0, Arg::J(0), Arg::No);
        let s = b.code.len();
        b.global_call("emit", 0, Some(1), 0);
        if fat == 1 {
            // a numeric for that runs once
            for r in 3..6 {
                let one = b.k(K::Flt(1.0));
                b.put(Op::LoadK, r, Arg::N(one), Arg::No);
            }
            b.put(Op::Sub, 3, Arg::R(3), Arg::R(5));
            let j = b.put(Op::Jmp, 0, Arg::J(0), Arg::No);
            let l = b.code.len();
            b.put(Op::Move, 6, Arg::R(3), Arg::No);
            let f = b.put(Op::ForLoop, 3, Arg::J(0), Arg::No);
            b.sbx(f, Op::ForLoop, 3, l);
            b.sbx(j, Op::Jmp, 0, f);
        }
        while b.code.len() < s + fill - back as usize {
            b.put(Op::Move, 0, Arg::R(1), Arg::No);
        }
        if back {
            let j = b.put(Op::Jmp, 0, Arg::J(0), Arg::No);
            let d = j as i64 + 1 - at as i64 - 1;
            if d > 131071 {
                return;
            }
            b.sbx(j, Op::Jmp, 0, at.max(j.saturating_sub(131070)));
        }
        let e = b.code.len();
        if e - at - 1 > 131071 + 1 {
            return;
        }
        b.sbx(at, Op::Jmp, 0, e.min(at + 1 + 131071));
        b.global_call("emit", 0, Some(2), 0);
        b.put(Op::Return, 0, Arg::N(1), Arg::No);
        let p = b.proto(9);
        let mut c = Case::new(i, format!("far/{fill}/{fat}/{back}"), Ver::L50, Sets::default());
        c.cfg = Cfg { budget: 600_000, max_events: 4, max_states: 12, ..cfg() };
        check_proto(cx, &p, &format!("--big {fill} {fat} {back}"), &c);
    });
}
