//! Reference virtual machines for Lua 5.0 and Lua 5.1 byte code. Every way in
//! which a real interpreter would leave defined behaviour (register beyond the
//! declared stack, wild jump, use of a clobbered register, malformed
//! operand ...) is reported as `Stop::Ub`.
use crate::chunk::{Proto, K};
use crate::ops::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub enum V {
    /// Register content left behind by a call or never written.
    Undef,
    Nil,
    Bool(bool),
    Num(f64),
    Str(u32),
    Tab(u32),
    Fun(u32),
    Host(u8),
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Undef, V::Undef) | (V::Nil, V::Nil) => true,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Num(a), V::Num(b)) => a == b,
            (V::Str(a), V::Str(b)) | (V::Tab(a), V::Tab(b)) | (V::Fun(a), V::Fun(b)) => a == b,
            (V::Host(a), V::Host(b)) => a == b,
            _ => false,
        }
    }
}
impl V {
    fn falsy(self) -> bool {
        matches!(self, V::Nil | V::Bool(false))
    }
}

#[derive(Default)]
pub struct Strs {
    pub v: Vec<Rc<[u8]>>,
    m: HashMap<Rc<[u8]>, u32>,
}
impl Strs {
    pub fn id(&mut self, s: &[u8]) -> u32 {
        if let Some(&i) = self.m.get(s) {
            return i;
        }
        let r: Rc<[u8]> = s.into();
        self.v.push(r.clone());
        self.m.insert(r, self.v.len() as u32 - 1);
        self.v.len() as u32 - 1
    }
}

#[derive(Clone, Copy, Debug)]
pub struct D {
    pub op: Op,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub bk: bool,
    pub ck: bool,
    pub bx: i64,
    pub raw: u64,
}
pub struct P {
    pub path: String,
    pub code: Vec<Result<D, u64>>,
    pub k: Vec<V>,
    pub kids: Vec<usize>,
    pub nups: u8,
    pub nparams: u8,
    pub vararg: u8,
    pub maxstack: u8,
    pub lines: Vec<i64>,
    pub locals: Vec<(u32, i64, i64)>,
}
pub struct Prog {
    pub ver: Ver,
    pub flush: u64,
    pub protos: Vec<P>,
}
impl Prog {
    pub fn load(ver: Ver, side: &Side, root: &Proto, s: &mut Strs) -> Prog {
        let mut g = Prog { ver, flush: side.flush, protos: vec![] };
        g.add(side, root, "0".into(), s);
        g
    }
    fn add(&mut self, side: &Side, p: &Proto, path: String, s: &mut Strs) -> usize {
        let me = self.protos.len();
        let ver = self.ver;
        let code: Vec<Result<D, u64>> = p
            .code
            .iter()
            .map(|&w| {
                let i = side.layout.dec(w);
                let Some(&op) = ver.ops().get(i.op as usize) else { return Err(w) };
                let (mut bk, mut ck) = (false, false);
                let (mut b, mut c) = (i.b, i.c);
                if let Mode::Abc(_, ub, uc) = mode(ver, op) {
                    let f = |u: Use, v: u64| match (u, rk(ver, side, v)) {
                        (Use::Rk, Arg::K(k)) => (k, true),
                        _ => (v, false),
                    };
                    (b, bk) = f(ub, i.b);
                    (c, ck) = f(uc, i.c);
                }
                let bx = match mode(ver, op) {
                    Mode::AsBx(_) => side.layout.sbx(&i),
                    _ => i.bx as i64,
                };
                Ok(D { op, a: i.a as u32, b: b as u32, c: c as u32, bk, ck, bx, raw: w })
            })
            .collect();
        let strip = |x: &[u8]| x[..x.len().saturating_sub(1)].to_vec();
        let k = p
            .k
            .iter()
            .map(|k| match k {
                K::Nil => V::Nil,
                K::Bool(b) => V::Bool(*b),
                K::Flt(f) => V::Num(*f),
                K::Int(i) => V::Num(*i as f64),
                K::Str(x) => V::Str(s.id(&strip(x))),
            })
            .collect();
        let locals = p.locals.iter().map(|l| (s.id(&strip(&l.name)), l.start, l.end)).collect();
        // The stock Lua 5.0 compiler does not reserve the registers above the
        // loop variables that TFORLOOP calls the iterator in; the spare slots
        // of the stack hold them.
        let mut maxstack = p.maxstack;
        if ver == Ver::L50 {
            for d in code.iter().flatten().filter(|d| d.op == Op::TForLoop) {
                let need = d.a as u64 + d.c as u64 + 3 + (d.c as u64 + 1).max(3);
                maxstack = maxstack.max(need.min(255) as u8);
            }
        }
        self.protos.push(P {
            path: path.clone(),
            code,
            k,
            kids: vec![],
            nups: p.nups,
            nparams: p.nparams,
            vararg: p.vararg,
            maxstack,
            lines: p.lines.clone(),
            locals,
        });
        for (i, q) in p.p.iter().enumerate() {
            let id = self.add(side, q, format!("{path}.{i}"), s);
            self.protos[me].kids.push(id);
        }
        me
    }
}

#[derive(Clone, Default, Debug)]
pub struct Tab {
    arr: Vec<V>,
    hash: Vec<(V, V)>,
}
impl Tab {
    pub fn get(&self, k: V) -> V {
        if let V::Num(n) = k {
            if n >= 1.0 && n <= self.arr.len() as f64 && n.fract() == 0.0 {
                return self.arr[n as usize - 1];
            }
        }
        self.hash.iter().find(|e| e.0 == k).map(|e| e.1).unwrap_or(V::Nil)
    }
    pub fn set(&mut self, k: V, v: V) {
        if let V::Num(n) = k {
            if n >= 1.0 && n <= self.arr.len() as f64 && n.fract() == 0.0 {
                self.arr[n as usize - 1] = v;
                while let Some(V::Nil) = self.arr.last() {
                    self.arr.pop();
                }
                return;
            }
            if n == self.arr.len() as f64 + 1.0 {
                if v == V::Nil {
                    self.hash.retain(|e| e.0 != k);
                    return;
                }
                self.arr.push(v);
                self.hash.retain(|e| e.0 != k);
                loop {
                    let nk = V::Num(self.arr.len() as f64 + 1.0);
                    match self.hash.iter().position(|e| e.0 == nk) {
                        Some(i) => {
                            let e = self.hash.swap_remove(i);
                            self.arr.push(e.1);
                        }
                        None => break,
                    }
                }
                return;
            }
        }
        if v == V::Nil {
            self.hash.retain(|e| e.0 != k);
            return;
        }
        match self.hash.iter_mut().find(|e| e.0 == k) {
            Some(e) => e.1 = v,
            None => self.hash.push((k, v)),
        }
    }
    pub fn len(&self) -> usize {
        self.arr.iter().position(|v| *v == V::Nil).unwrap_or(self.arr.len())
    }
    pub fn is_empty(&self) -> bool {
        self.arr.is_empty() && self.hash.is_empty()
    }
    /// All pairs in a deterministic order that depends on the contents only.
    pub fn pairs(&self, s: &Strs) -> Vec<(V, V)> {
        let mut v: Vec<(V, V)> = self
            .arr
            .iter()
            .enumerate()
            .filter(|x| *x.1 != V::Nil)
            .map(|(i, x)| (V::Num(i as f64 + 1.0), *x))
            .collect();
        if !self.hash.is_empty() {
            v.extend(self.hash.iter().cloned());
            v.sort_by(|a, b| key_cmp(a.0, b.0, s));
        }
        v
    }
}
fn rank(v: V) -> u8 {
    match v {
        V::Num(_) => 0,
        V::Str(_) => 1,
        V::Bool(_) => 2,
        V::Host(_) => 3,
        V::Tab(_) => 4,
        V::Fun(_) => 5,
        _ => 6,
    }
}
fn key_cmp(a: V, b: V, s: &Strs) -> std::cmp::Ordering {
    match (a, b) {
        (V::Num(x), V::Num(y)) => x.total_cmp(&y),
        (V::Str(x), V::Str(y)) => s.v[x as usize].cmp(&s.v[y as usize]),
        (V::Bool(x), V::Bool(y)) => x.cmp(&y),
        (V::Host(x), V::Host(y)) => x.cmp(&y),
        (V::Tab(x), V::Tab(y)) | (V::Fun(x), V::Fun(y)) => x.cmp(&y),
        _ => rank(a).cmp(&rank(b)),
    }
}

#[derive(Clone, Debug)]
pub struct Clo {
    proto: u32,
    ups: Vec<u32>,
}
#[derive(Clone, Copy, Debug)]
enum Up {
    Open(u32),
    Closed(V),
}
#[derive(Clone, Debug)]
pub struct Frame {
    clo: u32,
    proto: u32,
    base: u32,
    func: u32,
    pub pc: u32,
    want: i32,
    /// Absolute top of an open result list; 0 when there is none.
    top: u32,
    varargs: Vec<V>,
    /// Pending 5.0 TFORLOOP fix up after the iterator call returns.
    tfor: bool,
}

#[derive(Clone)]
pub struct M {
    stack: Vec<V>,
    pub frames: Vec<Frame>,
    tabs: Vec<Tab>,
    clos: Vec<Clo>,
    ups: Vec<Up>,
    open: Vec<(u32, u32)>,
    pub globals: Vec<(u32, V)>,
    pub steps: u64,
    /// Hash of the sequence of distinct lines executed since the last event.
    pub line_hash: u64,
    pub line_log: Vec<i64>,
    last_line: i64,
    pending: Option<(u32, i32, bool)>,
    pargs: Vec<V>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// A host function was called; `resume` continues.
    Host(u8, Vec<V>),
    Done(Vec<V>),
    Error(&'static str),
    Budget,
    Ub(String),
}

pub const HOSTS: [&str; 10] = ["emit", "ask", "val", "multi", "it", "type", "next", "num", "any", "rawobj"];
pub const H_EMIT: u8 = 0;
pub const H_ASK: u8 = 1;
pub const H_VAL: u8 = 2;
pub const H_MULTI: u8 = 3;
pub const H_IT: u8 = 4;
pub const H_TYPE: u8 = 5;
pub const H_NEXT: u8 = 6;
pub const H_NUM: u8 = 7;
pub const H_ANY: u8 = 8;

const MAX_FRAMES: usize = 100;
type Res<T> = Result<T, Stop>;
fn ub<T>(s: String) -> Res<T> {
    Err(Stop::Ub(s))
}

impl M {
    pub fn new(prog: &Prog, s: &mut Strs, args: &[V]) -> M {
        let mut m = M {
            stack: vec![],
            frames: vec![],
            tabs: vec![],
            clos: vec![Clo { proto: 0, ups: vec![] }],
            ups: vec![],
            open: vec![],
            globals: vec![],
            steps: 0,
            line_hash: 0,
            line_log: vec![],
            last_line: i64::MIN,
            pending: None,
            pargs: vec![],
        };
        for (i, h) in HOSTS.iter().enumerate().take(9) {
            let id = s.id(h.as_bytes());
            m.globals.push((id, V::Host(i as u8)));
        }
        let mut t = Tab::default();
        t.set(V::Str(s.id(b"m")), V::Host(H_VAL));
        t.set(V::Str(s.id(b"x")), V::Num(5.0));
        m.tabs.push(t);
        let id = s.id(b"obj");
        m.globals.push((id, V::Tab(0)));
        // main function with its upvalues, if any (never for a real main)
        for _ in 0..prog.protos[0].nups {
            m.ups.push(Up::Closed(V::Nil));
            let u = m.ups.len() as u32 - 1;
            m.clos[0].ups.push(u);
        }
        m.stack.push(V::Fun(0));
        m.stack.extend_from_slice(args);
        let _ = m.enter(prog, s, 0, args.len() as u32, -1, false);
        m
    }

    fn enter(&mut self, prog: &Prog, s: &mut Strs, func: u32, nargs: u32, want: i32, tfor: bool) -> Res<()> {
        if self.frames.len() >= MAX_FRAMES {
            return Err(Stop::Error("stack overflow"));
        }
        let V::Fun(c) = self.stack[func as usize] else { unreachable!() };
        let proto = self.clos[c as usize].proto;
        let p = &prog.protos[proto as usize];
        let mut args: Vec<V> = self.stack[func as usize + 1..(func + 1 + nargs) as usize].to_vec();
        let np = p.nparams as usize;
        let mut varargs = vec![];
        let base = func + 1;
        let top = base as usize + p.maxstack as usize;
        if np > p.maxstack as usize {
            return ub(format!("{} parameters exceed the stack", np));
        }
        let mut argtab = None;
        if args.len() > np {
            varargs = args.split_off(np);
        }
        let mut undef_from = usize::MAX;
        match prog.ver {
            Ver::L50 => {
                if p.vararg != 0 {
                    argtab = Some(std::mem::take(&mut varargs));
                } else {
                    // extra arguments stay where they are
                    undef_from = varargs.len();
                    varargs.clear();
                }
            }
            Ver::L51 => {
                if p.vararg & 2 == 0 {
                    varargs.clear();
                } else if p.vararg & 4 != 0 {
                    if p.vararg & 1 == 0 {
                        return ub("NEEDSARG without HASARG".into());
                    }
                    argtab = Some(varargs.clone());
                }
            }
        }
        self.stack.truncate(base as usize);
        self.stack.extend(args);
        while self.stack.len() < base as usize + np {
            self.stack.push(V::Nil);
        }
        if let Some(a) = argtab {
            let mut t = Tab::default();
            let n = a.len();
            for (i, v) in a.into_iter().enumerate() {
                t.set(V::Num(i as f64 + 1.0), v);
            }
            t.set(V::Str(s.id(b"n")), V::Num(n as f64));
            self.tabs.push(t);
            self.stack.push(V::Tab(self.tabs.len() as u32 - 1));
            if self.stack.len() > top {
                return ub("no room for the arg table".into());
            }
        }
        if undef_from != usize::MAX {
            for _ in 0..undef_from {
                if self.stack.len() < top {
                    self.stack.push(V::Undef);
                }
            }
        }
        while self.stack.len() < top {
            self.stack.push(V::Nil);
        }
        self.frames.push(Frame { clo: c, proto, base, func, pc: 0, want, top: 0, varargs, tfor });
        Ok(())
    }

    /// Arguments of the host call this machine is stopped at.
    pub fn pending_args(&self) -> Option<Vec<V>> {
        self.pending.map(|_| self.pargs.clone())
    }
    /// Continue after a host call with its results.
    pub fn resume(&mut self, prog: &Prog, res: &[V]) {
        let (func, want, tfor) = self.pending.take().expect("no pending host call");
        self.deliver(prog, func, want, tfor, res);
        self.line_hash = 0;
        self.line_log.clear();
    }

    fn deliver(&mut self, prog: &Prog, func: u32, want: i32, tfor: bool, res: &[V]) {
        let Some(fi) = self.frames.len().checked_sub(1) else { return };
        let (base, ms, proto, pc) = {
            let f = &self.frames[fi];
            (f.base, prog.protos[f.proto as usize].maxstack as u32, f.proto, f.pc)
        };
        let n = if want < 0 { res.len() } else { want as usize };
        self.stack.truncate(func as usize);
        for i in 0..n {
            self.stack.push(res.get(i).copied().unwrap_or(V::Nil));
        }
        let end = self.stack.len();
        while self.stack.len() < (base + ms) as usize {
            self.stack.push(V::Undef);
        }
        if want < 0 {
            self.frames[fi].top = end as u32;
        } else {
            self.stack.truncate((base + ms) as usize);
        }
        if tfor {
            let d = prog.protos[proto as usize].code[pc as usize - 1].unwrap();
            let ra = (base + d.a) as usize;
            match prog.ver {
                Ver::L50 => {
                    let nvar = d.c as usize + 1;
                    for i in 0..nvar {
                        self.stack[ra + 2 + i] = self.stack[func as usize + i];
                    }
                    for i in 0..nvar {
                        if ra + 2 + nvar + i < self.stack.len() {
                            self.stack[ra + 2 + nvar + i] = V::Undef;
                        }
                    }
                    if self.stack[ra + 2] == V::Nil {
                        self.frames[fi].pc += 1;
                    }
                }
                Ver::L51 => {
                    if self.stack[ra + 3] != V::Nil {
                        self.stack[ra + 2] = self.stack[ra + 3];
                    } else {
                        self.frames[fi].pc += 1;
                    }
                }
            }
        }
    }

    fn close(&mut self, level: u32) {
        let mut i = 0;
        while i < self.open.len() {
            if self.open[i].0 >= level {
                let (at, u) = self.open.swap_remove(i);
                self.ups[u as usize] = Up::Closed(self.stack[at as usize]);
            } else {
                i += 1;
            }
        }
    }

    fn global(&self, id: u32) -> V {
        self.globals.iter().find(|g| g.0 == id).map(|g| g.1).unwrap_or(V::Nil)
    }
    pub fn set_global(&mut self, id: u32, v: V) {
        match self.globals.iter_mut().find(|g| g.0 == id) {
            Some(g) => g.1 = v,
            None => self.globals.push((id, v)),
        }
    }
    pub fn new_table(&mut self, items: &[(V, V)]) -> V {
        let mut t = Tab::default();
        for (k, v) in items {
            t.set(*k, *v)
        }
        self.tabs.push(t);
        V::Tab(self.tabs.len() as u32 - 1)
    }
    fn index(&self, t: V, k: V) -> Res<V> {
        if let V::Undef = t {
            return ub("indexing an undefined register".into());
        }
        if let V::Undef = k {
            return ub("undefined register as key".into());
        }
        match t {
            V::Tab(i) => Ok(self.tabs[i as usize].get(k)),
            _ => Err(Stop::Error("index")),
        }
    }
    fn setindex(&mut self, t: V, k: V, v: V) -> Res<()> {
        if t == V::Undef || k == V::Undef || v == V::Undef {
            return ub("undefined register in a table store".into());
        }
        match t {
            V::Tab(i) => {
                if k == V::Nil || matches!(k, V::Num(n) if n.is_nan()) {
                    return Err(Stop::Error("nil key"));
                }
                self.tabs[i as usize].set(k, v);
                Ok(())
            }
            _ => Err(Stop::Error("index")),
        }
    }
    fn tonum(&self, v: V, s: &Strs) -> Res<Option<f64>> {
        match v {
            V::Num(n) => Ok(Some(n)),
            V::Str(i) => Ok(std::str::from_utf8(&s.v[i as usize]).ok().and_then(|x| x.trim().parse().ok())),
            V::Undef => ub("arithmetic on an undefined register".into()),
            _ => Ok(None),
        }
    }
    fn tostr(&self, v: V, s: &Strs) -> Res<Option<Vec<u8>>> {
        match v {
            V::Num(n) => Ok(Some(fmt_num(n).into_bytes())),
            V::Str(i) => Ok(Some(s.v[i as usize].to_vec())),
            V::Undef => ub("concatenating an undefined register".into()),
            _ => Ok(None),
        }
    }

    /// Run to the next host call or the end.
    pub fn run(&mut self, prog: &Prog, s: &mut Strs, budget: u64) -> Stop {
        let end = self.steps + budget;
        loop {
            if self.steps >= end {
                return Stop::Budget;
            }
            self.steps += 1;
            match self.step(prog, s) {
                Ok(()) => {}
                Err(x) => return x,
            }
        }
    }

    fn step(&mut self, prog: &Prog, s: &mut Strs) -> Res<()> {
        let Some(fi) = self.frames.len().checked_sub(1) else {
            return ub("the main function cannot be entered (no room on its stack, or contradictory flags)".into());
        };
        let (base, pc, pid, clo) = {
            let f = &mut self.frames[fi];
            f.pc += 1;
            (f.base, f.pc as usize - 1, f.proto, f.clo)
        };
        let p = &prog.protos[pid as usize];
        let d = match p.code.get(pc) {
            None => return ub(format!("pc {pc} beyond the code")),
            Some(Err(w)) => return ub(format!("bad instruction word {w:#x}")),
            Some(Ok(d)) => *d,
        };
        if let Some(&l) = p.lines.get(pc).filter(|_| !matches!(d.op, Op::SetList | Op::SetListO)) {
            let key = l.wrapping_mul(0x9E3779B97F4A7C15u64 as i64) ^ (pid as i64) << 1;
            if key != self.last_line {
                self.last_line = key;
                self.line_hash = self.line_hash.wrapping_mul(0x100000001b3).wrapping_add(key as u64);
                self.line_log.push(l);
            }
        }
        let ms = p.maxstack as u32;
        macro_rules! reg {
            ($r:expr) => {{
                let r = $r as u32;
                if r >= ms {
                    return ub(format!("register {r} beyond the declared stack {ms} at {}:{pc} {:?}", p.path, d.op));
                }
                (base + r) as usize
            }};
        }
        macro_rules! get {
            ($r:expr) => {
                self.stack[reg!($r)]
            };
        }
        macro_rules! konst {
            ($i:expr) => {
                match p.k.get($i as usize) {
                    Some(v) => *v,
                    None => return ub(format!("constant {} does not exist at {}:{pc}", $i, p.path)),
                }
            };
        }
        macro_rules! rk {
            ($v:expr, $k:expr) => {
                if $k {
                    konst!($v)
                } else {
                    get!($v)
                }
            };
        }
        macro_rules! set {
            ($r:expr, $v:expr) => {{
                let v = $v;
                let i = reg!($r);
                self.stack[i] = v;
            }};
        }
        macro_rules! kstr {
            ($i:expr) => {
                match konst!($i) {
                    V::Str(s) => s,
                    _ => return ub(format!("global name constant {} is not a string", $i)),
                }
            };
        }
        let jump = |m: &mut M, off: i64| -> Res<()> {
            let t = m.frames[fi].pc as i64 + off;
            if t < 0 || t as usize >= p.code.len() {
                return ub(format!("jump to {t} outside the code at {}:{pc}", p.path));
            }
            m.frames[fi].pc = t as u32;
            Ok(())
        };
        // conditional skip: the next instruction must be a jump
        let cond = |m: &mut M, taken: bool| -> Res<()> {
            let n = m.frames[fi].pc as usize;
            match p.code.get(n) {
                Some(Ok(j)) if j.op == Op::Jmp => {
                    if taken {
                        m.frames[fi].pc += 1;
                        jump(m, j.bx)
                    } else {
                        m.frames[fi].pc += 1;
                        Ok(())
                    }
                }
                _ => ub(format!("test at {}:{pc} is not followed by a jump", p.path)),
            }
        };
        macro_rules! upidx {
            ($b:expr) => {
                match self.clos[clo as usize].ups.get($b as usize) {
                    Some(u) => *u as usize,
                    None => return ub(format!("upvalue {} does not exist at {}:{pc}", $b, p.path)),
                }
            };
        }
        match d.op {
            Op::Move => {
                let v = get!(d.b);
                set!(d.a, v)
            }
            Op::LoadK => {
                let v = konst!(d.bx);
                set!(d.a, v)
            }
            Op::LoadBool => {
                set!(d.a, V::Bool(d.b != 0));
                if d.c != 0 {
                    jump(self, 1)?
                }
            }
            Op::LoadNil => {
                for r in d.a..=d.b {
                    set!(r, V::Nil)
                }
            }
            Op::GetUpval => {
                let u = upidx!(d.b);
                let v = match self.ups[u] {
                    Up::Open(i) => self.stack[i as usize],
                    Up::Closed(v) => v,
                };
                set!(d.a, v)
            }
            Op::SetUpval => {
                let u = upidx!(d.b);
                let v = get!(d.a);
                match self.ups[u] {
                    Up::Open(i) => self.stack[i as usize] = v,
                    Up::Closed(_) => self.ups[u] = Up::Closed(v),
                }
            }
            Op::GetGlobal => {
                let k = kstr!(d.bx);
                let v = self.global(k);
                set!(d.a, v)
            }
            Op::SetGlobal => {
                let k = kstr!(d.bx);
                let v = get!(d.a);
                self.set_global(k, v)
            }
            Op::GetTable => {
                let v = self.index(get!(d.b), rk!(d.c, d.ck))?;
                set!(d.a, v)
            }
            Op::SetTable => {
                let (t, k, v) = (get!(d.a), rk!(d.b, d.bk), rk!(d.c, d.ck));
                self.setindex(t, k, v)?
            }
            Op::NewTable => {
                self.tabs.push(Tab::default());
                let t = V::Tab(self.tabs.len() as u32 - 1);
                set!(d.a, t)
            }
            Op::SelfOp => {
                let o = get!(d.b);
                let v = self.index(o, rk!(d.c, d.ck))?;
                reg!(d.a + 1);
                set!(d.a + 1, o);
                set!(d.a, v)
            }
            Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Mod | Op::Pow => {
                let (x, y) = (rk!(d.b, d.bk), rk!(d.c, d.ck));
                let (Some(x), Some(y)) = (self.tonum(x, s)?, self.tonum(y, s)?) else {
                    return Err(Stop::Error("arithmetic"));
                };
                let r = match d.op {
                    Op::Add => x + y,
                    Op::Sub => x - y,
                    Op::Mul => x * y,
                    Op::Div => x / y,
                    Op::Mod => x - (x / y).floor() * y,
                    _ => {
                        if prog.ver == Ver::L50 && false {
                            0.0
                        } else {
                            x.powf(y)
                        }
                    }
                };
                set!(d.a, V::Num(r))
            }
            Op::Unm => {
                let Some(x) = self.tonum(get!(d.b), s)? else { return Err(Stop::Error("arithmetic")) };
                set!(d.a, V::Num(-x))
            }
            Op::Not => {
                let v = get!(d.b);
                if v == V::Undef {
                    return ub("not of an undefined register".into());
                }
                set!(d.a, V::Bool(v.falsy()))
            }
            Op::Len => {
                let v = match get!(d.b) {
                    V::Tab(t) => self.tabs[t as usize].len(),
                    V::Str(i) => s.v[i as usize].len(),
                    V::Undef => return ub("length of an undefined register".into()),
                    _ => return Err(Stop::Error("length")),
                };
                set!(d.a, V::Num(v as f64))
            }
            Op::Concat => {
                if d.c <= d.b {
                    return ub(format!("CONCAT of an empty range at {}:{pc}", p.path));
                }
                let mut acc = self.tostr(get!(d.c), s)?;
                let mut bad = acc.is_none();
                for r in (d.b..d.c).rev() {
                    let l = self.tostr(get!(r), s)?;
                    match (l, &acc) {
                        (Some(mut l), Some(a)) => {
                            l.extend(a);
                            acc = Some(l)
                        }
                        _ => bad = true,
                    }
                    if bad {
                        return Err(Stop::Error("concatenate"));
                    }
                }
                let id = s.id(&acc.unwrap());
                set!(d.a, V::Str(id))
            }
            Op::Jmp => jump(self, d.bx)?,
            Op::Eq | Op::Lt | Op::Le => {
                let (x, y) = (rk!(d.b, d.bk), rk!(d.c, d.ck));
                if x == V::Undef || y == V::Undef {
                    return ub(format!("comparing an undefined register at {}:{pc}", p.path));
                }
                let r = match d.op {
                    Op::Eq => x == y,
                    _ => match (x, y) {
                        (V::Num(a), V::Num(b)) => {
                            if d.op == Op::Lt {
                                a < b
                            } else {
                                a <= b
                            }
                        }
                        (V::Str(a), V::Str(b)) => {
                            let (a, b) = (&s.v[a as usize], &s.v[b as usize]);
                            if d.op == Op::Lt {
                                a < b
                            } else {
                                a <= b
                            }
                        }
                        _ => return Err(Stop::Error("compare")),
                    },
                };
                cond(self, r == (d.a != 0))?
            }
            Op::Test | Op::TestSet => {
                let set = d.op == Op::TestSet || prog.ver == Ver::L50;
                let v = if set { get!(d.b) } else { get!(d.a) };
                if v == V::Undef {
                    return ub(format!("testing an undefined register at {}:{pc}", p.path));
                }
                let ok = v.falsy() == (d.c == 0);
                if ok && set {
                    set!(d.a, v)
                }
                if set {
                    reg!(d.a);
                }
                cond(self, ok)?
            }
            Op::Call | Op::TailCall => {
                let f = reg!(d.a) as u32;
                let nargs = if d.b != 0 {
                    if d.b > 1 {
                        reg!(d.a + d.b - 1);
                    }
                    d.b - 1
                } else {
                    let t = std::mem::take(&mut self.frames[fi].top);
                    if t <= f {
                        return ub(format!("open call without open arguments at {}:{pc}", p.path));
                    }
                    t - f - 1
                };
                let mut want = d.c as i32 - 1;
                if d.op == Op::TailCall {
                    want = -1;
                }
                if want > 0 {
                    reg!(d.a + want as u32 - 1);
                }
                if want < 0 {
                    self.check_open(p, pc + 1)?;
                }
                return self.call(prog, s, f, nargs, want, false);
            }
            Op::Return => {
                let n = if d.b != 0 {
                    if d.b > 1 {
                        reg!(d.a + d.b - 2);
                    }
                    d.b - 1
                } else {
                    let t = std::mem::take(&mut self.frames[fi].top);
                    if t < base + d.a {
                        return ub(format!("open return without open values at {}:{pc}", p.path));
                    }
                    t - base - d.a
                };
                let from = (base + d.a) as usize;
                let res = self.stack[from..from + n as usize].to_vec();
                self.close(base);
                let f = self.frames.pop().unwrap();
                if self.frames.is_empty() {
                    if res.contains(&V::Undef) {
                        return ub("returning an undefined register".into());
                    }
                    return Err(Stop::Done(res));
                }
                self.deliver(prog, f.func, f.want, f.tfor, &res);
            }
            Op::ForLoop => {
                let (i, l, st) = (get!(d.a), get!(d.a + 1), get!(d.a + 2));
                let (i, l, st) = match prog.ver {
                    Ver::L50 => {
                        if i == V::Undef {
                            return ub("for index undefined".into());
                        }
                        let V::Num(i) = i else { return Err(Stop::Error("for initial")) };
                        let Some(l) = self.tonum(l, s)? else { return Err(Stop::Error("for limit")) };
                        let Some(st) = self.tonum(st, s)? else { return Err(Stop::Error("for step")) };
                        set!(d.a + 1, V::Num(l));
                        set!(d.a + 2, V::Num(st));
                        (i, l, st)
                    }
                    Ver::L51 => {
                        reg!(d.a + 3);
                        match (i, l, st) {
                            (V::Num(a), V::Num(b), V::Num(c)) => (a, b, c),
                            _ => return ub(format!("FORLOOP on values that are not numbers at {}:{pc}", p.path)),
                        }
                    }
                };
                let idx = i + st;
                if if st > 0.0 { idx <= l } else { l <= idx } {
                    jump(self, d.bx)?;
                    set!(d.a, V::Num(idx));
                    if prog.ver == Ver::L51 {
                        set!(d.a + 3, V::Num(idx));
                    }
                }
            }
            Op::ForPrep => {
                let mut v = [0.0; 3];
                for (k, v) in v.iter_mut().enumerate() {
                    let Some(n) = self.tonum(get!(d.a + k as u32), s)? else { return Err(Stop::Error("for")) };
                    *v = n;
                }
                set!(d.a, V::Num(v[0] - v[2]));
                set!(d.a + 1, V::Num(v[1]));
                set!(d.a + 2, V::Num(v[2]));
                jump(self, d.bx)?
            }
            Op::TForPrep => {
                if get!(d.a) == V::Undef {
                    return ub("generic for over an undefined register".into());
                }
                if let V::Tab(_) = get!(d.a) {
                    let t = get!(d.a);
                    set!(d.a + 1, t);
                    let n = s.id(b"next");
                    set!(d.a, self.global(n));
                }
                jump(self, d.bx)?
            }
            Op::TForLoop => {
                match p.code.get(pc + 1) {
                    Some(Ok(j)) if j.op == Op::Jmp => {}
                    _ => return ub(format!("TFORLOOP at {}:{pc} is not followed by a jump", p.path)),
                }
                let cb = match prog.ver {
                    Ver::L50 => d.a + d.c + 3,
                    Ver::L51 => {
                        if d.c == 0 {
                            return ub("TFORLOOP without results".into());
                        }
                        d.a + 3
                    }
                };
                let want = match prog.ver {
                    Ver::L50 => d.c as i32 + 1,
                    Ver::L51 => d.c as i32,
                };
                reg!(cb + 2);
                reg!(cb + want as u32 - 1);
                for k in 0..3 {
                    let v = get!(d.a + k);
                    set!(cb + k, v)
                }
                let f = reg!(cb) as u32;
                return self.call(prog, s, f, 2, want, true);
            }
            Op::SetList | Op::SetListO => {
                let ra = reg!(d.a);
                let V::Tab(t) = self.stack[ra] else {
                    return ub(format!("SETLIST on something that is not a table at {}:{pc}", p.path));
                };
                let open = match prog.ver {
                    Ver::L50 => d.op == Op::SetListO,
                    Ver::L51 => d.b == 0,
                };
                let n;
                if open {
                    let top = std::mem::take(&mut self.frames[fi].top);
                    if top as usize <= ra {
                        return ub(format!("open SETLIST without open values at {}:{pc}", p.path));
                    }
                    n = top as usize - ra - 1;
                } else {
                    n = match prog.ver {
                        Ver::L50 => (d.bx as u64 % prog.flush) as usize + 1,
                        Ver::L51 => d.b as usize,
                    };
                    reg!(d.a + n as u32);
                }
                let first = match prog.ver {
                    Ver::L50 => d.bx as u64 - d.bx as u64 % prog.flush,
                    Ver::L51 => {
                        let mut c = d.c as u64;
                        if c == 0 {
                            c = match p.code.get(pc + 1) {
                                Some(Ok(x)) => x.raw,
                                Some(Err(w)) => *w,
                                None => return ub("SETLIST count missing".into()),
                            };
                            self.frames[fi].pc += 1;
                        }
                        if c == 0 {
                            return ub("SETLIST page 0".into());
                        }
                        (c - 1) * prog.flush
                    }
                };
                for k in (1..=n).rev() {
                    let v = self.stack[ra + k];
                    if v == V::Undef {
                        return ub(format!("SETLIST stores an undefined register at {}:{pc}", p.path));
                    }
                    self.tabs[t as usize].set(V::Num((first + k as u64) as f64), v);
                }
            }
            Op::Close => {
                reg!(d.a);
                self.close(base + d.a)
            }
            Op::Closure => {
                let Some(&kid) = p.kids.get(d.bx as usize) else {
                    return ub(format!("function {} does not exist at {}:{pc}", d.bx, p.path));
                };
                let nups = prog.protos[kid].nups as usize;
                let mut ups = vec![];
                for k in 0..nups {
                    match p.code.get(pc + 1 + k) {
                        Some(Ok(i)) if i.op == Op::Move => {
                            let at = reg!(i.b) as u32;
                            let u = match self.open.iter().find(|o| o.0 == at) {
                                Some(o) => o.1,
                                None => {
                                    self.ups.push(Up::Open(at));
                                    let u = self.ups.len() as u32 - 1;
                                    self.open.push((at, u));
                                    u
                                }
                            };
                            ups.push(u)
                        }
                        Some(Ok(i)) if i.op == Op::GetUpval => ups.push(upidx!(i.b) as u32),
                        _ => return ub(format!("CLOSURE at {}:{pc} lacks its capture list", p.path)),
                    }
                }
                self.frames[fi].pc += nups as u32;
                self.clos.push(Clo { proto: kid as u32, ups });
                let c = V::Fun(self.clos.len() as u32 - 1);
                set!(d.a, c)
            }
            Op::VarArg => {
                if p.vararg & 2 == 0 {
                    return ub("VARARG in a function that is not variadic".into());
                }
                let va = self.frames[fi].varargs.clone();
                if d.b == 0 {
                    self.check_open(p, pc + 1)?;
                    let f = reg!(d.a);
                    let need = f + va.len();
                    if self.stack.len() < need {
                        self.stack.resize(need, V::Undef);
                    }
                    self.stack[f..need].copy_from_slice(&va);
                    self.frames[fi].top = need as u32;
                } else {
                    for k in 0..d.b - 1 {
                        set!(d.a + k, va.get(k as usize).copied().unwrap_or(V::Nil))
                    }
                }
            }
        }
        Ok(())
    }
    fn check_open(&self, p: &P, next: usize) -> Res<()> {
        match p.code.get(next) {
            Some(Ok(i)) => {
                let ok = match i.op {
                    Op::Call | Op::TailCall | Op::Return => i.b == 0,
                    Op::SetList => i.b == 0,
                    Op::SetListO => true,
                    _ => false,
                };
                if ok {
                    return Ok(());
                }
            }
            _ => {}
        }
        ub(format!("open result before {}:{next} is not consumed", p.path))
    }
    fn call(&mut self, prog: &Prog, s: &mut Strs, f: u32, nargs: u32, want: i32, tfor: bool) -> Res<()> {
        let fv = self.stack[f as usize];
        match fv {
            V::Undef => ub("calling an undefined register".into()),
            V::Fun(_) => self.enter(prog, s, f, nargs, want, tfor),
            V::Host(h) => {
                let args = self.stack[f as usize + 1..(f + 1 + nargs) as usize].to_vec();
                if args.contains(&V::Undef) {
                    return ub("undefined register passed to a function".into());
                }
                match h {
                    H_TYPE => {
                        let n = match args.first() {
                            None => return Err(Stop::Error("type")),
                            Some(V::Nil) => "nil",
                            Some(V::Bool(_)) => "boolean",
                            Some(V::Num(_)) => "number",
                            Some(V::Str(_)) => "string",
                            Some(V::Tab(_)) => "table",
                            _ => "function",
                        };
                        let v = V::Str(s.id(n.as_bytes()));
                        self.deliver(prog, f, want, tfor, &[v]);
                        Ok(())
                    }
                    H_NEXT => {
                        let Some(V::Tab(t)) = args.first() else { return Err(Stop::Error("next")) };
                        let pairs = self.tabs[*t as usize].pairs(s);
                        let k = args.get(1).copied().unwrap_or(V::Nil);
                        let i = if k == V::Nil {
                            0
                        } else {
                            match pairs.iter().position(|e| e.0 == k) {
                                Some(i) => i + 1,
                                None => return Err(Stop::Error("next key")),
                            }
                        };
                        match pairs.get(i) {
                            Some((k, v)) => self.deliver(prog, f, want, tfor, &[*k, *v]),
                            None => self.deliver(prog, f, want, tfor, &[V::Nil]),
                        }
                        Ok(())
                    }
                    _ => {
                        self.pending = Some((f, want, tfor));
                        self.pargs = args.clone();
                        Err(Stop::Host(h, args))
                    }
                }
            }
            _ => Err(Stop::Error("call")),
        }
    }

    /// Where every active function currently is: (path, line, visible locals).
    pub fn debug(&self, prog: &Prog, s: &Strs) -> Vec<(String, Option<i64>, Vec<(u32, V)>)> {
        self.frames
            .iter()
            .map(|f| {
                let p = &prog.protos[f.proto as usize];
                let pc = f.pc as i64 - 1;
                let line = p.lines.get(pc as usize).copied();
                let mut vars = vec![];
                let mut n = 0;
                for (name, a, b) in &p.locals {
                    if *a <= pc && pc < *b {
                        let v = self.stack.get((f.base + n) as usize).copied().unwrap_or(V::Undef);
                        n += 1;
                        if s.v[*name as usize].first() != Some(&b'(') {
                            vars.push((*name, v));
                        }
                    }
                }
                (p.path.clone(), line, vars)
            })
            .collect()
    }

    /// Canonical description of the whole state: equal strings mean equal
    /// futures (objects are numbered in order of discovery).
    pub fn canon(&self, prog: &Prog, s: &Strs, out: &mut Vec<u8>) {
        let mut r = Render::new(self, prog, s, false);
        for f in &self.frames {
            r.u(f.proto as u64);
            r.u(f.pc as u64);
            r.u(f.base as u64);
            r.u(f.func as u64);
            r.u(f.want as u64);
            r.u(f.top as u64);
            r.u(f.tfor as u64);
            r.val(V::Fun(f.clo));
            for v in &f.varargs {
                r.val(*v)
            }
        }
        if let Some((a, b, c)) = self.pending {
            r.u(a as u64);
            r.u(b as u64);
            r.u(c as u64);
        }
        for v in &self.stack {
            r.val(*v)
        }
        let mut open = self.open.clone();
        open.sort();
        for (at, u) in open {
            r.u(at as u64);
            r.up(u);
        }
        let mut g = self.globals.clone();
        g.sort_by_key(|x| x.0);
        for (k, v) in g {
            r.u(k as u64);
            r.val(v)
        }
        r.finish();
        out.extend(r.out);
    }

    /// Deep, content based rendering of values (for events). `plain` hides
    /// function identities.
    pub fn render(&self, prog: &Prog, s: &Strs, vals: &[V], plain: bool, ignore_n: bool) -> String {
        let mut t = Text { m: self, prog, s, seen: vec![], funs: vec![], ups: vec![], plain, ignore_n, out: String::new() };
        for (i, v) in vals.iter().enumerate() {
            if i > 0 {
                t.out.push(' ');
            }
            t.val(*v, 0);
        }
        t.out
    }
}

pub fn fmt_num(n: f64) -> String {
    if n.fract() == 0.0 && n.abs() < 1e15 {
        if n == 0.0 && n.is_sign_negative() {
            return "-0".into();
        }
        format!("{}", n as i64)
    } else if n.is_nan() {
        if n.is_sign_negative() { "-nan".into() } else { "nan".into() }
    } else if n.is_infinite() {
        if n > 0.0 { "inf".into() } else { "-inf".into() }
    } else {
        // %.14g for the magnitudes used here
        let e = n.abs().log10().floor() as i32;
        if (-5..14).contains(&e) {
            let s = format!("{:.*}", (13 - e).max(0) as usize, n);
            s.trim_end_matches('0').trim_end_matches('.').to_string()
        } else {
            let s = format!("{:.13e}", n);
            let (m, x) = s.split_once('e').unwrap();
            let m = if m.contains('.') { m.trim_end_matches('0').trim_end_matches('.') } else { m };
            let x: i32 = x.parse().unwrap();
            format!("{m}e{}{:02}", if x < 0 { '-' } else { '+' }, x.abs())
        }
    }
}

struct Render<'a> {
    m: &'a M,
    s: &'a Strs,
    out: Vec<u8>,
    tabs: Vec<u32>,
    clos: Vec<u32>,
    ups: Vec<u32>,
    tdone: usize,
    cdone: usize,
    udone: usize,
}
impl<'a> Render<'a> {
    fn new(m: &'a M, _p: &'a Prog, s: &'a Strs, _plain: bool) -> Self {
        Render { m, s, out: vec![], tabs: vec![], clos: vec![], ups: vec![], tdone: 0, cdone: 0, udone: 0 }
    }
    fn u(&mut self, v: u64) {
        self.out.extend((v as u32).to_le_bytes())
    }
    fn num(list: &mut Vec<u32>, id: u32) -> u64 {
        match list.iter().position(|x| *x == id) {
            Some(i) => i as u64,
            None => {
                list.push(id);
                list.len() as u64 - 1
            }
        }
    }
    fn up(&mut self, u: u32) {
        let n = Self::num(&mut self.ups, u);
        self.u(n)
    }
    fn val(&mut self, v: V) {
        match v {
            V::Undef => self.out.push(0),
            V::Nil => self.out.push(1),
            V::Bool(b) => self.out.push(2 + b as u8),
            V::Num(n) => {
                self.out.push(4);
                self.out.extend(n.to_bits().to_le_bytes())
            }
            V::Str(i) => {
                self.out.push(5);
                self.u(i as u64)
            }
            V::Host(h) => {
                self.out.push(6);
                self.out.push(h)
            }
            V::Tab(t) => {
                self.out.push(7);
                let n = Self::num(&mut self.tabs, t);
                self.u(n)
            }
            V::Fun(c) => {
                self.out.push(8);
                let n = Self::num(&mut self.clos, c);
                self.u(n)
            }
        }
    }
    fn finish(&mut self) {
        let m = self.m;
        loop {
            if self.tdone < self.tabs.len() {
                let t = self.tabs[self.tdone];
                self.tdone += 1;
                let pairs = m.tabs[t as usize].pairs(self.s);
                self.u(pairs.len() as u64);
                for (k, v) in pairs {
                    self.val(k);
                    self.val(v);
                }
            } else if self.cdone < self.clos.len() {
                let c = &m.clos[self.clos[self.cdone] as usize];
                self.cdone += 1;
                self.u(c.proto as u64);
                for &u in &c.ups {
                    self.up(u)
                }
            } else if self.udone < self.ups.len() {
                let u = self.ups[self.udone];
                self.udone += 1;
                match m.ups[u as usize] {
                    Up::Open(i) => {
                        self.out.push(9);
                        self.u(i as u64)
                    }
                    Up::Closed(v) => self.val(v),
                }
            } else {
                return;
            }
        }
    }
}

struct Text<'a> {
    m: &'a M,
    prog: &'a Prog,
    s: &'a Strs,
    seen: Vec<u32>,
    funs: Vec<u32>,
    ups: Vec<u32>,
    plain: bool,
    ignore_n: bool,
    out: String,
}
impl Text<'_> {
    fn val(&mut self, v: V, depth: usize) {
        match v {
            V::Undef => self.out += "?",
            V::Nil => self.out += "nil",
            V::Bool(b) => self.out += if b { "true" } else { "false" },
            V::Num(n) => self.out += &fmt_num(n),
            V::Str(i) => {
                self.out.push('"');
                for b in self.s.v[i as usize].iter() {
                    if b.is_ascii_graphic() && *b != b'"' && *b != b'\\' || *b == b' ' {
                        self.out.push(*b as char)
                    } else {
                        self.out += &format!("\\{b:03}")
                    }
                }
                self.out.push('"')
            }
            V::Host(h) => {
                if self.plain {
                    self.out += "F"
                } else {
                    self.out += "H:";
                    self.out += HOSTS[h as usize]
                }
            }
            V::Tab(t) => {
                if let Some(i) = self.seen.iter().position(|x| *x == t) {
                    self.out += &format!("@{i}");
                    return;
                }
                if depth > 12 {
                    self.out += "...";
                    return;
                }
                self.seen.push(t);
                self.out.push('{');
                for (i, (k, v)) in self.m.tabs[t as usize].pairs(self.s).into_iter().enumerate() {
                    if self.ignore_n && k == V::Str(self.s.m.get(&b"n"[..]).copied().unwrap_or(u32::MAX)) {
                        continue;
                    }
                    if i > 0 {
                        self.out.push(',');
                    }
                    self.val(k, depth + 1);
                    self.out.push('=');
                    self.val(v, depth + 1);
                }
                self.out.push('}')
            }
            V::Fun(c) => {
                if self.plain {
                    self.out += "F";
                    return;
                }
                if let Some(i) = self.funs.iter().position(|x| *x == c) {
                    self.out += &format!("f@{i}");
                    return;
                }
                self.funs.push(c);
                let c = &self.m.clos[c as usize];
                self.out += &format!("fn{}(", self.prog.protos[c.proto as usize].path);
                for &u in &c.ups {
                    if let Some(i) = self.ups.iter().position(|x| *x == u) {
                        self.out += &format!("u@{i} ");
                        continue;
                    }
                    self.ups.push(u);
                    let v = match self.m.ups[u as usize] {
                        Up::Open(i) => self.m.stack[i as usize],
                        Up::Closed(v) => v,
                    };
                    self.val(v, depth + 1);
                    self.out.push(' ');
                }
                self.out.push(')')
            }
        }
    }
}
