//! Port of the one-pass code generators of Lua 5.0.2 and Lua 5.1.5
//! (lparser.c / lcode.c), driven by a program tree instead of tokens.
use crate::ast::{Bin, Func, Item, Un, E, S};
use crate::chunk::{raw, Local, Proto, K};
use crate::ops::*;
use std::collections::HashMap;

const NO_JUMP: i64 = -1;
const NO_REG: i64 = 255;
/// Internal RK marker, replaced when the code is encoded.
const KMARK: i64 = 1 << 24;
const MAXSTACK: i64 = 250;

#[derive(Clone, Debug)]
pub struct Opt {
    pub ver: Ver,
    pub flush: u64,
    /// Lua 5.1 `LUA_COMPAT_VARARG` (stock default).
    pub compat_vararg: bool,
    /// Largest constant index usable in an RK operand.
    pub max_rk: i64,
    pub source: Vec<u8>,
    pub line_step: i64,
}
impl Opt {
    pub fn new(side: &Side, ver: Ver) -> Opt {
        Opt {
            ver,
            flush: side.flush,
            compat_vararg: true,
            max_rk: match ver {
                Ver::L50 => (side.layout.fmax(Fld::C) as i64).min(side.layout.fmax(Fld::B) as i64) - side.limit as i64,
                Ver::L51 => side.layout.kbit() as i64 - 1,
            },
            source: raw("@prog"),
            line_step: 1,
        }
    }
}

#[derive(Clone, Copy, Debug)]
struct G {
    op: Op,
    a: i64,
    b: i64,
    c: i64,
    bx: i64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Void,
    Nil,
    True,
    False,
    K,
    KNum,
    Local,
    Upval,
    Global,
    Indexed,
    Jmp,
    Reloc,
    NonReloc,
    Call,
    Vararg,
}
#[derive(Clone, Copy, Debug)]
struct X {
    k: Kind,
    info: i64,
    aux: i64,
    nval: f64,
    t: i64,
    f: i64,
}
fn x(k: Kind, info: i64) -> X {
    X { k, info, aux: 0, nval: 0.0, t: NO_JUMP, f: NO_JUMP }
}

struct Blk {
    brk: i64,
    breakable: bool,
    nactvar: i64,
    upval: bool,
}

#[derive(Clone, PartialEq, Eq, Hash)]
enum KKey {
    Nil,
    Bool(bool),
    Num(u64),
    Str(String),
}

struct Fs {
    p: Proto,
    code: Vec<G>,
    lines: Vec<i64>,
    kmap: HashMap<KKey, i64>,
    lasttarget: i64,
    jpc: i64,
    freereg: i64,
    nactvar: i64,
    actvar: Vec<usize>,
    locnames: Vec<String>,
    locals: Vec<(i64, i64)>,
    blocks: Vec<Blk>,
    upvals: Vec<(bool, i64)>,
    upnames: Vec<String>,
    maxstack: i64,
}

pub struct Gen<'a> {
    o: &'a Opt,
    side: &'a Side,
    fs: Vec<Fs>,
    line: i64,
}
type R<T> = Result<T, String>;

/// Compile a main chunk.
pub fn compile(body: &[S], o: &Opt, side: &Side) -> R<Proto> {
    let mut g = Gen { o, side, fs: vec![], line: 1 };
    g.open();
    if o.ver == Ver::L51 {
        g.f().p.vararg = 2;
    }
    g.chunk(body)?;
    let (p, _) = g.close()?;
    Ok(p)
}
/// Compile with the default options of a side.
pub fn comp(body: &[S], ver: Ver, side: &Side) -> R<Proto> {
    compile(body, &Opt::new(side, ver), side)
}

impl Gen<'_> {
    fn l50(&self) -> bool {
        self.o.ver == Ver::L50
    }
    fn f(&mut self) -> &mut Fs {
        self.fs.last_mut().unwrap()
    }
    fn pc(&mut self) -> i64 {
        self.f().code.len() as i64
    }
    fn open(&mut self) {
        self.fs.push(Fs {
            p: Proto { source: if self.fs.is_empty() || self.l50() { self.o.source.clone() } else { vec![] }, ..Proto::default() },
            code: vec![],
            lines: vec![],
            kmap: HashMap::new(),
            lasttarget: -1,
            jpc: NO_JUMP,
            freereg: 0,
            nactvar: 0,
            actvar: vec![],
            locnames: vec![],
            locals: vec![],
            blocks: vec![],
            upvals: vec![],
            upnames: vec![],
            maxstack: 2,
        });
    }
    fn close(&mut self) -> R<(Proto, Vec<(bool, i64)>)> {
        self.removevars(0);
        self.abc(Op::Return, 0, 1, 0);
        let side = self.side;
        let ver = self.o.ver;
        let mut f = self.fs.pop().unwrap();
        for g in &f.code {
            f.p.code.push(enc(ver, side, g).ok_or_else(|| format!("does not fit: {g:?}"))?);
        }
        f.p.lines = f.lines;
        f.p.nups = f.upvals.len() as u8;
        f.p.maxstack = f.maxstack as u8;
        f.p.locals = f.locals.iter().zip(&f.locnames).map(|(l, n)| Local { name: raw(n), start: l.0, end: l.1 }).collect();
        f.p.upnames = f.upnames.iter().map(|n| raw(n)).collect();
        Ok((f.p, f.upvals))
    }

    // ---- lcode ----
    fn code(&mut self, g: G) -> i64 {
        self.dischargejpc();
        let line = self.line;
        let f = self.f();
        f.code.push(g);
        f.lines.push(line);
        f.code.len() as i64 - 1
    }
    fn abc(&mut self, op: Op, a: i64, b: i64, c: i64) -> i64 {
        self.code(G { op, a, b, c, bx: 0 })
    }
    fn abx(&mut self, op: Op, a: i64, bx: i64) -> i64 {
        self.code(G { op, a, b: 0, c: 0, bx })
    }
    fn nil(&mut self, from: i64, n: i64) {
        let l51 = !self.l50();
        let f = self.f();
        let pc = f.code.len() as i64;
        if pc > f.lasttarget {
            if pc == 0 {
                if l51 && from >= f.nactvar {
                    return;
                }
            } else {
                let p = f.code.last_mut().unwrap();
                if p.op == Op::LoadNil && p.a <= from && from <= p.b + 1 {
                    if from + n - 1 > p.b {
                        p.b = from + n - 1;
                    }
                    return;
                }
            }
        }
        self.abc(Op::LoadNil, from, from + n - 1, 0);
    }
    fn jump(&mut self) -> i64 {
        let jpc = self.f().jpc;
        self.f().jpc = NO_JUMP;
        let mut j = self.abx(Op::Jmp, 0, NO_JUMP);
        self.concat(&mut j, jpc);
        j
    }
    fn condjump(&mut self, op: Op, a: i64, b: i64, c: i64) -> i64 {
        self.abc(op, a, b, c);
        self.jump()
    }
    fn fixjump(&mut self, pc: i64, dest: i64) {
        assert!(dest != NO_JUMP);
        self.f().code[pc as usize].bx = dest - (pc + 1);
    }
    fn getlabel(&mut self) -> i64 {
        let pc = self.pc();
        self.f().lasttarget = pc;
        pc
    }
    fn getjump(&mut self, pc: i64) -> i64 {
        match self.f().code[pc as usize].bx {
            NO_JUMP => NO_JUMP,
            o => pc + 1 + o,
        }
    }
    fn control(&mut self, pc: i64) -> usize {
        let f = self.f();
        if pc >= 1 && matches!(f.code[pc as usize - 1].op, Op::Eq | Op::Lt | Op::Le | Op::Test | Op::TestSet | Op::TForLoop) {
            // TFORLOOP is a test in both versions.
            pc as usize - 1
        } else {
            pc as usize
        }
    }
    fn need_value(&mut self, mut list: i64, cond: i64) -> bool {
        while list != NO_JUMP {
            let c = self.control(list);
            let g = self.f().code[c];
            if self.l50() {
                if g.op != Op::Test || g.c != cond {
                    return true;
                }
            } else if g.op != Op::TestSet {
                return true;
            }
            list = self.getjump(list);
        }
        false
    }
    // 5.1
    fn patchtestreg(&mut self, node: i64, reg: i64) -> bool {
        let c = self.control(node);
        let g = &mut self.f().code[c];
        if g.op != Op::TestSet {
            return false;
        }
        if reg != NO_REG && reg != g.b {
            g.a = reg;
        } else {
            *g = G { op: Op::Test, a: g.b, b: 0, c: g.c, bx: 0 };
        }
        true
    }
    fn removevalues(&mut self, mut list: i64) {
        while list != NO_JUMP {
            self.patchtestreg(list, NO_REG);
            list = self.getjump(list);
        }
    }
    fn patchlistaux51(&mut self, mut list: i64, vt: i64, reg: i64, dt: i64) {
        while list != NO_JUMP {
            let next = self.getjump(list);
            if self.patchtestreg(list, reg) {
                self.fixjump(list, vt)
            } else {
                self.fixjump(list, dt)
            }
            list = next;
        }
    }
    fn patchlistaux50(&mut self, mut list: i64, tt: i64, treg: i64, ft: i64, freg: i64, dt: i64) {
        while list != NO_JUMP {
            let next = self.getjump(list);
            let c = self.control(list);
            let g = &mut self.f().code[c];
            if g.op != Op::Test {
                self.fixjump(list, dt)
            } else {
                let (reg, target) = if g.c != 0 { (treg, tt) } else { (freg, ft) };
                g.a = if reg == NO_REG { g.b } else { reg };
                self.fixjump(list, target)
            }
            list = next;
        }
    }
    fn dischargejpc(&mut self) {
        let pc = self.pc();
        let l = self.f().jpc;
        if self.l50() {
            self.patchlistaux50(l, pc, NO_REG, pc, NO_REG, pc)
        } else {
            self.patchlistaux51(l, pc, NO_REG, pc)
        }
        self.f().jpc = NO_JUMP;
    }
    fn patchlist(&mut self, list: i64, target: i64) {
        if target == self.pc() {
            self.patchtohere(list)
        } else if self.l50() {
            self.patchlistaux50(list, target, NO_REG, target, NO_REG, target)
        } else {
            self.patchlistaux51(list, target, NO_REG, target)
        }
    }
    fn patchtohere(&mut self, list: i64) {
        self.getlabel();
        let mut j = self.f().jpc;
        self.concat(&mut j, list);
        self.f().jpc = j;
    }
    fn concat(&mut self, l1: &mut i64, l2: i64) {
        if l2 == NO_JUMP {
            return;
        }
        if *l1 == NO_JUMP {
            *l1 = l2;
            return;
        }
        let mut list = *l1;
        loop {
            let next = self.getjump(list);
            if next == NO_JUMP {
                break;
            }
            list = next;
        }
        self.fixjump(list, l2)
    }
    fn checkstack(&mut self, n: i64) -> R<()> {
        let f = self.f();
        let s = f.freereg + n;
        if s > f.maxstack {
            if s >= MAXSTACK {
                return Err("function or expression too complex".into());
            }
            f.maxstack = s;
        }
        Ok(())
    }
    fn reserve(&mut self, n: i64) -> R<()> {
        self.checkstack(n)?;
        self.f().freereg += n;
        Ok(())
    }
    fn freereg(&mut self, r: i64) {
        let f = self.f();
        if r & KMARK == 0 && r >= f.nactvar {
            f.freereg -= 1;
            assert_eq!(r, f.freereg, "freereg");
        }
    }
    fn freeexp(&mut self, e: &X) {
        if e.k == Kind::NonReloc {
            self.freereg(e.info)
        }
    }
    fn addk(&mut self, key: KKey) -> i64 {
        let f = self.f();
        if let Some(&i) = f.kmap.get(&key) {
            return i;
        }
        let i = f.p.k.len() as i64;
        f.p.k.push(match &key {
            KKey::Nil => K::Nil,
            KKey::Bool(b) => K::Bool(*b),
            KKey::Num(n) => K::Flt(f64::from_bits(*n)),
            KKey::Str(s) => K::Str(raw(s)),
        });
        f.kmap.insert(key, i);
        i
    }
    fn stringk(&mut self, s: &str) -> i64 {
        self.addk(KKey::Str(s.into()))
    }
    fn numk(&mut self, v: f64) -> i64 {
        self.addk(KKey::Num(if v == 0.0 { 0.0f64.to_bits() } else { v.to_bits() }))
    }
    fn setreturns(&mut self, e: &mut X, n: i64) -> R<()> {
        match e.k {
            Kind::Call => self.f().code[e.info as usize].c = n + 1,
            Kind::Vararg => {
                let fr = self.f().freereg;
                let g = &mut self.f().code[e.info as usize];
                g.b = n + 1;
                g.a = fr;
                self.reserve(1)?;
            }
            _ => {}
        }
        if self.l50() && n == 1 && e.k == Kind::Call {
            e.k = Kind::NonReloc;
            e.info = self.f().code[e.info as usize].a;
        }
        Ok(())
    }
    fn setoneret(&mut self, e: &mut X) {
        match e.k {
            Kind::Call => {
                e.k = Kind::NonReloc;
                e.info = self.f().code[e.info as usize].a;
            }
            Kind::Vararg => {
                self.f().code[e.info as usize].b = 2;
                e.k = Kind::Reloc;
            }
            _ => {}
        }
    }
    fn dischargevars(&mut self, e: &mut X) {
        match e.k {
            Kind::Local => e.k = Kind::NonReloc,
            Kind::Upval => {
                e.info = self.abc(Op::GetUpval, 0, e.info, 0);
                e.k = Kind::Reloc
            }
            Kind::Global => {
                e.info = self.abx(Op::GetGlobal, 0, e.info);
                e.k = Kind::Reloc
            }
            Kind::Indexed => {
                self.freereg(e.aux);
                self.freereg(e.info);
                e.info = self.abc(Op::GetTable, 0, e.info, e.aux);
                e.k = Kind::Reloc
            }
            Kind::Vararg | Kind::Call => self.setoneret(e),
            _ => {}
        }
    }
    fn code_label(&mut self, a: i64, b: i64, j: i64) -> i64 {
        self.getlabel();
        self.abc(Op::LoadBool, a, b, j)
    }
    fn discharge2reg(&mut self, e: &mut X, reg: i64) {
        self.dischargevars(e);
        match e.k {
            Kind::Nil => self.nil(reg, 1),
            Kind::False | Kind::True => {
                self.abc(Op::LoadBool, reg, (e.k == Kind::True) as i64, 0);
            }
            Kind::K => {
                self.abx(Op::LoadK, reg, e.info);
            }
            Kind::KNum => {
                let k = self.numk(e.nval);
                self.abx(Op::LoadK, reg, k);
            }
            Kind::Reloc => self.f().code[e.info as usize].a = reg,
            Kind::NonReloc => {
                if reg != e.info {
                    self.abc(Op::Move, reg, e.info, 0);
                }
            }
            _ => return,
        }
        e.info = reg;
        e.k = Kind::NonReloc;
    }
    fn discharge2anyreg(&mut self, e: &mut X) -> R<()> {
        if e.k != Kind::NonReloc {
            self.reserve(1)?;
            let r = self.f().freereg - 1;
            self.discharge2reg(e, r);
        }
        Ok(())
    }
    fn exp2reg(&mut self, e: &mut X, reg: i64) {
        self.discharge2reg(e, reg);
        if e.k == Kind::Jmp {
            let mut t = e.t;
            self.concat(&mut t, e.info);
            e.t = t;
        }
        if e.t != e.f {
            let (mut pf, mut pt) = (NO_JUMP, NO_JUMP);
            if self.need_value(e.t, 1) || self.need_value(e.f, 0) {
                let fj = if e.k == Kind::Jmp { NO_JUMP } else { self.jump() };
                pf = self.code_label(reg, 0, 1);
                pt = self.code_label(reg, 1, 0);
                self.patchtohere(fj);
            }
            let fin = self.getlabel();
            if self.l50() {
                self.patchlistaux50(e.f, pf, NO_REG, fin, reg, pf);
                self.patchlistaux50(e.t, fin, reg, pt, NO_REG, pt);
            } else {
                self.patchlistaux51(e.f, fin, reg, pf);
                self.patchlistaux51(e.t, fin, reg, pt);
            }
        }
        e.t = NO_JUMP;
        e.f = NO_JUMP;
        e.info = reg;
        e.k = Kind::NonReloc;
    }
    fn nextreg(&mut self, e: &mut X) -> R<()> {
        self.dischargevars(e);
        self.freeexp(e);
        self.reserve(1)?;
        let r = self.f().freereg - 1;
        self.exp2reg(e, r);
        Ok(())
    }
    fn anyreg(&mut self, e: &mut X) -> R<i64> {
        self.dischargevars(e);
        if e.k == Kind::NonReloc {
            if e.t == e.f {
                return Ok(e.info);
            }
            if e.info >= self.f().nactvar {
                let r = e.info;
                self.exp2reg(e, r);
                return Ok(e.info);
            }
        }
        self.nextreg(e)?;
        Ok(e.info)
    }
    fn exp2val(&mut self, e: &mut X) -> R<()> {
        if e.t != e.f {
            self.anyreg(e)?;
        } else {
            self.dischargevars(e)
        }
        Ok(())
    }
    fn rk(&mut self, e: &mut X) -> R<i64> {
        self.exp2val(e)?;
        let max = self.o.max_rk;
        let nk = self.f().p.k.len() as i64;
        match e.k {
            Kind::KNum | Kind::True | Kind::False if !self.l50() => {
                if nk <= max {
                    e.info = match e.k {
                        Kind::KNum => self.numk(e.nval),
                        k => self.addk(KKey::Bool(k == Kind::True)),
                    };
                    e.k = Kind::K;
                    return Ok(e.info | KMARK);
                }
            }
            Kind::Nil => {
                if nk <= max {
                    e.info = self.addk(KKey::Nil);
                    e.k = Kind::K;
                    return Ok(e.info | KMARK);
                }
            }
            Kind::K => {
                if e.info <= max {
                    return Ok(e.info | KMARK);
                }
            }
            _ => {}
        }
        self.anyreg(e)
    }
    fn storevar(&mut self, var: &X, ex: &mut X) -> R<()> {
        match var.k {
            Kind::Local => {
                self.freeexp(ex);
                self.exp2reg(ex, var.info);
                return Ok(());
            }
            Kind::Upval => {
                let e = self.anyreg(ex)?;
                self.abc(Op::SetUpval, e, var.info, 0);
            }
            Kind::Global => {
                let e = self.anyreg(ex)?;
                self.abx(Op::SetGlobal, e, var.info);
            }
            Kind::Indexed => {
                let e = self.rk(ex)?;
                self.abc(Op::SetTable, var.info, var.aux, e);
            }
            _ => return Err("bad store".into()),
        }
        self.freeexp(ex);
        Ok(())
    }
    fn self_(&mut self, e: &mut X, key: &mut X) -> R<()> {
        self.anyreg(e)?;
        self.freeexp(e);
        let func = self.f().freereg;
        self.reserve(2)?;
        let k = self.rk(key)?;
        self.abc(Op::SelfOp, func, e.info, k);
        self.freeexp(key);
        e.info = func;
        e.k = Kind::NonReloc;
        Ok(())
    }
    fn invertjump(&mut self, e: &X) {
        let c = self.control(e.info);
        let g = &mut self.f().code[c];
        g.a = (g.a == 0) as i64;
    }
    fn jumponcond(&mut self, e: &mut X, cond: i64) -> R<i64> {
        if e.k == Kind::Reloc {
            let g = self.f().code[e.info as usize];
            if g.op == Op::Not {
                self.f().code.pop();
                self.f().lines.pop();
                return Ok(if self.l50() {
                    self.condjump(Op::Test, NO_REG, g.b, (cond == 0) as i64)
                } else {
                    self.condjump(Op::Test, g.b, 0, (cond == 0) as i64)
                });
            }
        }
        self.discharge2anyreg(e)?;
        self.freeexp(e);
        let op = if self.l50() { Op::Test } else { Op::TestSet };
        Ok(self.condjump(op, NO_REG, e.info, cond))
    }
    fn goiftrue(&mut self, e: &mut X) -> R<()> {
        self.dischargevars(e);
        let pc = match e.k {
            Kind::K | Kind::KNum | Kind::True => NO_JUMP,
            Kind::False if self.l50() => self.jump(),
            Kind::Jmp => {
                self.invertjump(e);
                e.info
            }
            _ => self.jumponcond(e, 0)?,
        };
        let mut l = e.f;
        self.concat(&mut l, pc);
        e.f = l;
        if !self.l50() {
            self.patchtohere(e.t);
            e.t = NO_JUMP;
        }
        Ok(())
    }
    fn goiffalse(&mut self, e: &mut X) -> R<()> {
        self.dischargevars(e);
        let pc = match e.k {
            Kind::Nil | Kind::False => NO_JUMP,
            Kind::True if self.l50() => self.jump(),
            Kind::Jmp => e.info,
            _ => self.jumponcond(e, 1)?,
        };
        let mut l = e.t;
        self.concat(&mut l, pc);
        e.t = l;
        if !self.l50() {
            self.patchtohere(e.f);
            e.f = NO_JUMP;
        }
        Ok(())
    }
    fn codenot(&mut self, e: &mut X) -> R<()> {
        self.dischargevars(e);
        match e.k {
            Kind::Nil | Kind::False => e.k = Kind::True,
            Kind::K | Kind::KNum | Kind::True => e.k = Kind::False,
            Kind::Jmp => self.invertjump(e),
            Kind::Reloc | Kind::NonReloc => {
                self.discharge2anyreg(e)?;
                self.freeexp(e);
                e.info = self.abc(Op::Not, 0, e.info, 0);
                e.k = Kind::Reloc;
            }
            _ => return Err("not".into()),
        }
        std::mem::swap(&mut e.t, &mut e.f);
        if !self.l50() {
            self.removevalues(e.f);
            self.removevalues(e.t);
        }
        Ok(())
    }
    fn fold(&self, op: Op, a: &mut X, b: &X) -> bool {
        let num = |e: &X| e.k == Kind::KNum && e.t == NO_JUMP && e.f == NO_JUMP;
        if !num(a) || !num(b) {
            return false;
        }
        let (v1, v2) = (a.nval, b.nval);
        let r = match op {
            Op::Add => v1 + v2,
            Op::Sub => v1 - v2,
            Op::Mul => v1 * v2,
            Op::Div if v2 != 0.0 => v1 / v2,
            Op::Mod if v2 != 0.0 => v1 - (v1 / v2).floor() * v2,
            Op::Pow => v1.powf(v2),
            Op::Unm => -v1,
            _ => return false,
        };
        if r.is_nan() {
            return false;
        }
        a.nval = r;
        true
    }
    fn codearith(&mut self, op: Op, a: &mut X, b: &mut X) -> R<()> {
        if self.fold(op, a, b) {
            return Ok(());
        }
        let o2 = if op != Op::Unm && op != Op::Len { self.rk(b)? } else { 0 };
        let o1 = self.rk(a)?;
        if o1 > o2 {
            self.freeexp(a);
            self.freeexp(b);
        } else {
            self.freeexp(b);
            self.freeexp(a);
        }
        a.info = self.abc(op, 0, o1, o2);
        a.k = Kind::Reloc;
        Ok(())
    }
    fn prefix(&mut self, u: Un, e: &mut X) -> R<()> {
        if self.l50() {
            match u {
                Un::Minus => {
                    self.exp2val(e)?;
                    let num = match (e.k, self.f().p.k.get(e.info.max(0) as usize)) {
                        (Kind::K, Some(K::Flt(n))) => Some(*n),
                        _ => None,
                    };
                    if let Some(n) = num {
                        e.info = self.numk(-n);
                    } else {
                        self.anyreg(e)?;
                        self.freeexp(e);
                        e.info = self.abc(Op::Unm, 0, e.info, 0);
                        e.k = Kind::Reloc;
                    }
                }
                Un::Not => self.codenot(e)?,
                Un::Len => return Err("no # in Lua 5.0".into()),
            }
            return Ok(());
        }
        let mut z = x(Kind::KNum, 0);
        match u {
            Un::Minus => {
                if !(e.k == Kind::KNum && e.t == NO_JUMP && e.f == NO_JUMP) {
                    self.anyreg(e)?;
                }
                self.codearith(Op::Unm, e, &mut z)
            }
            Un::Not => self.codenot(e),
            Un::Len => {
                self.anyreg(e)?;
                self.codearith(Op::Len, e, &mut z)
            }
        }
    }
    fn infix(&mut self, o: Bin, v: &mut X) -> R<()> {
        match o {
            Bin::And => {
                self.goiftrue(v)?;
                if self.l50() {
                    self.patchtohere(v.t);
                    v.t = NO_JUMP;
                }
            }
            Bin::Or => {
                self.goiffalse(v)?;
                if self.l50() {
                    self.patchtohere(v.f);
                    v.f = NO_JUMP;
                }
            }
            Bin::Concat => self.nextreg(v)?,
            Bin::Add | Bin::Sub | Bin::Mul | Bin::Div | Bin::Mod | Bin::Pow
                if !self.l50() && v.k == Kind::KNum && v.t == NO_JUMP && v.f == NO_JUMP => {}
            _ => {
                self.rk(v)?;
            }
        }
        Ok(())
    }
    fn posfix(&mut self, o: Bin, a: &mut X, b: &mut X) -> R<()> {
        use Bin::*;
        match o {
            And => {
                self.dischargevars(b);
                if self.l50() {
                    // luaK_concat(fs, &e1->f, e2->f); rest of e1 from e2
                    let mut l = a.f;
                    self.concat(&mut l, b.f);
                    *a = X { f: l, ..*b };
                } else {
                    let mut l = b.f;
                    self.concat(&mut l, a.f);
                    *a = X { f: l, ..*b };
                }
            }
            Or => {
                self.dischargevars(b);
                if self.l50() {
                    let mut l = a.t;
                    self.concat(&mut l, b.t);
                    *a = X { t: l, ..*b };
                } else {
                    let mut l = b.t;
                    self.concat(&mut l, a.t);
                    *a = X { t: l, ..*b };
                }
            }
            Concat => {
                self.exp2val(b)?;
                if b.k == Kind::Reloc && self.f().code[b.info as usize].op == Op::Concat {
                    self.freeexp(a);
                    let info = a.info;
                    self.f().code[b.info as usize].b = info;
                    a.k = Kind::Reloc;
                    a.info = b.info;
                } else if self.l50() {
                    self.nextreg(b)?;
                    self.freeexp(b);
                    self.freeexp(a);
                    a.info = self.abc(Op::Concat, 0, a.info, b.info);
                    a.k = Kind::Reloc;
                } else {
                    self.nextreg(b)?;
                    self.codearith(Op::Concat, a, b)?;
                }
            }
            Add | Sub | Mul | Div | Mod | Pow => {
                let op = match o {
                    Add => Op::Add,
                    Sub => Op::Sub,
                    Mul => Op::Mul,
                    Div => Op::Div,
                    Mod => Op::Mod,
                    _ => Op::Pow,
                };
                if self.l50() {
                    if op == Op::Mod {
                        return Err("no % in Lua 5.0".into());
                    }
                    let o1 = self.rk(a)?;
                    let o2 = self.rk(b)?;
                    self.freeexp(b);
                    self.freeexp(a);
                    a.info = self.abc(op, 0, o1, o2);
                    a.k = Kind::Reloc;
                } else {
                    self.codearith(op, a, b)?
                }
            }
            Eq | Ne | Lt | Le | Gt | Ge => {
                let mut o1 = self.rk(a)?;
                let mut o2 = self.rk(b)?;
                self.freeexp(b);
                self.freeexp(a);
                if matches!(o, Gt | Ge) {
                    std::mem::swap(&mut o1, &mut o2);
                }
                let op = match o {
                    Eq | Ne => Op::Eq,
                    Lt | Gt => Op::Lt,
                    _ => Op::Le,
                };
                a.info = self.condjump(op, (o != Ne) as i64, o1, o2);
                a.k = Kind::Jmp;
            }
        }
        Ok(())
    }

    // ---- lparser ----
    fn new_local(&mut self, n: &str, off: i64) -> R<()> {
        let f = self.f();
        if f.nactvar + off + 1 > 200 {
            return Err("too many local variables".into());
        }
        f.locnames.push(n.into());
        f.locals.push((0, 0));
        let i = (f.nactvar + off) as usize;
        f.actvar.resize(f.actvar.len().max(i + 1), 0);
        f.actvar[i] = f.locals.len() - 1;
        Ok(())
    }
    fn adjustlocals(&mut self, n: i64) {
        let f = self.f();
        let pc = f.code.len() as i64;
        f.nactvar += n;
        for k in f.nactvar - n..f.nactvar {
            let i = f.actvar[k as usize];
            f.locals[i].0 = pc;
        }
    }
    fn removevars(&mut self, level: i64) {
        let f = self.f();
        let pc = f.code.len() as i64;
        while f.nactvar > level {
            f.nactvar -= 1;
            let i = f.actvar[f.nactvar as usize];
            f.locals[i].1 = pc;
        }
    }
    fn singlevar(&mut self, level: usize, n: &str, base: bool) -> R<Option<(bool, i64)>> {
        // Some((is_local, index)) or None for globals
        let f = &mut self.fs[level];
        for v in (0..f.nactvar).rev() {
            if f.locnames[f.actvar[v as usize]] == n {
                if !base {
                    if let Some(b) = f.blocks.iter_mut().rev().find(|b| b.nactvar <= v) {
                        b.upval = true;
                    }
                }
                return Ok(Some((true, v)));
            }
        }
        if level == 0 {
            return Ok(None);
        }
        match self.singlevar(level - 1, n, false)? {
            None => Ok(None),
            Some(src) => {
                let f = &mut self.fs[level];
                if let Some(i) = f.upvals.iter().position(|u| *u == src) {
                    return Ok(Some((false, i as i64)));
                }
                if f.upvals.len() >= if self.o.ver == Ver::L50 { 32 } else { 60 } {
                    return Err("too many upvalues".into());
                }
                f.upvals.push(src);
                f.upnames.push(n.into());
                Ok(Some((false, f.upvals.len() as i64 - 1)))
            }
        }
    }
    fn var(&mut self, n: &str) -> R<X> {
        let level = self.fs.len() - 1;
        Ok(match self.singlevar(level, n, true)? {
            None => {
                let k = self.stringk(n);
                x(Kind::Global, k)
            }
            Some((true, v)) => x(Kind::Local, v),
            Some((false, v)) => x(Kind::Upval, v),
        })
    }
    fn multret(k: Kind) -> bool {
        matches!(k, Kind::Call | Kind::Vararg)
    }
    fn adjust_assign(&mut self, nvars: i64, nexps: i64, e: &mut X) -> R<()> {
        let mut extra = nvars - nexps;
        if Self::multret(e.k) {
            extra = (extra + 1).max(0);
            self.setreturns(e, extra)?;
            if extra > 1 {
                self.reserve(extra - 1)?;
            }
        } else {
            if e.k != Kind::Void {
                self.nextreg(e)?;
            }
            if extra > 0 {
                let reg = self.f().freereg;
                self.reserve(extra)?;
                self.nil(reg, extra);
            }
        }
        Ok(())
    }
    fn enter(&mut self, breakable: bool) {
        let f = self.f();
        let nactvar = f.nactvar;
        f.blocks.push(Blk { brk: NO_JUMP, breakable, nactvar, upval: false });
    }
    fn leave(&mut self) {
        let b = self.f().blocks.pop().unwrap();
        self.removevars(b.nactvar);
        if b.upval {
            self.abc(Op::Close, b.nactvar, 0, 0);
        }
        let f = self.f();
        f.freereg = f.nactvar;
        self.patchtohere(b.brk);
    }
    fn tick(&mut self) {
        self.line += self.o.line_step;
    }
    fn block(&mut self, b: &[S]) -> R<()> {
        self.enter(false);
        self.chunk(b)?;
        self.leave();
        Ok(())
    }
    fn chunk(&mut self, b: &[S]) -> R<()> {
        for s in b {
            self.tick();
            self.stat(s)?;
            let f = self.f();
            f.freereg = f.nactvar;
        }
        Ok(())
    }
    fn body(&mut self, fun: &Func) -> R<X> {
        self.open();
        let line = self.line;
        self.f().p.line = line;
        for (i, p) in fun.params.iter().enumerate() {
            self.new_local(p, i as i64)?;
        }
        let n = fun.params.len() as i64;
        self.f().p.nparams = n as u8;
        if self.l50() {
            self.adjustlocals(n);
            if fun.dots {
                self.f().p.vararg = 1;
                self.new_local("arg", 0)?;
                self.adjustlocals(1);
            }
        } else {
            let mut total = n;
            if fun.dots {
                if self.o.compat_vararg {
                    self.new_local("arg", n)?;
                    total += 1;
                    self.f().p.vararg = 7;
                } else {
                    self.f().p.vararg = 2;
                }
            }
            self.adjustlocals(total);
        }
        let na = self.f().nactvar;
        self.reserve(na)?;
        self.chunk(&fun.body)?;
        self.tick();
        let l50 = self.l50();
        let line = self.line;
        let f = self.f();
        f.p.last_line = if l50 { f.p.line } else { line };
        let (p, ups) = self.close()?;
        let np = self.f().p.p.len() as i64;
        self.f().p.p.push(p);
        let v = x(Kind::Reloc, self.abx(Op::Closure, 0, np));
        for (is_local, i) in ups {
            self.abc(if is_local { Op::Move } else { Op::GetUpval }, 0, i, 0);
        }
        Ok(v)
    }
    fn explist(&mut self, v: &[E]) -> R<(X, i64)> {
        let mut e = self.expr(&v[0])?;
        for n in &v[1..] {
            self.nextreg(&mut e)?;
            e = self.expr(n)?;
        }
        Ok((e, v.len() as i64))
    }
    fn args(&mut self, f: &mut X, a: &[E]) -> R<()> {
        let line = self.line;
        let mut args = if a.is_empty() {
            x(Kind::Void, 0)
        } else {
            let (mut e, _) = self.explist(a)?;
            if Self::multret(e.k) {
                self.setreturns(&mut e, -1)?;
            }
            e
        };
        let base = f.info;
        let np = if Self::multret(args.k) {
            -1
        } else {
            if args.k != Kind::Void {
                self.nextreg(&mut args)?;
            }
            self.f().freereg - (base + 1)
        };
        *f = x(Kind::Call, self.abc(Op::Call, base, np + 1, 2));
        *self.f().lines.last_mut().unwrap() = line;
        self.f().freereg = base + 1;
        Ok(())
    }
    fn constructor(&mut self, items: &[Item]) -> R<X> {
        let pc = self.abc(Op::NewTable, 0, 0, 0);
        let mut t = x(Kind::Reloc, pc);
        self.nextreg(&mut t)?;
        let (mut na, mut nh, mut tostore) = (0i64, 0i64, 0i64);
        let mut v = x(Kind::Void, 0);
        for it in items {
            // closelistfield
            if v.k != Kind::Void {
                self.nextreg(&mut v)?;
                v.k = Kind::Void;
                if tostore as u64 == self.o.flush {
                    self.setlist(t.info, na, tostore);
                    tostore = 0;
                }
            }
            match it {
                Item::Pos(e) => {
                    v = self.expr(e)?;
                    na += 1;
                    tostore += 1;
                }
                Item::Named(..) | Item::Keyed(..) => {
                    let reg = self.f().freereg;
                    let (mut key, val) = match it {
                        Item::Named(n, val) => (x(Kind::K, self.stringk(n)), val),
                        Item::Keyed(k, val) => {
                            let mut k = self.expr(k)?;
                            self.exp2val(&mut k)?;
                            (k, val)
                        }
                        _ => unreachable!(),
                    };
                    nh += 1;
                    let rkkey = self.rk(&mut key)?;
                    let mut val = self.expr(val)?;
                    let rkval = self.rk(&mut val)?;
                    self.abc(Op::SetTable, t.info, rkkey, rkval);
                    self.f().freereg = reg;
                }
            }
        }
        // lastlistfield
        if tostore != 0 {
            if Self::multret(v.k) {
                self.setreturns(&mut v, -1)?;
                self.setlist(t.info, na, -1);
                if !self.l50() {
                    na -= 1;
                }
            } else {
                if v.k != Kind::Void {
                    self.nextreg(&mut v)?;
                }
                self.setlist(t.info, na, tostore);
            }
        }
        let l50 = self.l50();
        let g = &mut self.f().code[pc as usize];
        if l50 {
            g.b = int2fb(na);
            g.c = if nh == 0 { 0 } else { (64 - (nh as u64).leading_zeros() - 1) as i64 + 1 };
        } else {
            g.b = int2fb(na);
            g.c = int2fb(nh);
        }
        Ok(t)
    }
    fn setlist(&mut self, base: i64, na: i64, tostore: i64) {
        if self.l50() {
            self.abx(if tostore < 0 { Op::SetListO } else { Op::SetList }, base, na - 1);
        } else {
            let c = (na - 1) / self.o.flush as i64 + 1;
            self.abc(Op::SetList, base, tostore.max(0), c);
        }
        self.f().freereg = base + 1;
    }
    fn expr(&mut self, e: &E) -> R<X> {
        Ok(match e {
            E::Nil => x(Kind::Nil, 0),
            E::True => x(Kind::True, 0),
            E::False => x(Kind::False, 0),
            E::Num(n) => {
                if self.l50() {
                    x(Kind::K, self.numk(*n))
                } else {
                    X { nval: *n, ..x(Kind::KNum, 0) }
                }
            }
            E::Str(s) => x(Kind::K, self.stringk(s)),
            E::Vararg => {
                if self.l50() || self.f().p.vararg == 0 {
                    return Err("no vararg".into());
                }
                self.f().p.vararg &= !4;
                x(Kind::Vararg, self.abc(Op::VarArg, 0, 1, 0))
            }
            E::Func(f) => self.body(f)?,
            E::Name(n) => self.var(n)?,
            E::Paren(e) => {
                let mut v = self.expr(e)?;
                self.dischargevars(&mut v);
                v
            }
            E::Index(t, k) => {
                let mut v = self.expr(t)?;
                self.anyreg(&mut v)?;
                let mut k = self.expr(k)?;
                self.exp2val(&mut k)?;
                v.aux = self.rk(&mut k)?;
                v.k = Kind::Indexed;
                v
            }
            E::Call(f, a) => {
                self.tick();
                let mut v = self.expr(f)?;
                self.nextreg(&mut v)?;
                self.args(&mut v, a)?;
                v
            }
            E::Method(o, m, a) => {
                self.tick();
                let mut v = self.expr(o)?;
                let mut k = x(Kind::K, self.stringk(m));
                self.self_(&mut v, &mut k)?;
                self.args(&mut v, a)?;
                v
            }
            E::Bin(o, a, b) => {
                let mut v = self.expr(a)?;
                self.infix(*o, &mut v)?;
                let mut w = self.expr(b)?;
                self.posfix(*o, &mut v, &mut w)?;
                v
            }
            E::Un(u, a) => {
                let mut v = self.expr(a)?;
                self.prefix(*u, &mut v)?;
                v
            }
            E::Table(items) => {
                self.tick();
                self.constructor(items)?
            }
        })
    }
    fn cond(&mut self, c: &E) -> R<X> {
        let mut v = self.expr(c)?;
        if v.k == Kind::Nil {
            v.k = Kind::False;
        }
        self.goiftrue(&mut v)?;
        if self.l50() {
            self.patchtohere(v.t);
        }
        Ok(v)
    }
    fn brk(&mut self) -> R<()> {
        let f = self.f();
        let mut upval = false;
        let mut at = None;
        for (i, b) in f.blocks.iter().enumerate().rev() {
            if b.breakable {
                at = Some(i);
                break;
            }
            upval |= b.upval;
        }
        let Some(i) = at else { return Err("no loop to break".into()) };
        let n = f.blocks[i].nactvar;
        if upval {
            self.abc(Op::Close, n, 0, 0);
        }
        let j = self.jump();
        let mut l = self.f().blocks[i].brk;
        self.concat(&mut l, j);
        self.f().blocks[i].brk = l;
        Ok(())
    }
    fn exp1(&mut self, e: &E) -> R<()> {
        let mut v = self.expr(e)?;
        self.nextreg(&mut v)
    }
    fn stat(&mut self, s: &S) -> R<()> {
        match s {
            S::Local(n, v) => {
                // names are registered before the expressions are compiled
                for (i, n) in n.iter().enumerate() {
                    self.new_local(n, i as i64)?;
                }
                let (mut e, nexps) = if v.is_empty() { (x(Kind::Void, 0), 0) } else { self.explist(v)? };
                self.adjust_assign(n.len() as i64, nexps, &mut e)?;
                self.adjustlocals(n.len() as i64);
            }
            S::Assign(l, r) => self.assign(l, r)?,
            S::Call(e) => {
                let v = self.expr(e)?;
                self.f().code[v.info as usize].c = 1;
            }
            S::Do(b) => self.block(b)?,
            S::While(c, b) => self.while_(c, b)?,
            S::Repeat(b, c) => self.repeat(b, c)?,
            S::If(arms, els) => {
                let mut esc = NO_JUMP;
                let mut flist = NO_JUMP;
                for (i, (c, b)) in arms.iter().enumerate() {
                    if i > 0 {
                        let j = self.jump();
                        self.concat(&mut esc, j);
                        self.patchtohere(flist);
                    }
                    let v = self.cond(c)?;
                    flist = v.f;
                    self.block(b)?;
                }
                if let Some(b) = els {
                    let j = self.jump();
                    self.concat(&mut esc, j);
                    self.patchtohere(flist);
                    self.block(b)?;
                } else {
                    self.concat(&mut esc, flist);
                }
                self.patchtohere(esc);
            }
            S::NumFor(n, a, b, c, body) => {
                let line = self.line;
                self.enter(!self.l50());
                let base = self.f().freereg;
                if self.l50() {
                    self.new_local(n, 0)?;
                    self.new_local("(for limit)", 1)?;
                    self.new_local("(for step)", 2)?;
                } else {
                    self.new_local("(for index)", 0)?;
                    self.new_local("(for limit)", 1)?;
                    self.new_local("(for step)", 2)?;
                    self.new_local(n, 3)?;
                }
                self.exp1(a)?;
                self.exp1(b)?;
                match c {
                    Some(c) => self.exp1(c)?,
                    None => {
                        let k = self.numk(1.0);
                        let r = self.f().freereg;
                        self.abx(Op::LoadK, r, k);
                        self.reserve(1)?;
                    }
                }
                if self.l50() {
                    let r = self.f().freereg;
                    self.abc(Op::Sub, r - 3, r - 3, r - 1);
                    self.jump();
                    self.forbody50(base, line, 3, true, body)?;
                } else {
                    self.forbody51(base, line, 1, true, body)?;
                }
                self.leave();
            }
            S::GenFor(n, e, body) => {
                let line = self.line;
                self.enter(!self.l50());
                let base = self.f().freereg;
                let mut nv = 0;
                let hidden: &[&str] =
                    if self.l50() { &["(for generator)", "(for state)"] } else { &["(for generator)", "(for state)", "(for control)"] };
                for h in hidden {
                    self.new_local(h, nv)?;
                    nv += 1;
                }
                for n in n {
                    self.new_local(n, nv)?;
                    nv += 1;
                }
                let (mut v, ne) = self.explist(e)?;
                if self.l50() {
                    self.adjust_assign(nv, ne, &mut v)?;
                    self.checkstack(3)?;
                    self.abx(Op::TForPrep, base, NO_JUMP);
                    self.forbody50(base, line, nv, false, body)?;
                } else {
                    self.adjust_assign(3, ne, &mut v)?;
                    self.checkstack(3)?;
                    self.forbody51(base, line, nv - 3, false, body)?;
                }
                self.leave();
            }
            S::LocalFunc(n, f) => {
                self.new_local(n, 0)?;
                let v = x(Kind::Local, self.f().freereg);
                self.reserve(1)?;
                self.adjustlocals(1);
                let mut b = self.body(f)?;
                self.storevar(&v, &mut b)?;
                let pc = self.pc();
                let f = self.f();
                let i = f.actvar[f.nactvar as usize - 1];
                f.locals[i].0 = pc;
            }
            S::Return(v) => {
                let (first, nret);
                if v.is_empty() {
                    (first, nret) = (0, 0)
                } else {
                    let (mut e, n) = self.explist(v)?;
                    if Self::multret(e.k) {
                        self.setreturns(&mut e, -1)?;
                        if e.k == Kind::Call && n == 1 {
                            self.f().code[e.info as usize].op = Op::TailCall;
                        }
                        (first, nret) = (self.f().nactvar, -1)
                    } else if n == 1 {
                        (first, nret) = (self.anyreg(&mut e)?, 1)
                    } else {
                        self.nextreg(&mut e)?;
                        (first, nret) = (self.f().nactvar, n)
                    }
                }
                self.abc(Op::Return, first, nret + 1, 0);
            }
            S::Break => self.brk()?,
        }
        Ok(())
    }
    fn while_(&mut self, c: &E, b: &[S]) -> R<()> {
        if !self.l50() {
            let init = self.getlabel();
            let v = self.cond(c)?;
            self.enter(true);
            self.block(b)?;
            let j = self.jump();
            self.patchlist(j, init);
            self.leave();
            self.patchtohere(v.f);
            return Ok(());
        }
        let winit = self.jump();
        let einit = self.getlabel();
        let mut v = self.expr(c)?;
        if v.k == Kind::K {
            v.k = Kind::True;
        }
        let lineexp = self.line;
        self.goiffalse(&mut v)?;
        let jpc = self.f().jpc;
        let mut vf = v.f;
        self.concat(&mut vf, jpc);
        v.f = vf;
        self.f().jpc = NO_JUMP;
        let f = self.f();
        let saved: Vec<G> = f.code.drain(einit as usize..).collect();
        f.lines.truncate(einit as usize);
        if saved.len() > 100 {
            return Err("while condition too complex".into());
        }
        self.enter(true);
        let binit = self.getlabel();
        self.block(b)?;
        self.patchtohere(winit);
        let d = self.pc() - einit;
        if v.t != NO_JUMP {
            v.t += d;
        }
        if v.f != NO_JUMP {
            v.f += d;
        }
        let save = self.line;
        self.line = lineexp;
        for g in saved {
            self.code(g);
        }
        self.line = save;
        self.leave();
        self.patchlist(v.t, binit);
        self.patchtohere(v.f);
        Ok(())
    }
    fn repeat(&mut self, b: &[S], c: &E) -> R<()> {
        let init = self.getlabel();
        if self.l50() {
            self.enter(true);
            self.block(b)?;
            let v = self.cond(c)?;
            self.patchlist(v.f, init);
            self.leave();
            return Ok(());
        }
        self.enter(true);
        self.enter(false);
        self.chunk(b)?;
        let v = self.cond(c)?;
        if !self.f().blocks.last().unwrap().upval {
            self.leave();
            self.patchlist(v.f, init);
        } else {
            self.brk()?;
            self.patchtohere(v.f);
            self.leave();
            let j = self.jump();
            self.patchlist(j, init);
        }
        self.leave();
        Ok(())
    }
    fn forbody50(&mut self, base: i64, line: i64, nv: i64, isnum: bool, b: &[S]) -> R<()> {
        self.adjustlocals(nv);
        self.enter(true);
        let prep = self.getlabel();
        self.block(b)?;
        self.patchtohere(prep - 1);
        let end = if isnum { self.abx(Op::ForLoop, base, NO_JUMP) } else { self.abc(Op::TForLoop, base, 0, nv - 3) };
        *self.f().lines.last_mut().unwrap() = line;
        let l = if isnum { end } else { self.jump() };
        self.patchlist(l, prep);
        self.leave();
        Ok(())
    }
    fn forbody51(&mut self, base: i64, line: i64, nv: i64, isnum: bool, b: &[S]) -> R<()> {
        self.adjustlocals(3);
        let prep = if isnum { self.abx(Op::ForPrep, base, NO_JUMP) } else { self.jump() };
        self.enter(false);
        self.adjustlocals(nv);
        self.reserve(nv)?;
        self.block(b)?;
        self.leave();
        self.patchtohere(prep);
        let end = if isnum { self.abx(Op::ForLoop, base, NO_JUMP) } else { self.abc(Op::TForLoop, base, 0, nv) };
        *self.f().lines.last_mut().unwrap() = line;
        let l = if isnum { end } else { self.jump() };
        self.patchlist(l, prep + 1);
        Ok(())
    }
    fn assign(&mut self, l: &[E], r: &[E]) -> R<()> {
        let mut lhs: Vec<X> = vec![];
        for (i, e) in l.iter().enumerate() {
            let v = self.expr(e)?;
            if i > 0 && v.k == Kind::Local {
                let extra = self.f().freereg;
                let mut conflict = false;
                for h in lhs.iter_mut().rev() {
                    if h.k == Kind::Indexed {
                        if h.info == v.info {
                            conflict = true;
                            h.info = extra;
                        }
                        if h.aux == v.info {
                            conflict = true;
                            h.aux = extra;
                        }
                    }
                }
                if conflict {
                    self.abc(Op::Move, extra, v.info, 0);
                    self.reserve(1)?;
                }
            }
            lhs.push(v);
        }
        let (mut e, nexps) = self.explist(r)?;
        let nvars = l.len() as i64;
        if nexps != nvars {
            self.adjust_assign(nvars, nexps, &mut e)?;
            if nexps > nvars {
                self.f().freereg -= nexps - nvars;
            }
        } else {
            if self.l50() {
                // luaK_setcallreturns(fs, &e, 1)
                self.setreturns_if_call(&mut e)?;
            } else {
                self.setoneret(&mut e);
            }
            let v = lhs.pop().unwrap();
            self.storevar(&v, &mut e)?;
        }
        while let Some(v) = lhs.pop() {
            let mut e = x(Kind::NonReloc, self.f().freereg - 1);
            self.storevar(&v, &mut e)?;
        }
        Ok(())
    }
    fn setreturns_if_call(&mut self, e: &mut X) -> R<()> {
        if e.k == Kind::Call {
            self.setreturns(e, 1)?;
        }
        Ok(())
    }
}

pub fn int2fb(v: i64) -> i64 {
    let mut v = v as u64;
    let mut e = 0;
    while v >= 16 {
        v = (v + 1) >> 1;
        e += 1;
    }
    if v < 8 {
        v as i64
    } else {
        ((e + 1) << 3 | (v - 8)) as i64
    }
}

fn enc(ver: Ver, side: &Side, g: &G) -> Option<u64> {
    let l = &side.layout;
    let op = ver.code_of(g.op)?;
    let rk = |v: i64| -> u64 {
        if v & KMARK == 0 {
            v as u64
        } else {
            let k = (v & !KMARK) as u64;
            match ver {
                Ver::L50 => k + side.limit,
                Ver::L51 => k | l.kbit(),
            }
        }
    };
    if g.a < 0 {
        return None;
    }
    match mode(ver, g.op) {
        Mode::Abc(..) => l.abc(op, g.a as u64, rk(g.b), rk(g.c)),
        Mode::ABx(_) => l.abx(op, g.a as u64, g.bx as u64),
        Mode::AsBx(_) => l.asbx(op, g.a as u64, g.bx),
    }
}
