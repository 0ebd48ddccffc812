//! Opcode tables and instruction words of Lua 5.0 and Lua 5.1.

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ver {
    L50,
    L51,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[rustfmt::skip]
pub enum Op {
    Move, LoadK, LoadBool, LoadNil, GetUpval, GetGlobal, GetTable, SetGlobal, SetUpval, SetTable, NewTable, SelfOp,
    Add, Sub, Mul, Div, Mod, Pow, Unm, Not, Len, Concat, Jmp, Eq, Lt, Le, Test, TestSet, Call, TailCall, Return,
    ForLoop, ForPrep, TForLoop, TForPrep, SetList, SetListO, Close, Closure, VarArg,
}
use Op::*;

#[rustfmt::skip]
pub const OPS50: [Op; 35] = [
    Move, LoadK, LoadBool, LoadNil, GetUpval, GetGlobal, GetTable, SetGlobal, SetUpval, SetTable, NewTable, SelfOp,
    Add, Sub, Mul, Div, Pow, Unm, Not, Concat, Jmp, Eq, Lt, Le, Test, Call, TailCall, Return, ForLoop, TForLoop,
    TForPrep, SetList, SetListO, Close, Closure,
];
#[rustfmt::skip]
pub const OPS51: [Op; 38] = [
    Move, LoadK, LoadBool, LoadNil, GetUpval, GetGlobal, GetTable, SetGlobal, SetUpval, SetTable, NewTable, SelfOp,
    Add, Sub, Mul, Div, Mod, Pow, Unm, Not, Len, Concat, Jmp, Eq, Lt, Le, Test, TestSet, Call, TailCall, Return,
    ForLoop, ForPrep, TForLoop, SetList, Close, Closure, VarArg,
];

impl Ver {
    pub fn ops(self) -> &'static [Op] {
        match self {
            Ver::L50 => &OPS50,
            Ver::L51 => &OPS51,
        }
    }
    pub fn code_of(self, op: Op) -> Option<u64> {
        self.ops().iter().position(|&o| o == op).map(|p| p as u64)
    }
}

/// What an operand of an instruction means.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Use {
    No,
    Reg,
    Rk,
    Num,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Abc(bool, Use, Use),
    ABx(bool),
    AsBx(bool),
}

/// The operands an instruction uses (independent of version where shared).
pub fn mode(ver: Ver, op: Op) -> Mode {
    use Mode::*;
    use Use::*;
    match op {
        Move | Not | Len | Unm => Abc(true, Reg, No),
        LoadK | GetGlobal | SetGlobal | Closure => ABx(true),
        LoadBool => Abc(true, Num, Num),
        LoadNil => Abc(true, Reg, No),
        GetUpval | SetUpval => Abc(true, Num, No),
        GetTable | SelfOp => Abc(true, Reg, Rk),
        SetTable | Add | Sub | Mul | Div | Mod | Pow => Abc(true, Rk, Rk),
        NewTable => Abc(true, No, No),
        Concat => Abc(true, Reg, Reg),
        Jmp => AsBx(false),
        Eq | Lt | Le => Abc(true, Rk, Rk),
        Test => match ver {
            Ver::L50 => Abc(true, Reg, Num),
            Ver::L51 => Abc(true, No, Num),
        },
        TestSet => Abc(true, Reg, Num),
        Call | TailCall => Abc(true, Num, Num),
        Return => Abc(true, Num, No),
        ForLoop | ForPrep | TForPrep => AsBx(true),
        TForLoop => Abc(true, No, Num),
        SetList => match ver {
            Ver::L50 => ABx(true),
            Ver::L51 => Abc(true, Num, Num),
        },
        SetListO => ABx(true),
        Close => Abc(true, No, No),
        VarArg => Abc(true, Num, No),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Fld {
    O,
    A,
    B,
    C,
}

/// Operand order from the least significant bit, with sizes.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Layout(pub [(Fld, u32); 4]);

pub const LAYOUT50: Layout = Layout([(Fld::O, 6), (Fld::C, 9), (Fld::B, 9), (Fld::A, 8)]);
pub const LAYOUT51: Layout = Layout([(Fld::O, 6), (Fld::A, 8), (Fld::C, 9), (Fld::B, 9)]);

/// A decoded instruction: raw operand values in every view.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Ins {
    pub op: u64,
    pub a: u64,
    pub b: u64,
    pub c: u64,
    pub bx: u64,
}

impl Layout {
    pub fn pos(&self, f: Fld) -> (u32, u32) {
        let mut p = 0;
        for (g, s) in self.0 {
            if g == f {
                return (p, s);
            }
            p += s;
        }
        unreachable!()
    }
    pub fn size(&self, f: Fld) -> u32 {
        self.pos(f).1
    }
    pub fn total(&self) -> u32 {
        self.0.iter().map(|x| x.1).sum()
    }
    pub fn bx_pos(&self) -> (u32, u32) {
        let (pb, sb) = self.pos(Fld::B);
        let (pc, sc) = self.pos(Fld::C);
        (pb.min(pc), sb + sc)
    }
    pub fn sbx_bias(&self) -> i64 {
        ((1i128 << self.bx_pos().1) - 1 >> 1) as i64
    }
    pub fn max_bx(&self) -> u64 {
        ((1u128 << self.bx_pos().1) - 1) as u64
    }
    pub fn fmax(&self, f: Fld) -> u64 {
        (1u64 << self.size(f)) - 1
    }
    /// RK constant bit of Lua 5.1 (`BITRK`, derived from the size of B).
    pub fn kbit(&self) -> u64 {
        1 << (self.size(Fld::B) - 1)
    }
    fn get(word: u64, p: (u32, u32)) -> u64 {
        ((word as u128 >> p.0) & ((1u128 << p.1) - 1)) as u64
    }
    pub fn dec(&self, word: u64) -> Ins {
        Ins {
            op: Self::get(word, self.pos(Fld::O)),
            a: Self::get(word, self.pos(Fld::A)),
            b: Self::get(word, self.pos(Fld::B)),
            c: Self::get(word, self.pos(Fld::C)),
            bx: Self::get(word, self.bx_pos()),
        }
    }
    /// `None` when an operand does not fit.
    pub fn abc(&self, op: u64, a: u64, b: u64, c: u64) -> Option<u64> {
        let mut w = 0u128;
        for (f, v) in [(Fld::O, op), (Fld::A, a), (Fld::B, b), (Fld::C, c)] {
            let (p, s) = self.pos(f);
            if v >= 1 << s {
                return None;
            }
            w |= (v as u128) << p;
        }
        u64::try_from(w).ok()
    }
    pub fn abx(&self, op: u64, a: u64, bx: u64) -> Option<u64> {
        let w = self.abc(op, a, 0, 0)?;
        let (p, s) = self.bx_pos();
        if (bx as u128) >= 1u128 << s {
            return None;
        }
        Some(w | bx << p)
    }
    pub fn asbx(&self, op: u64, a: u64, sbx: i64) -> Option<u64> {
        let v = sbx.checked_add(self.sbx_bias())?;
        self.abx(op, a, u64::try_from(v).ok()?)
    }
    pub fn sbx(&self, i: &Ins) -> i64 {
        i.bx as i64 - self.sbx_bias()
    }
}

/// Everything about one side of a conversion that is not in the header.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Side {
    pub sig: String,
    pub layout: Layout,
    pub flush: u64,
    pub limit: u64,
}
impl Side {
    pub fn def50() -> Side {
        Side { sig: "\x1bLua".into(), layout: LAYOUT50, flush: 32, limit: 250 }
    }
    pub fn def51() -> Side {
        Side { sig: "\x1bLua".into(), layout: LAYOUT51, flush: 50, limit: 250 }
    }
    pub fn def(v: Ver) -> Side {
        match v {
            Ver::L50 => Side::def50(),
            Ver::L51 => Side::def51(),
        }
    }
}

/// Canonical, layout independent view of the operands an instruction uses.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Arg {
    No,
    R(u64),
    K(u64),
    N(u64),
    J(i64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Canon {
    pub op: Op,
    pub a: Option<u64>,
    pub x: Arg,
    pub y: Arg,
}

pub fn rk(ver: Ver, side: &Side, v: u64) -> Arg {
    match ver {
        Ver::L50 => {
            if v >= side.limit {
                Arg::K(v - side.limit)
            } else {
                Arg::R(v)
            }
        }
        Ver::L51 => {
            let k = side.layout.kbit();
            if v & k != 0 {
                Arg::K(v & !k)
            } else {
                Arg::R(v)
            }
        }
    }
}

pub fn canon(ver: Ver, side: &Side, word: u64) -> Option<Canon> {
    let i = side.layout.dec(word);
    let op = *ver.ops().get(i.op as usize)?;
    let arg = |u: Use, v: u64| match u {
        Use::No => Arg::No,
        Use::Reg => Arg::R(v),
        Use::Num => Arg::N(v),
        Use::Rk => rk(ver, side, v),
    };
    Some(match mode(ver, op) {
        Mode::Abc(ua, ub, uc) => Canon { op, a: ua.then_some(i.a), x: arg(ub, i.b), y: arg(uc, i.c) },
        Mode::ABx(ua) => Canon { op, a: ua.then_some(i.a), x: Arg::N(i.bx), y: Arg::No },
        Mode::AsBx(ua) => Canon { op, a: ua.then_some(i.a), x: Arg::J(side.layout.sbx(&i)), y: Arg::No },
    })
}

/// Encode a canonical instruction; `None` when it does not fit.
pub fn encode(ver: Ver, side: &Side, c: &Canon) -> Option<u64> {
    let op = ver.code_of(c.op)?;
    let l = &side.layout;
    let put = |x: Arg| -> Option<u64> {
        Some(match x {
            Arg::No => 0,
            Arg::R(v) | Arg::N(v) => v,
            Arg::K(v) => match ver {
                Ver::L50 => v + side.limit,
                Ver::L51 => {
                    if v >= l.kbit() {
                        return None;
                    }
                    v | l.kbit()
                }
            },
            Arg::J(_) => return None,
        })
    };
    // A register in an RK position must not look like a constant.
    if let Mode::Abc(_, ub, uc) = mode(ver, c.op) {
        for (u, x) in [(ub, c.x), (uc, c.y)] {
            if let (Use::Rk, Arg::R(v)) = (u, x) {
                match ver {
                    Ver::L50 if v >= side.limit => return None,
                    Ver::L51 if v & l.kbit() != 0 || v >= l.kbit() => return None,
                    _ => {}
                }
            }
        }
    }
    let a = c.a.unwrap_or(0);
    match mode(ver, c.op) {
        Mode::Abc(..) => l.abc(op, a, put(c.x)?, put(c.y)?),
        Mode::ABx(_) => match c.x {
            Arg::N(v) => l.abx(op, a, v),
            _ => None,
        },
        Mode::AsBx(_) => match c.x {
            Arg::J(v) => l.asbx(op, a, v),
            _ => None,
        },
    }
}
