//! Port of the byte code checks the stock Lua 5.1 loader performs
//! (`luaG_checkcode` with every symbolic execution it can trigger).
use crate::chunk::{Proto, K};
use crate::ops::*;

const MAXSTACK: u64 = 250;

fn opmask(op: Op) -> (Option<(Msk, Msk)>, bool, bool) {
    use Msk::*;
    use Op::*;
    // (B mode, C mode) for ABC, test mode, set-A mode
    match op {
        Move | Unm | Not | Len => (Some((R, N)), false, true),
        LoadBool => (Some((U, U)), false, true),
        LoadNil => (Some((R, N)), false, true),
        GetUpval => (Some((U, N)), false, true),
        GetTable | SelfOp => (Some((R, K)), false, true),
        SetUpval => (Some((U, N)), false, false),
        SetTable => (Some((K, K)), false, false),
        NewTable => (Some((U, U)), false, true),
        Add | Sub | Mul | Div | Mod | Pow => (Some((K, K)), false, true),
        Concat => (Some((R, R)), false, true),
        Eq | Lt | Le => (Some((K, K)), true, false),
        Test => (Some((R, U)), true, true),
        TestSet => (Some((R, U)), true, true),
        Call | TailCall => (Some((U, U)), false, true),
        Return => (Some((U, N)), false, false),
        TForLoop => (Some((N, U)), true, false),
        SetList => (Some((U, U)), false, false),
        Close => (Some((N, N)), false, false),
        VarArg => (Some((U, N)), false, true),
        LoadK | GetGlobal | Closure => (None, false, true),
        SetGlobal | Jmp => (None, false, false),
        ForLoop | ForPrep => (None, false, true),
        TForPrep | SetListO => (None, false, false),
    }
}
#[derive(Clone, Copy)]
enum Msk {
    N,
    U,
    R,
    K,
}

type Chk = Result<(), String>;
macro_rules! check {
    ($c:expr, $($m:tt)*) => { if !($c) { return Err(format!($($m)*)); } };
}

fn open_ok(side: &Side, w: u64) -> bool {
    match canon(Ver::L51, side, w) {
        Some(c) => match c.op {
            Op::Call | Op::TailCall | Op::Return | Op::SetList => side.layout.dec(w).b == 0,
            _ => false,
        },
        None => false,
    }
}

/// Check one function; `side` describes the layout the words are in.
pub fn function(side: &Side, p: &Proto) -> Chk {
    let n = p.code.len() as i64;
    let ms = p.maxstack as u64;
    let l = &side.layout;
    let op_at = |pc: i64| -> Option<Op> { OPS51.get(l.dec(p.code[pc as usize]).op as usize).copied() };
    check!(ms <= MAXSTACK, "stack size {ms}");
    check!(p.nparams as u64 + (p.vararg & 1) as u64 <= ms, "parameters exceed the stack");
    check!(p.vararg & 4 == 0 || p.vararg & 1 != 0, "vararg flags {}", p.vararg);
    check!(p.upnames.len() <= p.nups as usize, "more upvalue names than upvalues");
    check!(p.lines.is_empty() || p.lines.len() == p.code.len(), "line info size");
    check!(n > 0 && op_at(n - 1) == Some(Op::Return), "no final return");
    let mut next = 0;
    while next < n {
        let pc = next;
        next += 1;
        let w = p.code[pc as usize];
        let i = l.dec(w);
        let Some(op) = op_at(pc) else { return Err(format!("opcode {} at {pc}", i.op)) };
        let reg = |r: u64, what: &str| -> Chk {
            check!(r < ms, "register {r} ({what}) beyond the stack {ms} at {pc} {op:?}");
            Ok(())
        };
        let arg = |v: u64, m: Msk| -> Chk {
            match m {
                Msk::N => check!(v == 0, "unused operand is {v} at {pc} {op:?}"),
                Msk::U => {}
                Msk::R => reg(v, "operand")?,
                Msk::K => {
                    if v & l.kbit() != 0 {
                        check!(v & !l.kbit() < p.k.len() as u64, "constant {v} at {pc}")
                    } else {
                        reg(v, "operand")?
                    }
                }
            }
            Ok(())
        };
        reg(i.a, "A")?;
        let (m, t, _) = opmask(op);
        let sbx = l.sbx(&i);
        match (m, mode(Ver::L51, op)) {
            (Some((b, c)), _) => {
                arg(i.b, b)?;
                arg(i.c, c)?
            }
            (_, Mode::AsBx(_)) => {
                let dest = pc + 1 + sbx;
                check!(0 <= dest && dest < n, "jump to {dest} at {pc}");
                let mut j = 0;
                while j < dest {
                    let d = dest - 1 - j;
                    if !(op_at(d) == Some(Op::SetList) && l.dec(p.code[d as usize]).c == 0) {
                        break;
                    }
                    j += 1;
                }
                check!(j & 1 == 0, "jump into a SETLIST count at {pc}");
            }
            _ => {
                if matches!(op, Op::LoadK | Op::GetGlobal | Op::SetGlobal) {
                    check!(i.bx < p.k.len() as u64, "constant {} at {pc}", i.bx)
                }
            }
        }
        if t {
            check!(pc + 2 < n, "skip at {pc}");
            check!(op_at(pc + 1) == Some(Op::Jmp), "no jump after the test at {pc}");
        }
        match op {
            Op::LoadBool if i.c == 1 => {
                check!(pc + 2 < n, "skip at {pc}");
                check!(
                    op_at(pc + 1) != Some(Op::SetList) || l.dec(p.code[pc as usize + 1]).c != 0,
                    "skip over a SETLIST at {pc}"
                );
            }
            Op::GetUpval | Op::SetUpval => check!(i.b < p.nups as u64, "upvalue {} at {pc}", i.b),
            Op::GetGlobal | Op::SetGlobal => {
                check!(matches!(&p.k[i.bx as usize], K::Str(s) if !s.is_empty()), "global name at {pc}")
            }
            Op::SelfOp => reg(i.a + 1, "A+1")?,
            Op::Concat => check!(i.b < i.c, "CONCAT range at {pc}"),
            Op::TForLoop => {
                check!(i.c >= 1, "TFORLOOP results at {pc}");
                reg(i.a + 2 + i.c, "results")?
            }
            Op::ForLoop | Op::ForPrep => reg(i.a + 3, "A+3")?,
            Op::Call | Op::TailCall => {
                if i.b != 0 {
                    reg(i.a + i.b - 1, "arguments")?
                }
                if i.c == 0 {
                    check!(pc + 1 < n && open_ok(side, p.code[pc as usize + 1]), "open call at {pc} is not consumed")
                } else if i.c > 1 {
                    reg(i.a + i.c - 2, "results")?
                }
            }
            Op::Return if i.b > 1 => reg(i.a + i.b - 2, "results")?,
            Op::SetList => {
                if i.b > 0 {
                    reg(i.a + i.b, "items")?
                }
                if i.c == 0 {
                    next += 1;
                    check!(pc + 1 < n - 1, "SETLIST count at {pc}")
                }
            }
            Op::Closure => {
                check!(i.bx < p.p.len() as u64, "function {} at {pc}", i.bx);
                let nup = p.p[i.bx as usize].nups as i64;
                check!(pc + nup < n, "capture list at {pc}");
                for j in 1..=nup {
                    check!(matches!(op_at(pc + j), Some(Op::GetUpval | Op::Move)), "capture list at {pc}")
                }
            }
            Op::VarArg => {
                check!(p.vararg & 2 != 0 && p.vararg & 4 == 0, "VARARG at {pc}");
                if i.b == 0 {
                    check!(pc + 1 < n && open_ok(side, p.code[pc as usize + 1]), "open VARARG at {pc} is not consumed")
                }
                let last = i.a as i64 + i.b as i64 - 2;
                check!(last < ms as i64, "VARARG registers at {pc}")
            }
            _ => {}
        }
    }
    Ok(())
}

/// Check a whole function tree.
pub fn tree(side: &Side, root: &Proto) -> Chk {
    let mut r = Ok(());
    crate::chunk::walk(root, "0".into(), &mut |path, p| {
        if r.is_ok() {
            r = function(side, p).map_err(|e| format!("function {path}: {e}"));
        }
    });
    r
}

/// Number of registers the instructions of a Lua 5.1 function use.
pub fn registers(side: &Side, p: &Proto) -> u64 {
    use Op::*;
    let mut m = p.nparams as u64;
    let mut pseudo = 0;
    for (pc, &w) in p.code.iter().enumerate() {
        let Some(c) = canon(Ver::L51, side, w) else { continue };
        if pseudo > 0 {
            pseudo -= 1;
            if let (Move, Arg::R(r)) = (c.op, c.x) {
                m = m.max(r + 1);
            }
            continue;
        }
        let d = side.layout.dec(w);
        let mut use_ = |r: u64| m = m.max(r + 1);
        let a = d.a;
        match c.op {
            Jmp => {}
            Eq | Lt | Le => {}
            Call | TailCall => {
                use_(a + d.b.max(1) - 1);
                use_((a + d.c).max(a + 2) - 2);
            }
            Return => {
                if d.b > 1 {
                    use_(a + d.b - 2)
                }
            }
            SelfOp => use_(a + 1),
            ForLoop => use_(a + 3),
            ForPrep => use_(a + 2),
            TForLoop => use_(a + 2 + d.c.max(3)),
            SetList => use_(a + d.b),
            VarArg => use_((a + d.b).max(a + 2) - 2),
            Close => {}
            _ => use_(a),
        }
        for x in [c.x, c.y] {
            if let Arg::R(r) = x {
                use_(r)
            }
        }
        if c.op == Closure {
            pseudo = p.p.get(d.bx as usize).map(|q| q.nups).unwrap_or(0);
        }
        if c.op == SetList && d.c == 0 && pc + 1 < p.code.len() {
            pseudo = pseudo.max(1);
        }
    }
    m
}
