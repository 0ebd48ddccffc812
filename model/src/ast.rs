//! Program trees and their Lua source text.
use std::sync::Arc as Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    Div,
    Mod,
    Pow,
    Concat,
    Ne,
    Eq,
    Lt,
    Le,
    Gt,
    Ge,
    And,
    Or,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Un {
    Minus,
    Not,
    Len,
}
#[derive(Clone, Debug)]
pub enum E {
    Nil,
    True,
    False,
    Num(f64),
    Str(String),
    Vararg,
    Func(Rc<Func>),
    Name(String),
    Index(Box<E>, Box<E>),
    Call(Box<E>, Vec<E>),
    Method(Box<E>, String, Vec<E>),
    Bin(Bin, Box<E>, Box<E>),
    Un(Un, Box<E>),
    Table(Vec<Item>),
    Paren(Box<E>),
}
#[derive(Clone, Debug)]
pub enum Item {
    Pos(E),
    Named(String, E),
    Keyed(E, E),
}
#[derive(Clone, Debug)]
pub struct Func {
    pub params: Vec<String>,
    pub dots: bool,
    pub body: Vec<S>,
}
#[derive(Clone, Debug)]
pub enum S {
    Local(Vec<String>, Vec<E>),
    Assign(Vec<E>, Vec<E>),
    Call(E),
    Do(Vec<S>),
    While(E, Vec<S>),
    Repeat(Vec<S>, E),
    If(Vec<(E, Vec<S>)>, Option<Vec<S>>),
    NumFor(String, E, E, Option<E>, Vec<S>),
    GenFor(Vec<String>, Vec<E>, Vec<S>),
    LocalFunc(String, Rc<Func>),
    Return(Vec<E>),
    Break,
}

pub fn name(s: &str) -> E {
    E::Name(s.into())
}
pub fn num(x: f64) -> E {
    E::Num(x)
}
pub fn st(s: &str) -> E {
    E::Str(s.into())
}
pub fn call(f: &str, a: Vec<E>) -> E {
    E::Call(Box::new(name(f)), a)
}
pub fn bin(o: Bin, a: E, b: E) -> E {
    E::Bin(o, Box::new(a), Box::new(b))
}
pub fn not(a: E) -> E {
    E::Un(Un::Not, Box::new(a))
}
pub fn func(params: &[&str], dots: bool, body: Vec<S>) -> E {
    E::Func(Rc::new(Func { params: params.iter().map(|s| s.to_string()).collect(), dots, body }))
}
pub fn names(n: &[&str]) -> Vec<String> {
    n.iter().map(|s| s.to_string()).collect()
}
pub fn local(n: &str, e: E) -> S {
    S::Local(vec![n.into()], vec![e])
}
pub fn emit(a: Vec<E>) -> S {
    S::Call(call("emit", a))
}

fn binop(b: Bin) -> &'static str {
    use Bin::*;
    match b {
        Add => "+",
        Sub => "-",
        Mul => "*",
        Div => "/",
        Mod => "%",
        Pow => "^",
        Concat => "..",
        Ne => "~=",
        Eq => "==",
        Lt => "<",
        Le => "<=",
        Gt => ">",
        Ge => ">=",
        And => "and",
        Or => "or",
    }
}

/// Fully parenthesised operators would change the generated code, so operands
/// are parenthesised only where the grammar needs it.
fn prio(b: Bin) -> (u8, u8) {
    use Bin::*;
    match b {
        Add | Sub => (6, 6),
        Mul | Div | Mod => (7, 7),
        Pow => (10, 9),
        Concat => (5, 4),
        Ne | Eq | Lt | Le | Gt | Ge => (3, 3),
        And => (2, 2),
        Or => (1, 1),
    }
}

pub struct Printer {
    pub out: String,
    ind: usize,
}
pub fn source(b: &[S]) -> String {
    let mut p = Printer { out: String::new(), ind: 0 };
    p.block(b);
    p.out
}
impl Printer {
    fn line(&mut self) {
        self.out.push('\n');
        for _ in 0..self.ind {
            self.out.push(' ');
        }
    }
    fn list(&mut self, v: &[E]) {
        for (i, e) in v.iter().enumerate() {
            if i > 0 {
                self.out.push(',');
            }
            self.expr(e);
        }
    }
    fn body(&mut self, f: &Func) {
        self.out.push('(');
        let mut p = f.params.clone();
        if f.dots {
            p.push("...".into());
        }
        self.out += &p.join(",");
        self.out.push(')');
        self.ind += 1;
        self.block(&f.body);
        self.ind -= 1;
        self.line();
        self.out += "end";
    }
    fn prefix(&mut self, e: &E) {
        match e {
            E::Name(_) | E::Index(..) | E::Call(..) | E::Method(..) | E::Paren(_) => self.expr(e),
            _ => {
                self.out.push('(');
                self.expr(e);
                self.out.push(')')
            }
        }
    }
    pub fn expr(&mut self, e: &E) {
        match e {
            E::Nil => self.out += "nil",
            E::True => self.out += "true",
            E::False => self.out += "false",
            E::Num(x) => self.out += &format!("{x}"),
            E::Str(s) => self.out += &format!("{s:?}"),
            E::Vararg => self.out += "...",
            E::Func(f) => {
                self.out += "function";
                self.body(f)
            }
            E::Name(n) => self.out += n,
            E::Index(t, k) => {
                self.prefix(t);
                self.out.push('[');
                self.expr(k);
                self.out.push(']')
            }
            E::Call(f, a) => {
                self.prefix(f);
                self.out.push('(');
                self.list(a);
                self.out.push(')')
            }
            E::Method(o, m, a) => {
                self.prefix(o);
                self.out.push(':');
                self.out += m;
                self.out.push('(');
                self.list(a);
                self.out.push(')')
            }
            E::Bin(o, a, b) => {
                let (l, r) = prio(*o);
                let wrap = |e: &E, left: bool| match e {
                    E::Bin(p, ..) => {
                        let (pl, pr) = prio(*p);
                        if left {
                            pr < l || pl < l
                        } else {
                            pl <= r
                        }
                    }
                    E::Un(..) => *o == Bin::Pow,
                    _ => false,
                };
                let wa = wrap(a, true);
                if wa {
                    self.out.push('(')
                }
                self.expr(a);
                if wa {
                    self.out.push(')')
                }
                self.out.push(' ');
                self.out += binop(*o);
                self.out.push(' ');
                let wb = wrap(b, false);
                if wb {
                    self.out.push('(')
                }
                self.expr(b);
                if wb {
                    self.out.push(')')
                }
            }
            E::Un(u, a) => {
                self.out += match u {
                    Un::Minus => "-",
                    Un::Not => "not ",
                    Un::Len => "#",
                };
                let w = matches!(**a, E::Bin(..));
                if w {
                    self.out.push('(')
                }
                self.expr(a);
                if w {
                    self.out.push(')')
                }
            }
            E::Table(items) => {
                self.out.push('{');
                for (i, it) in items.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                    }
                    match it {
                        Item::Pos(e) => self.expr(e),
                        Item::Named(n, e) => {
                            self.out += n;
                            self.out.push('=');
                            self.expr(e)
                        }
                        Item::Keyed(k, e) => {
                            self.out.push('[');
                            self.expr(k);
                            self.out += "]=";
                            self.expr(e)
                        }
                    }
                }
                self.out.push('}')
            }
            E::Paren(e) => {
                self.out.push('(');
                self.expr(e);
                self.out.push(')')
            }
        }
    }
    fn inner(&mut self, b: &[S]) {
        self.ind += 1;
        self.block(b);
        self.ind -= 1;
        self.line();
    }
    pub fn block(&mut self, b: &[S]) {
        for s in b {
            self.line();
            self.stat(s);
        }
    }
    fn stat(&mut self, s: &S) {
        match s {
            S::Local(n, v) => {
                self.out += "local ";
                self.out += &n.join(",");
                if !v.is_empty() {
                    self.out += " = ";
                    self.list(v)
                }
            }
            S::Assign(l, r) => {
                self.list(l);
                self.out += " = ";
                self.list(r)
            }
            S::Call(e) => self.expr(e),
            S::Do(b) => {
                self.out += "do";
                self.inner(b);
                self.out += "end"
            }
            S::While(c, b) => {
                self.out += "while ";
                self.expr(c);
                self.out += " do";
                self.inner(b);
                self.out += "end"
            }
            S::Repeat(b, c) => {
                self.out += "repeat";
                self.inner(b);
                self.out += "until ";
                self.expr(c)
            }
            S::If(arms, els) => {
                for (i, (c, b)) in arms.iter().enumerate() {
                    self.out += if i == 0 { "if " } else { "elseif " };
                    self.expr(c);
                    self.out += " then";
                    self.inner(b);
                }
                if let Some(b) = els {
                    self.out += "else";
                    self.inner(b)
                }
                self.out += "end"
            }
            S::NumFor(n, a, b, c, body) => {
                self.out += &format!("for {n} = ");
                self.expr(a);
                self.out.push(',');
                self.expr(b);
                if let Some(c) = c {
                    self.out.push(',');
                    self.expr(c)
                }
                self.out += " do";
                self.inner(body);
                self.out += "end"
            }
            S::GenFor(n, e, body) => {
                self.out += &format!("for {} in ", n.join(","));
                self.list(e);
                self.out += " do";
                self.inner(body);
                self.out += "end"
            }
            S::LocalFunc(n, f) => {
                self.out += &format!("local function {n}");
                self.body(f)
            }
            S::Return(v) => {
                self.out += "return ";
                self.list(v)
            }
            S::Break => self.out += "break",
        }
    }
}
