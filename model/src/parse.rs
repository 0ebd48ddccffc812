//! Small Lua parser for the corpora (no long strings, comments or goto).
use crate::ast::*;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
enum T {
    Name(String),
    Num(f64),
    Str(String),
    Op(&'static str),
    Eof,
}
const OPS: [&str; 30] = [
    "...", "..", "==", "~=", "<=", ">=", "+", "-", "*", "/", "%", "^", "#", "<", ">", "=", "(", ")", "{", "}", "[",
    "]", ";", ":", ",", ".", "!", "$", "@", "?",
];
const KW: [&str; 21] = [
    "and", "break", "do", "else", "elseif", "end", "false", "for", "function", "if", "in", "local", "nil", "not", "or",
    "repeat", "return", "then", "true", "until", "while",
];

fn lex(src: &str) -> Vec<T> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1
        } else if c.is_ascii_alphabetic() || c == b'_' {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1
            }
            let w = &src[s..i];
            match KW.iter().find(|k| **k == w) {
                Some(k) => v.push(T::Op(k)),
                None => v.push(T::Name(w.into())),
            }
        } else if c.is_ascii_digit() {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' && b.get(i + 1) != Some(&b'.')) {
                i += 1
            }
            v.push(T::Num(src[s..i].parse().unwrap_or_else(|_| panic!("number {}", &src[s..i]))))
        } else if c == b'"' || c == b'\'' {
            let s = i + 1;
            i += 1;
            while b[i] != c {
                i += 1
            }
            v.push(T::Str(src[s..i].into()));
            i += 1
        } else {
            let o = OPS.iter().find(|o| src[i..].starts_with(**o)).unwrap_or_else(|| panic!("char {:?} in {src}", c as char));
            v.push(T::Op(o));
            i += o.len()
        }
    }
    v.push(T::Eof);
    v
}

struct Ps<'a> {
    t: Vec<T>,
    i: usize,
    src: &'a str,
}
/// Parse a chunk; panics on malformed corpora.
pub fn parse(src: &str) -> Vec<S> {
    let mut p = Ps { t: lex(src), i: 0, src };
    let b = p.block();
    if p.t[p.i] != T::Eof {
        p.fail("end of input")
    }
    b
}
impl Ps<'_> {
    fn fail(&self, what: &str) -> ! {
        panic!("expected {what} at token {} {:?} of {}", self.i, self.t[self.i], self.src)
    }
    fn is(&self, o: &str) -> bool {
        matches!(&self.t[self.i], T::Op(x) if *x == o)
    }
    fn opt(&mut self, o: &str) -> bool {
        let r = self.is(o);
        if r {
            self.i += 1
        }
        r
    }
    fn need(&mut self, o: &str) {
        if !self.opt(o) {
            self.fail(o)
        }
    }
    fn name(&mut self) -> String {
        match self.t[self.i].clone() {
            T::Name(n) => {
                self.i += 1;
                n
            }
            _ => self.fail("name"),
        }
    }
    fn block(&mut self) -> Vec<S> {
        let mut v = vec![];
        loop {
            while self.opt(";") {}
            if ["end", "else", "elseif", "until"].iter().any(|k| self.is(k)) || self.t[self.i] == T::Eof {
                return v;
            }
            v.push(self.stat())
        }
    }
    fn names(&mut self) -> Vec<String> {
        let mut v = vec![self.name()];
        while self.opt(",") {
            v.push(self.name())
        }
        v
    }
    fn exps(&mut self) -> Vec<E> {
        let mut v = vec![self.expr(0)];
        while self.opt(",") {
            v.push(self.expr(0))
        }
        v
    }
    fn body(&mut self, me: bool) -> Arc<Func> {
        self.need("(");
        let mut params = vec![];
        if me {
            params.push("self".into())
        }
        let mut dots = false;
        if !self.opt(")") {
            loop {
                if self.opt("...") {
                    dots = true;
                    break;
                }
                params.push(self.name());
                if !self.opt(",") {
                    break;
                }
            }
            self.need(")")
        }
        let body = self.block();
        self.need("end");
        Arc::new(Func { params, dots, body })
    }
    fn stat(&mut self) -> S {
        if self.opt("if") {
            let mut arms = vec![];
            let c = self.expr(0);
            self.need("then");
            arms.push((c, self.block()));
            let mut els = None;
            loop {
                if self.opt("elseif") {
                    let c = self.expr(0);
                    self.need("then");
                    arms.push((c, self.block()))
                } else if self.opt("else") {
                    els = Some(self.block());
                    self.need("end");
                    break;
                } else {
                    self.need("end");
                    break;
                }
            }
            S::If(arms, els)
        } else if self.opt("while") {
            let c = self.expr(0);
            self.need("do");
            let b = self.block();
            self.need("end");
            S::While(c, b)
        } else if self.opt("do") {
            let b = self.block();
            self.need("end");
            S::Do(b)
        } else if self.opt("repeat") {
            let b = self.block();
            self.need("until");
            S::Repeat(b, self.expr(0))
        } else if self.opt("for") {
            let n = self.names();
            if self.opt("=") {
                let a = self.expr(0);
                self.need(",");
                let l = self.expr(0);
                let st = if self.opt(",") { Some(self.expr(0)) } else { None };
                self.need("do");
                let b = self.block();
                self.need("end");
                S::NumFor(n[0].clone(), a, l, st, b)
            } else {
                self.need("in");
                let e = self.exps();
                self.need("do");
                let b = self.block();
                self.need("end");
                S::GenFor(n, e, b)
            }
        } else if self.opt("local") {
            if self.opt("function") {
                let n = self.name();
                S::LocalFunc(n, self.body(false))
            } else {
                let n = self.names();
                let v = if self.opt("=") { self.exps() } else { vec![] };
                S::Local(n, v)
            }
        } else if self.opt("return") {
            let end = ["end", "else", "elseif", "until", ";"].iter().any(|k| self.is(k)) || self.t[self.i] == T::Eof;
            let v = if end { vec![] } else { self.exps() };
            S::Return(v)
        } else if self.opt("break") {
            S::Break
        } else if self.opt("function") {
            let mut t = E::Name(self.name());
            let mut me = false;
            loop {
                if self.opt(".") {
                    t = E::Index(Box::new(t), Box::new(E::Str(self.name())))
                } else if self.opt(":") {
                    t = E::Index(Box::new(t), Box::new(E::Str(self.name())));
                    me = true;
                    break;
                } else {
                    break;
                }
            }
            let f = self.body(me);
            S::Assign(vec![t], vec![E::Func(f)])
        } else {
            let e = self.suffixed();
            if self.is("=") || self.is(",") {
                let mut l = vec![e];
                while self.opt(",") {
                    l.push(self.suffixed())
                }
                self.need("=");
                S::Assign(l, self.exps())
            } else {
                match e {
                    E::Call(..) | E::Method(..) => S::Call(e),
                    _ => self.fail("statement"),
                }
            }
        }
    }
    fn suffixed(&mut self) -> E {
        let mut e = if self.opt("(") {
            let e = self.expr(0);
            self.need(")");
            E::Paren(Box::new(e))
        } else {
            E::Name(self.name())
        };
        loop {
            if self.opt(".") {
                e = E::Index(Box::new(e), Box::new(E::Str(self.name())))
            } else if self.opt("[") {
                let k = self.expr(0);
                self.need("]");
                e = E::Index(Box::new(e), Box::new(k))
            } else if self.opt(":") {
                let n = self.name();
                let a = self.args();
                e = E::Method(Box::new(e), n, a)
            } else if self.is("(") || self.is("{") || matches!(self.t[self.i], T::Str(_)) {
                let a = self.args();
                e = E::Call(Box::new(e), a)
            } else {
                return e;
            }
        }
    }
    fn args(&mut self) -> Vec<E> {
        if self.is("{") {
            return vec![self.table()];
        }
        if let T::Str(s) = self.t[self.i].clone() {
            self.i += 1;
            return vec![E::Str(s)];
        }
        self.need("(");
        if self.opt(")") {
            return vec![];
        }
        let v = self.exps();
        self.need(")");
        v
    }
    fn table(&mut self) -> E {
        self.need("{");
        let mut v = vec![];
        while !self.is("}") {
            if self.opt("[") {
                let k = self.expr(0);
                self.need("]");
                self.need("=");
                v.push(Item::Keyed(k, self.expr(0)))
            } else if matches!(self.t[self.i], T::Name(_)) && matches!(self.t[self.i + 1], T::Op("=")) {
                let n = self.name();
                self.need("=");
                v.push(Item::Named(n, self.expr(0)))
            } else {
                v.push(Item::Pos(self.expr(0)))
            }
            if !self.opt(",") && !self.opt(";") {
                break;
            }
        }
        self.need("}");
        E::Table(v)
    }
    fn simple(&mut self) -> E {
        match self.t[self.i].clone() {
            T::Num(n) => {
                self.i += 1;
                E::Num(n)
            }
            T::Str(s) => {
                self.i += 1;
                E::Str(s)
            }
            T::Op("nil") => {
                self.i += 1;
                E::Nil
            }
            T::Op("true") => {
                self.i += 1;
                E::True
            }
            T::Op("false") => {
                self.i += 1;
                E::False
            }
            T::Op("...") => {
                self.i += 1;
                E::Vararg
            }
            T::Op("{") => self.table(),
            T::Op("function") => {
                self.i += 1;
                E::Func(self.body(false))
            }
            _ => self.suffixed(),
        }
    }
    fn expr(&mut self, limit: u8) -> E {
        let un = match &self.t[self.i] {
            T::Op("not") => Some(Un::Not),
            T::Op("-") => Some(Un::Minus),
            T::Op("#") => Some(Un::Len),
            _ => None,
        };
        let mut l = match un {
            Some(u) => {
                self.i += 1;
                E::Un(u, Box::new(self.expr(8)))
            }
            None => self.simple(),
        };
        loop {
            let (o, a, b) = match &self.t[self.i] {
                T::Op(x) => match *x {
                    "+" => (Bin::Add, 6, 6),
                    "-" => (Bin::Sub, 6, 6),
                    "*" => (Bin::Mul, 7, 7),
                    "/" => (Bin::Div, 7, 7),
                    "%" => (Bin::Mod, 7, 7),
                    "^" => (Bin::Pow, 10, 9),
                    ".." => (Bin::Concat, 5, 4),
                    "~=" => (Bin::Ne, 3, 3),
                    "==" => (Bin::Eq, 3, 3),
                    "<" => (Bin::Lt, 3, 3),
                    "<=" => (Bin::Le, 3, 3),
                    ">" => (Bin::Gt, 3, 3),
                    ">=" => (Bin::Ge, 3, 3),
                    "and" => (Bin::And, 2, 2),
                    "or" => (Bin::Or, 1, 1),
                    _ => return l,
                },
                _ => return l,
            };
            if a <= limit {
                return l;
            }
            self.i += 1;
            let r = self.expr(b);
            l = E::Bin(o, Box::new(l), Box::new(r));
        }
    }
}
