//! Codec for Lua 5.0 and Lua 5.1 byte code in every format.
use crate::ops::{Fld, Side, Ver};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Fmt {
    pub format: u8,
    pub little: bool,
    pub int: u8,
    pub size_t: u8,
    pub ins: u8,
    pub num: u8,
    pub integral: bool,
}
impl Fmt {
    pub const NATIVE: Fmt = Fmt { format: 0, little: true, int: 4, size_t: 8, ins: 4, num: 8, integral: false };
    /// All 64 combinations of the header fields.
    pub fn all() -> Vec<Fmt> {
        let mut v = vec![];
        for i in 0..64u32 {
            let w = |b: u32| if i >> b & 1 == 1 { 8 } else { 4 };
            v.push(Fmt {
                format: 0,
                little: i & 1 == 0,
                int: w(1),
                size_t: w(2),
                ins: w(3),
                num: w(4),
                integral: i >> 5 & 1 == 1,
            });
        }
        v
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Nil,
    Bool(bool),
    Flt(f64),
    Int(i64),
    /// Raw bytes as stored, terminator included.
    Str(Vec<u8>),
}
impl K {
    pub fn s(x: &str) -> K {
        K::Str(raw(x))
    }
    /// Bit exact comparison.
    pub fn same(&self, o: &K) -> bool {
        match (self, o) {
            (K::Flt(a), K::Flt(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            _ => self == o,
        }
    }
}
pub fn raw(x: &str) -> Vec<u8> {
    let mut v = x.as_bytes().to_vec();
    v.push(0);
    v
}

#[derive(Clone, Debug, PartialEq)]
pub struct Local {
    pub name: Vec<u8>,
    pub start: i64,
    pub end: i64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Proto {
    /// Raw, terminator included; empty when absent.
    pub source: Vec<u8>,
    pub line: i64,
    pub last_line: i64,
    pub nups: u8,
    pub nparams: u8,
    pub vararg: u8,
    pub maxstack: u8,
    pub code: Vec<u64>,
    pub k: Vec<K>,
    pub p: Vec<Proto>,
    pub lines: Vec<i64>,
    pub locals: Vec<Local>,
    pub upnames: Vec<Vec<u8>>,
}
impl Default for Proto {
    fn default() -> Self {
        Proto {
            source: vec![],
            line: 0,
            last_line: 0,
            nups: 0,
            nparams: 0,
            vararg: 0,
            maxstack: 2,
            code: vec![],
            k: vec![],
            p: vec![],
            lines: vec![],
            locals: vec![],
            upnames: vec![],
        }
    }
}

pub struct W<'a> {
    pub out: Vec<u8>,
    f: &'a Fmt,
    fail: Option<&'static str>,
    /// Marks of interesting offsets: (offset, length, description).
    pub marks: Vec<(usize, usize, &'static str)>,
}
impl W<'_> {
    fn put(&mut self, v: u64, n: u8, what: &'static str) {
        let mut b = v.to_le_bytes()[..n as usize].to_vec();
        if !self.f.little {
            b.reverse();
        }
        self.marks.push((self.out.len(), n as usize, what));
        self.out.extend(b);
    }
    fn int(&mut self, v: i64, what: &'static str) {
        if self.f.int == 4 && i32::try_from(v).is_err() {
            self.fail = Some("integer");
        }
        self.put(v as u64, self.f.int, what)
    }
    fn byte(&mut self, v: u8, what: &'static str) {
        self.marks.push((self.out.len(), 1, what));
        self.out.push(v)
    }
    fn str(&mut self, s: &[u8]) {
        self.put(s.len() as u64, self.f.size_t, "string length");
        self.out.extend(s);
    }
    fn num(&mut self, k: &K) {
        match (k, self.f.integral, self.f.num) {
            (K::Flt(x), false, 8) => self.put(x.to_bits(), 8, "number"),
            (K::Flt(x), false, 4) => self.put((*x as f32).to_bits() as u64, 4, "number"),
            (K::Int(i), true, 8) => self.put(*i as u64, 8, "number"),
            (K::Int(i), true, 4) => {
                if i32::try_from(*i).is_err() {
                    self.fail = Some("number");
                }
                self.put(*i as u64, 4, "number")
            }
            _ => self.fail = Some("number kind"),
        }
    }
    fn proto(&mut self, v: Ver, p: &Proto) {
        self.str(&p.source);
        self.int(p.line, "line defined");
        if v == Ver::L51 {
            self.int(p.last_line, "last line defined");
        }
        self.byte(p.nups, "nups");
        self.byte(p.nparams, "nparams");
        self.byte(p.vararg, "vararg");
        self.byte(p.maxstack, "maxstack");
        let order: &[u8] = if v == Ver::L51 { b"CKPLVU" } else { b"LVUKPC" };
        for o in order {
            match o {
                b'C' => {
                    self.int(p.code.len() as i64, "code count");
                    for &c in &p.code {
                        if self.f.ins == 4 && c > u32::MAX as u64 {
                            self.fail = Some("instruction");
                        }
                        self.put(c, self.f.ins, "instruction");
                    }
                }
                b'K' => {
                    self.int(p.k.len() as i64, "constant count");
                    for k in &p.k {
                        match k {
                            K::Nil => self.byte(0, "constant type"),
                            K::Bool(b) => {
                                self.byte(1, "constant type");
                                self.byte(*b as u8, "boolean")
                            }
                            K::Flt(_) | K::Int(_) => {
                                self.byte(3, "constant type");
                                self.num(k)
                            }
                            K::Str(s) => {
                                self.byte(4, "constant type");
                                self.str(s)
                            }
                        }
                    }
                }
                b'P' => {
                    self.int(p.p.len() as i64, "function count");
                    for q in &p.p {
                        self.proto(v, q)
                    }
                }
                b'L' => {
                    self.int(p.lines.len() as i64, "line info count");
                    for &l in &p.lines {
                        self.int(l, "line")
                    }
                }
                b'V' => {
                    self.int(p.locals.len() as i64, "local count");
                    for l in &p.locals {
                        self.str(&l.name);
                        self.int(l.start, "local start");
                        self.int(l.end, "local end");
                    }
                }
                b'U' => {
                    self.int(p.upnames.len() as i64, "upvalue name count");
                    for u in &p.upnames {
                        self.str(u)
                    }
                }
                _ => unreachable!(),
            }
        }
    }
}

pub fn header(v: Ver, f: &Fmt, side: &Side) -> Vec<u8> {
    let mut w = W { out: side.sig.as_bytes().to_vec(), f, fail: None, marks: vec![] };
    header_into(&mut w, v, f, side);
    w.out
}
fn header_into(w: &mut W, v: Ver, f: &Fmt, side: &Side) {
    w.byte(if v == Ver::L50 { 0x50 } else { 0x51 }, "version");
    if v == Ver::L51 {
        w.byte(f.format, "format");
    }
    w.byte(f.little as u8, "endianness");
    w.byte(f.int, "int width");
    w.byte(f.size_t, "size_t width");
    w.byte(f.ins, "instruction width");
    if v == Ver::L50 {
        for x in [Fld::O, Fld::A, Fld::B, Fld::C] {
            w.byte(side.layout.size(x) as u8, "operand size");
        }
    }
    w.byte(f.num, "number width");
    if v == Ver::L51 {
        w.byte(f.integral as u8, "integral");
    } else if f.integral {
        w.num(&K::Int(31415926));
    } else {
        w.num(&K::Flt(31415926.535897933));
    }
}

pub fn write_marked(v: Ver, f: &Fmt, side: &Side, p: &Proto) -> (Vec<u8>, Vec<(usize, usize, &'static str)>) {
    let mut w = W { out: side.sig.as_bytes().to_vec(), f, fail: None, marks: vec![] };
    header_into(&mut w, v, f, side);
    w.proto(v, p);
    if let Some(e) = w.fail {
        panic!("model: chunk does not fit its format: {e} {f:?}");
    }
    (w.out, w.marks)
}
pub fn write(v: Ver, f: &Fmt, side: &Side, p: &Proto) -> Vec<u8> {
    write_marked(v, f, side, p).0
}
pub fn try_write(v: Ver, f: &Fmt, side: &Side, p: &Proto) -> Result<Vec<u8>, &'static str> {
    let mut w = W { out: side.sig.as_bytes().to_vec(), f, fail: None, marks: vec![] };
    header_into(&mut w, v, f, side);
    w.proto(v, p);
    match w.fail {
        None => Ok(w.out),
        Some(e) => Err(e),
    }
}

pub struct R<'a> {
    b: &'a [u8],
    i: usize,
    f: Fmt,
}
type Res<T> = Result<T, String>;
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> Res<&'a [u8]> {
        if n > self.b.len() - self.i {
            return Err(format!("truncated at {}", self.i));
        }
        let s = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(s)
    }
    fn byte(&mut self) -> Res<u8> {
        Ok(self.take(1)?[0])
    }
    fn uint(&mut self, n: u8) -> Res<u64> {
        let s = self.take(n as usize)?;
        let mut v = 0u64;
        for k in 0..n as usize {
            let j = if self.f.little { n as usize - 1 - k } else { k };
            v = v << 8 | s[j] as u64;
        }
        Ok(v)
    }
    fn int(&mut self) -> Res<i64> {
        let v = self.uint(self.f.int)?;
        Ok(if self.f.int == 4 { v as u32 as i32 as i64 } else { v as i64 })
    }
    fn count(&mut self) -> Res<usize> {
        let v = self.int()?;
        if v < 0 || v as usize > self.b.len() {
            return Err(format!("bad count {v}"));
        }
        Ok(v as usize)
    }
    fn str(&mut self) -> Res<Vec<u8>> {
        let n = self.uint(self.f.size_t)?;
        if n > self.b.len() as u64 {
            return Err("bad string length".into());
        }
        Ok(self.take(n as usize)?.to_vec())
    }
    fn num(&mut self) -> Res<K> {
        let v = self.uint(self.f.num)?;
        Ok(match (self.f.integral, self.f.num) {
            (true, 4) => K::Int(v as u32 as i32 as i64),
            (true, _) => K::Int(v as i64),
            (false, 4) => K::Flt(f32::from_bits(v as u32) as f64),
            (false, _) => K::Flt(f64::from_bits(v)),
        })
    }
    fn proto(&mut self, v: Ver, depth: usize) -> Res<Proto> {
        if depth > 400 {
            return Err("too deep".into());
        }
        let mut p = Proto { source: self.str()?, line: self.int()?, ..Proto::default() };
        p.last_line = if v == Ver::L51 { self.int()? } else { p.line };
        p.nups = self.byte()?;
        p.nparams = self.byte()?;
        p.vararg = self.byte()?;
        p.maxstack = self.byte()?;
        let order: &[u8] = if v == Ver::L51 { b"CKPLVU" } else { b"LVUKPC" };
        for o in order {
            let n = self.count()?;
            for _ in 0..n {
                match o {
                    b'C' => p.code.push(self.uint(self.f.ins)?),
                    b'K' => {
                        let k = match self.byte()? {
                            0 => K::Nil,
                            1 => K::Bool(self.byte()? != 0),
                            3 => self.num()?,
                            4 => K::Str(self.str()?),
                            t => return Err(format!("constant type {t}")),
                        };
                        p.k.push(k)
                    }
                    b'P' => p.p.push(self.proto(v, depth + 1)?),
                    b'L' => p.lines.push(self.int()?),
                    b'V' => p.locals.push(Local { name: self.str()?, start: self.int()?, end: self.int()? }),
                    _ => p.upnames.push(self.str()?),
                }
            }
        }
        Ok(p)
    }
}

pub fn read_header<'a>(v: Ver, side: &Side, b: &'a [u8]) -> Res<R<'a>> {
    let mut r = R { b, i: 0, f: Fmt::NATIVE };
    let s = r.take(side.sig.len())?;
    if s != side.sig.as_bytes() {
        return Err("signature".into());
    }
    let ver = r.byte()?;
    if ver != if v == Ver::L50 { 0x50 } else { 0x51 } {
        return Err(format!("version byte {ver:#x}"));
    }
    if v == Ver::L51 {
        r.f.format = r.byte()?;
    }
    r.f.little = match r.byte()? {
        0 => false,
        1 => true,
        e => return Err(format!("endianness {e}")),
    };
    let mut width = |what: &str| match r.byte()? {
        n @ (4 | 8) => Ok(n),
        n => Err(format!("{what} width {n}")),
    };
    let (a, b2, c) = (width("int")?, width("size_t")?, width("ins")?);
    (r.f.int, r.f.size_t, r.f.ins) = (a, b2, c);
    if v == Ver::L50 {
        for x in [Fld::O, Fld::A, Fld::B, Fld::C] {
            let n = r.byte()?;
            if n as u32 != side.layout.size(x) {
                return Err(format!("operand size {n}"));
            }
        }
    }
    r.f.num = match r.byte()? {
        n @ (4 | 8) => n,
        n => return Err(format!("num width {n}")),
    };
    if v == Ver::L51 {
        r.f.integral = match r.byte()? {
            0 => false,
            1 => true,
            n => return Err(format!("integral {n}")),
        };
    } else {
        r.f.integral = false;
        let save = r.i;
        let K::Flt(x) = r.num()? else { unreachable!() };
        if x as i64 != 31415926 {
            r.i = save;
            r.f.integral = true;
            match r.num()? {
                K::Int(31415926) => {}
                _ => return Err("test number".into()),
            }
        }
    }
    Ok(r)
}

pub fn read(v: Ver, side: &Side, b: &[u8]) -> Res<(Fmt, Proto)> {
    let mut r = read_header(v, side, b)?;
    let p = r.proto(v, 0)?;
    if r.i != b.len() {
        return Err(format!("{} trailing bytes", b.len() - r.i));
    }
    Ok((r.f, p))
}

/// Visit every function of the tree with its path.
pub fn walk<'a>(p: &'a Proto, path: String, f: &mut dyn FnMut(&str, &'a Proto)) {
    f(&path, p);
    for (i, q) in p.p.iter().enumerate() {
        walk(q, format!("{path}.{i}"), f);
    }
}
