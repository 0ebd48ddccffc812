//! The code under verification: the real `lunify::unify`, called through its
//! public interface only.
use crate::alloc;
use lunify::{BitWidth, Endianness, Format, InstructionLayout, LunifyError, OperandType, Settings};
use model::chunk::Fmt;
use model::ops::*;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Ok(Vec<u8>),
    Err(LunifyError),
    Panic(String),
}
impl R {
    pub fn brief(&self) -> String {
        match self {
            R::Ok(b) => format!("ok ({} bytes)", b.len()),
            R::Err(e) => format!("error {e:?}"),
            R::Panic(p) => format!("panic: {p}"),
        }
    }
}

/// Settings in the terms of the model.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Sets {
    pub l50: Side,
    pub l51: Side,
    pub out: Side,
}
impl Default for Sets {
    fn default() -> Self {
        Sets { l50: Side::def50(), l51: Side::def51(), out: Side::def51() }
    }
}
impl Sets {
    pub fn input(&self, v: Ver) -> &Side {
        match v {
            Ver::L50 => &self.l50,
            Ver::L51 => &self.l51,
        }
    }
    pub fn flush(i: u64, o: u64) -> Sets {
        let mut s = Sets::default();
        s.l50.flush = i;
        s.l51.flush = i;
        s.out.flush = o;
        s
    }
    pub fn describe(&self) -> String {
        let d = |n: &str, s: &Side, d: &Side| {
            if s == d {
                String::new()
            } else {
                let l: Vec<String> = s.layout.0.iter().map(|(f, n)| format!("{f:?}{n}")).collect();
                format!(" {n}(sig={:?} layout={} flush={} limit={})", s.sig, l.join(","), s.flush, s.limit)
            }
        };
        format!(
            "settings:{}{}{}",
            d("lua50", &self.l50, &Side::def50()),
            d("lua51", &self.l51, &Side::def51()),
            d("output", &self.out, &Side::def51())
        )
    }
}

pub fn spec(l: &Layout) -> [OperandType; 4] {
    l.0.map(|(f, n)| match f {
        Fld::O => OperandType::Opcode(n as u64),
        Fld::A => OperandType::A(n as u64),
        Fld::B => OperandType::B(n as u64),
        Fld::C => OperandType::C(n as u64),
    })
}
fn width(n: u8) -> BitWidth {
    match n {
        4 => BitWidth::Bit32,
        8 => BitWidth::Bit64,
        _ => unreachable!(),
    }
}
pub fn format(f: &Fmt) -> Format {
    // the default is what a stock Lua on this machine uses
    if *f == Fmt::NATIVE {
        return Format::default();
    }
    Format {
        format: f.format,
        endianness: if f.little { Endianness::Little } else { Endianness::Big },
        integer_width: width(f.int),
        size_t_width: width(f.size_t),
        instruction_width: width(f.ins),
        number_width: width(f.num),
        is_number_integral: f.integral,
    }
}
/// `None` when the implementation rejects one of the layouts.
pub fn settings(s: &Sets) -> Option<Settings<'_>> {
    let l = |l: &Layout| InstructionLayout::from_specification(spec(l)).ok();
    // The defaults are the constants of stock Lua: use them wherever they are
    // meant.
    let c51 = |s: &'_ Side| {
        let mut o = lunify::lua51::Settings::default();
        let d = Side::def51();
        if s.limit != d.limit {
            o.stack_limit = s.limit
        }
        if s.flush != d.flush {
            o.fields_per_flush = s.flush
        }
        if s.sig != d.sig {
            o.binary_signature = unsafe { std::mem::transmute::<&str, &'static str>(s.sig.as_str()) }
        }
        if s.layout != d.layout {
            o.layout = l(&s.layout)?
        }
        Some(o)
    };
    let c50 = |s: &'_ Side| {
        let mut o = lunify::lua50::Settings::default();
        let d = Side::def50();
        if s.limit != d.limit {
            o.stack_limit = s.limit
        }
        if s.flush != d.flush {
            o.fields_per_flush = s.flush
        }
        if s.sig != d.sig {
            o.binary_signature = unsafe { std::mem::transmute::<&str, &'static str>(s.sig.as_str()) }
        }
        if s.layout != d.layout {
            o.layout = l(&s.layout)?
        }
        Some(o)
    };
    let mut o = Settings::default();
    o.lua50 = c50(&s.l50)?;
    o.lua51 = c51(&s.l51)?;
    o.output = c51(&s.out)?;
    Some(o)
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static DESC: RefCell<String> = const { RefCell::new(String::new()) };
    static PEAK: Cell<u64> = const { Cell::new(0) };
    static CACHE: RefCell<Option<(Sets, Settings<'static>, Box<Sets>)>> = const { RefCell::new(None) };
}
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if IN_SUT.with(|x| x.get()) {
            let loc = i.location().map(|l| format!("{}:{}", l.file().trim_start_matches("/repo/"), l.line()));
            let msg = i
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {}", loc.unwrap_or_default()));
        } else {
            old(i)
        }
    }));
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_SUT.with(|x| x.set(true));
    alloc::start();
    let r = catch_unwind(AssertUnwindSafe(f));
    let p = alloc::stop();
    PEAK.with(|c| c.set(p));
    IN_SUT.with(|x| x.set(false));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
/// Peak memory of the last conversion on this thread.
pub fn peak() -> u64 {
    PEAK.with(|c| c.get())
}

pub fn unify_with(input: &[u8], f: &Format, s: &Settings) -> R {
    DESC.with(|d| crate::watch::enter(input, &d.borrow()));
    let r = guarded(|| lunify::unify(input, f, s));
    crate::watch::leave();
    match r {
        Ok(Ok(b)) => R::Ok(b),
        Ok(Err(e)) => R::Err(e),
        Err(p) => R::Panic(p),
    }
}

pub fn unify(input: &[u8], f: &Fmt, s: &Sets) -> R {
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        let hit = matches!(&*c, Some((k, _, _)) if k == s);
        if !hit {
            let own = Box::new(s.clone());
            let st = match guarded(|| settings(&own).map(|x| unsafe { std::mem::transmute::<Settings<'_>, Settings<'static>>(x) })) {
                Ok(Some(x)) => x,
                Ok(None) => return R::Err(LunifyError::InvalidInstructionLayout),
                Err(p) => return R::Panic(p),
            };
            *c = Some((s.clone(), st, own));
            DESC.with(|d| *d.borrow_mut() = s.describe());
        }
        let st = c.as_ref().unwrap().1;
        unify_with(input, &format(f), &st)
    })
}
