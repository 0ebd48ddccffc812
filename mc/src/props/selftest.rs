//! Binding of the model to stock Lua 5.1: code generation, execution and
//! loader checks are compared with the real implementation.
use crate::{corpus, stock};
use model::chunk::{self, Proto};
use model::ops::*;
use model::product::{self, Cfg};
use model::vm::{Prog, Strs};
use model::{gen, parse, verify};

fn diff(a: &Proto, b: &Proto, path: &str) -> Option<String> {
    let side = Side::def51();
    for i in 0..a.code.len().max(b.code.len()) {
        let (x, y) = (a.code.get(i), b.code.get(i));
        if x != y {
            let d = |w: Option<&u64>| w.map(|w| format!("{:?} {:?}", canon(Ver::L51, &side, *w), side.layout.dec(*w)));
            return Some(format!("{path} pc {i}: model {:?} stock {:?}", d(x), d(y)));
        }
    }
    if a.k != b.k {
        return Some(format!("{path} constants {:?} {:?}", a.k, b.k));
    }
    if (a.nups, a.nparams, a.vararg, a.maxstack) != (b.nups, b.nparams, b.vararg, b.maxstack) {
        return Some(format!("{path} header {:?} {:?}", (a.nups, a.nparams, a.vararg, a.maxstack), (b.nups, b.nparams, b.vararg, b.maxstack)));
    }
    if a.locals != b.locals || a.upnames != b.upnames {
        return Some(format!("{path} debug {:?} {:?}", a.locals, b.locals));
    }
    a.p.iter().zip(&b.p).enumerate().find_map(|(i, (x, y))| diff(x, y, &format!("{path}.{i}")))
}

pub fn run() {
    let mut progs: Vec<String> = corpus::control(3, 1, &["emit", "local", "set", "break", "return", "if", "ifelse", "while", "repeat", "nfor", "gfor1", "gfor2", "do"]);
    println!("control {}", progs.len());
    for e in corpus::exprs(2) {
        progs.push(format!("local a = any() emit({e}) local b = {e} emit(b) if {e} then emit(1) end while {e} do emit(2) end G = {e}"));
    }
    println!("programs {}", progs.len());
    let mut bad = 0;
    let mut n = 0;
    for src in &progs {
        let body = parse::parse(src);
        let side = Side::def51();
        let p = match gen::comp(&body, Ver::L51, &side) {
            Ok(p) => p,
            Err(e) => {
                println!("gen {e}: {src}");
                continue;
            }
        };
        let text = model::ast::source(&body);
        let c = match stock::compile("50", &text) {
            Ok(c) => c,
            Err(e) => {
                println!("stock {e}: {text}");
                bad += 1;
                continue;
            }
        };
        let (_, q) = chunk::read(Ver::L51, &side, &c).unwrap();
        n += 1;
        if let Some(d) = diff(&p, &q, "0") {
            bad += 1;
            if bad < 12 {
                println!("DIFF {d}\n{src}\n{text}\n");
            }
        }
        if let Err(e) = verify::tree(&side, &q) {
            println!("verify {e} {src}");
        }
        let mut s = Strs::default();
        let a = Prog::load(Ver::L51, &side, &q, &mut s);
        let cfg = Cfg { max_states: 300, ..Cfg::default() };
        let r = product::explore(&a, &a, &mut s, &cfg);
        if let Some(x) = r.invalid {
            bad += 1;
            println!("invalid {x}: {src}");
        }
        if let Some(x) = r.fail {
            bad += 1;
            println!("fail {x:?}: {src}");
        }
        let names = product::global_names(&a, &s);
        for t in &r.traces {
            if t.events.iter().any(|e| e.starts_with("diverges")) {
                continue;
            }
            if let Err(e) = stock::conforms("50", &c, t, &cfg, &names, true) {
                bad += 1;
                if bad < 20 {
                    println!("CONF {e}\n{src}\n{:?}", t);
                }
            }
        }
        if bad > 30 {
            break;
        }
    }
    println!("{n} compared, {bad} bad");
}
