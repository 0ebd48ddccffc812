//! Stock Lua 5.1.5 processes (built from luaref/), used to load and run
//! chunks, to compile sources, and to replay traces of the model.
use model::product::{Ans, Cfg, Trace};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Proc {
    _c: Child,
    i: ChildStdin,
    o: ChildStdout,
}
thread_local!(static P: RefCell<HashMap<String, Proc>> = RefCell::new(HashMap::new()));

pub fn available(variant: &str) -> bool {
    std::path::Path::new(&path(variant)).exists()
}
fn path(variant: &str) -> String {
    format!("{}/../target/luaref/luaref-{variant}", env!("CARGO_MANIFEST_DIR"))
}
/// `Err` when the process died.
fn request(variant: &str, cmd: u8, blobs: &[&[u8]]) -> Result<Vec<u8>, String> {
    P.with(|p| {
        let mut p = p.borrow_mut();
        if !p.contains_key(variant) {
            let mut c = Command::new(path(variant))
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .map_err(|e| format!("cannot start the stock interpreter: {e}"))?;
            let (i, o) = (c.stdin.take().unwrap(), c.stdout.take().unwrap());
            p.insert(variant.into(), Proc { _c: c, i, o });
        }
        let q = p.get_mut(variant).unwrap();
        let mut m = vec![cmd];
        for b in blobs {
            m.extend((b.len() as u32).to_le_bytes());
            m.extend_from_slice(b);
        }
        let r = (|| -> std::io::Result<Vec<u8>> {
            q.i.write_all(&m)?;
            q.i.flush()?;
            let mut n = [0; 4];
            q.o.read_exact(&mut n)?;
            let mut b = vec![0; u32::from_le_bytes(n) as usize];
            q.o.read_exact(&mut b)?;
            Ok(b)
        })();
        match r {
            Ok(b) => {
                if b.starts_with(b"assertion ") {
                    p.remove(variant);
                    return Err(String::from_utf8_lossy(&b).into_owned());
                }
                Ok(b)
            }
            Err(e) => {
                p.remove(variant);
                Err(format!("the stock interpreter died: {e}"))
            }
        }
    })
}
pub fn load(variant: &str, chunk: &[u8]) -> Result<(), String> {
    let r = String::from_utf8_lossy(&request(variant, b'L', &[chunk])?).into_owned();
    if r == "ok" {
        Ok(())
    } else {
        Err(r)
    }
}
pub fn compile(variant: &str, src: &str) -> Result<Vec<u8>, String> {
    let r = request(variant, b'C', &[src.as_bytes()])?;
    if r.starts_with(b"err ") {
        return Err(String::from_utf8_lossy(&r).into_owned());
    }
    Ok(r)
}
fn hexs(s: &str) -> String {
    crate::cx::hex(s.as_bytes())
}
/// Run a chunk with the answers of a trace: (event, lines) pairs.
pub fn run(variant: &str, chunk: &[u8], t: &Trace, cfg: &Cfg, names: &[String]) -> Result<Vec<(String, String)>, String> {
    let list = |v: &[Ans]| {
        let mut o = v.len().to_string();
        for a in v {
            o += " ";
            o += &a.token();
        }
        o
    };
    let mut s = format!("{} {} {}", cfg.ignore_n as u8, list(&t.answers[0]), cfg.presets.len());
    for (n, a) in &cfg.presets {
        s += &format!(" {} {}", hexs(n), a.token());
    }
    s += &format!(" {}", names.len());
    for n in names {
        s += " ";
        s += &hexs(n);
    }
    s += &format!(" {} {}", t.events.len() + 1, t.answers.len() - 1);
    for a in &t.answers[1..] {
        s += " ";
        s += &list(a);
    }
    s += " ";
    let r = request(variant, b'R', &[chunk, s.as_bytes()])?;
    Ok(String::from_utf8_lossy(&r)
        .lines()
        .map(|l| {
            let (a, b) = l.split_once('\t').unwrap_or((l, ""));
            (a.to_string(), b.to_string())
        })
        .collect())
}
/// Does the stock interpreter show the events of the trace?
pub fn conforms(variant: &str, chunk: &[u8], t: &Trace, cfg: &Cfg, names: &[String], lines: bool) -> Result<(), String> {
    let got = run(variant, chunk, t, cfg, names)?;
    for (i, e) in t.events.iter().enumerate() {
        match got.get(i) {
            None => return Err(format!("stock Lua stops before event {i} ({e})")),
            Some((g, l)) => {
                if g != e {
                    return Err(format!("event {i}: expected {e}, stock Lua shows {g} {l}"));
                }
                if lines && !t.lines[i].is_empty() && &t.lines[i] != l {
                    return Err(format!("event {i} ({e}): expected lines {}, stock Lua reports {l}", t.lines[i]));
                }
            }
        }
    }
    Ok(())
}
