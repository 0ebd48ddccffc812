//! What every worker is currently converting, kept in memory shared with the
//! supervising parent process, so that a conversion that kills or blocks the
//! process is identified.
use std::cell::Cell;
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

pub const SLOTS: usize = 40;
pub const SLOT: usize = 1 << 20;
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static SINCE: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
thread_local!(static MINE: Cell<usize> = const { Cell::new(usize::MAX) });

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
pub fn limit_memory(bytes: u64) {
    unsafe {
        setrlimit(9, &[bytes, bytes]);
        setrlimit(4, &[0, 0]);
    }
}
fn t0() -> Instant {
    static T: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    *T.get_or_init(Instant::now)
}
pub fn attach(path: &str) {
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("watch file");
    let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * SLOT, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    BASE.store(p as usize, SeqCst);
    t0();
}
fn slot() -> usize {
    MINE.with(|m| {
        if m.get() == usize::MAX {
            m.set(NEXT.fetch_add(1, SeqCst) % SLOTS);
        }
        m.get()
    })
}
pub fn enter(input: &[u8], desc: &str) {
    let b = BASE.load(Relaxed);
    if b == 0 {
        return;
    }
    let s = slot();
    unsafe {
        let p = (b + s * SLOT) as *mut u8;
        let d = desc.len().min(4096);
        std::ptr::write_volatile(p.add(8) as *mut u64, d as u64);
        std::ptr::copy_nonoverlapping(desc.as_ptr(), p.add(16), d);
        let n = input.len().min(SLOT - 8192);
        std::ptr::copy_nonoverlapping(input.as_ptr(), p.add(8192), n);
        std::ptr::write_volatile(p as *mut u64, input.len() as u64 + 1);
    }
    SINCE[s].store(t0().elapsed().as_millis() as u64 + 1, Relaxed);
}
pub fn leave() {
    let b = BASE.load(Relaxed);
    if b == 0 {
        return;
    }
    let s = slot();
    SINCE[s].store(0, Relaxed);
    unsafe { std::ptr::write_volatile((b + s * SLOT) as *mut u64, 0) }
}
/// Exit code of a worker process in which a conversion did not end.
pub const HANG: i32 = 77;
pub fn spawn_watchdog(limit: Duration) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let now = t0().elapsed().as_millis() as u64;
        for s in &SINCE {
            let v = s.load(Relaxed);
            if v != 0 && now > v + limit.as_millis() as u64 {
                std::process::exit(HANG)
            }
        }
    });
}
/// The inputs that were being converted when the worker process ended.
pub fn pending(path: &str) -> Vec<(String, Vec<u8>)> {
    let Ok(d) = std::fs::read(path) else { return vec![] };
    let mut out = vec![];
    for s in d.chunks(SLOT) {
        let n = u64::from_le_bytes(s[..8].try_into().unwrap());
        if n > 0 {
            let d = u64::from_le_bytes(s[8..16].try_into().unwrap()).min(4096) as usize;
            let n = (n as usize - 1).min(SLOT - 8192);
            out.push((String::from_utf8_lossy(&s[16..16 + d]).into_owned(), s[8192..8192 + n].to_vec()))
        }
    }
    out
}
