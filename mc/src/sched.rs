//! A controlled scheduler for two threads: every memory allocation of the
//! code under verification is a point where the other thread can be made to
//! run. Nothing in here allocates.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

pub struct Sched {
    /// The thread that may run.
    turn: AtomicUsize,
    /// Thread `i` hands over once it passed this many points.
    at: [AtomicU64; 2],
    count: [AtomicU64; 2],
    done: [AtomicBool; 2],
    /// The running thread seems to wait for the other one: let both run.
    free: AtomicBool,
}
thread_local!(static ME: Cell<Option<(*const Sched, usize)>> = const { Cell::new(None) });

impl Sched {
    /// Thread 0 runs up to its point `a`, thread 1 up to its point `b`, then
    /// thread 0 to its end, then thread 1.
    pub fn new(a: u64, b: u64) -> Sched {
        Sched {
            turn: AtomicUsize::new(0),
            at: [AtomicU64::new(a), AtomicU64::new(b)],
            count: [AtomicU64::new(0), AtomicU64::new(0)],
            done: [AtomicBool::new(false), AtomicBool::new(false)],
            free: AtomicBool::new(false),
        }
    }
    fn wait(&self, me: usize) {
        let mut seen = (u64::MAX, Instant::now());
        let mut n = 0u32;
        while self.turn.load(Acquire) != me && !self.free.load(Acquire) && !self.done[1 - me].load(Acquire) {
            n += 1;
            if n % 64 == 0 {
                std::thread::yield_now();
                let c = self.count[1 - me].load(Relaxed);
                if c != seen.0 {
                    seen = (c, Instant::now());
                } else if seen.1.elapsed() > Duration::from_millis(500) {
                    self.free.store(true, Release);
                }
            } else {
                std::hint::spin_loop()
            }
        }
    }
    pub fn enter(&self, me: usize) {
        ME.with(|m| m.set(Some((self, me))));
        self.wait(me);
    }
    pub fn leave(&self, me: usize) {
        ME.with(|m| m.set(None));
        self.done[me].store(true, Release);
        self.turn.store(1 - me, Release);
    }
    pub fn points(&self, me: usize) -> u64 {
        self.count[me].load(Relaxed)
    }
    pub fn freed(&self) -> bool {
        self.free.load(Relaxed)
    }
}
pub fn point() {
    let Ok(Some((s, me))) = ME.try_with(|m| m.get()) else { return };
    let s = unsafe { &*s };
    let c = s.count[me].fetch_add(1, Relaxed);
    if c == s.at[me].load(Relaxed) && !s.done[1 - me].load(Acquire) {
        s.turn.store(1 - me, Release);
        s.wait(me);
    }
}
