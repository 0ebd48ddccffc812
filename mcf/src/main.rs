//! Answers the requests on its input. The answers go to the standard error
//! stream, marked, because the `debug` feature prints to the standard output stream.
mod answer;
use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let a = answer::answer(&line.unwrap());
        let mut e = std::io::stderr().lock();
        e.write_all(b"> ").unwrap();
        e.write_all(a.replace('\n', " ").as_bytes()).unwrap();
        e.write_all(b"\n").unwrap();
    }
}
