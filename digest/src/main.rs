//! Runs calls of the menu and returns what came out, so that builds of the same
//! source under different profiles can be compared (C28). Reads (kind, seed) pairs
//! from standard input, answers on standard output.
#![allow(dead_code)]
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/menu.rs"]
mod menu;
#[path = "../../harness/src/refmodel.rs"]
mod refmodel;
#[path = "../../harness/src/rng.rs"]
mod rng;

use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut inp = std::io::stdin().lock();
    // answers go where standard output went; what the library prints goes nowhere
    // SAFETY: plain descriptor calls; the duplicate is owned by `out` alone.
    let mut out = unsafe {
        let f = File::from_raw_fd(dup(1));
        if let Ok(null) = File::create("/dev/null") {
            dup2(null.as_raw_fd(), 1);
        }
        f
    };
    let mut q = [0u8; 16];
    while inp.read_exact(&mut q).is_ok() {
        let kind = u64::from_le_bytes(q[..8].try_into().unwrap());
        let seed = u64::from_le_bytes(q[8..].try_into().unwrap());
        let c = menu::Call::draw(&mut rng::Rng::new(seed), (kind % 100) as usize, kind < 100);
        let o = std::panic::catch_unwind(|| c.run());
        let mut b = vec![];
        let put = |b: &mut Vec<u8>, x: u64| b.extend_from_slice(&x.to_le_bytes());
        put(&mut b, menu::hash(&c));
        put(&mut b, o.is_ok() as u64);
        let o = o.unwrap_or_default();
        put(&mut b, o.num.len() as u64);
        o.num.iter().for_each(|x| put(&mut b, *x));
        put(&mut b, o.text.len() as u64);
        for t in &o.text {
            put(&mut b, t.len() as u64);
            b.extend_from_slice(t.as_bytes());
        }
        let mut all = (b.len() as u64).to_le_bytes().to_vec();
        all.extend(b);
        if out.write_all(&all).and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}
