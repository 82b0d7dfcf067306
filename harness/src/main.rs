//! Performs stimuli on the real crate and records what happened, one JSON line each.
//! It judges nothing: every verdict is the specification's.
mod j;
mod make;
mod msg;
mod ops;
mod pipe;
mod proj;
mod text;

use j::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// Counts live bytes, and the most there have been since `mark`.
struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
fn grew(n: usize) {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(live, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            grew(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            grew(l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE.fetch_sub(l.size(), Relaxed);
            grew(n);
        }
        q
    }
}
#[global_allocator]
static A: Counting = Counting;

pub fn mark() -> usize {
    let live = LIVE.load(Relaxed);
    PEAK.store(live, Relaxed);
    live
}
pub fn peak_since(mark: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(mark)
}

/// Run one call into the crate; a panic is an observation, not an end.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // The stack a library user would get in a spawned thread.
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(work).unwrap();
    if t.join().is_err() {
        std::process::exit(3);
    }
}

fn work() {
    let stdin = std::io::stdin();
    for text in stdin.lock().lines() {
        let text = text.unwrap();
        if text.is_empty() {
            continue;
        }
        let cmd = parse(text.as_bytes());
        let idx = cmd.req("i").clone();
        let op = cmd.req("op").str().to_string();
        // one line per step, so that what preceded the death of this process is known
        let mut k = 0;
        let mut emit = |r: J| {
            line(vec![("i".to_string(), idx.clone()), ("k".to_string(), n(k)), ("r".to_string(), r)]);
            k += 1;
        };
        // A panic outside the guarded calls comes from building or looking at values of the crate.
        let done = guarded(|| match op.as_str() {
            "dec" => emit(ops::dec(&cmd)),
            "enc" => emit(ops::enc(&cmd)),
            "same" => emit(ops::same(&cmd)),
            "make" => emit(make::run(&cmd)),
            "time" => emit(ops::time(&cmd)),
            "text" => text::run(&cmd, &mut emit),
            "pipe" => pipe::run(&cmd, &mut emit),
            "msg" => msg::run(&cmd, &mut emit),
            _ => bad("unknown op"),
        });
        if done.is_err() {
            emit(J::O(vec![("res".to_string(), s("panic"))]));
        }
        line(vec![("i".to_string(), idx.clone()), ("end".to_string(), n(k))]);
    }
}

fn line(fields: Vec<(String, J)>) {
    let mut text = String::new();
    J::O(fields).print(&mut text);
    text.push('\n');
    let stdout = std::io::stdout();
    let mut o = stdout.lock();
    o.write_all(text.as_bytes()).unwrap();
    o.flush().unwrap();
}
