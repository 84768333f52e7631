//! Runs one harness natively with the inputs of a counterexample:
//! replay HARNESS INPUTS-FILE PARAMS...
//!
//! GUARD=1 places each allocation right before an inaccessible page, GUARD=2 right behind one.
//! FILL is the byte that new memory holds.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU8, AtomicUsize, Ordering::SeqCst};

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
}

struct Guard;

static MODE: AtomicU8 = AtomicU8::new(0);
static FILL: AtomicU8 = AtomicU8::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
const ARENA: usize = 1 << 36;
const LARGE: usize = 1 << 24;

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let mode = MODE.load(SeqCst);
        if mode == 0 || l.size() > LARGE {
            return System.alloc(l);
        }
        let size = (l.size() + 4095) & !4095;
        let at = NEXT.fetch_add(size + 8192, SeqCst) + 4096;
        if at + size + 4096 > ARENA {
            return System.alloc(l);
        }
        let p = (BASE.load(SeqCst) + at) as *mut u8;
        if mprotect(p, size, 3) != 0 {
            return System.alloc(l);
        }
        let p = if mode == 1 { p.add((size - l.size()) & !(l.align() - 1)) } else { p };
        std::ptr::write_bytes(p, FILL.load(SeqCst), l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if MODE.load(SeqCst) == 0 || l.size() > LARGE {
            return System.alloc_zeroed(l);
        }
        let p = self.alloc(l);
        std::ptr::write_bytes(p, 0, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let b = BASE.load(SeqCst);
        let a = p as usize;
        if b != 0 && a >= b && a < b + ARENA {
            let from = a & !4095;
            mprotect(from as *mut u8, ((a + l.size() + 4095) & !4095) - from, 0);
        } else {
            System.dealloc(p, l)
        }
    }
}

#[global_allocator]
static GUARD: Guard = Guard;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).unwrap();
    {
        let mut s = harness::rt::imp::STATE.lock().unwrap();
        s.inputs = text.split_whitespace().map(|x| x.parse().unwrap()).collect();
        s.params = a[3..].iter().map(|x| x.parse().unwrap()).collect();
    }
    std::panic::set_hook(Box::new(|i| {
        let expected = match harness::rt::imp::STATE.try_lock() {
            Ok(s) => s.expect_panic,
            Err(_) => false,
        };
        if expected && !i.to_string().contains("unsafe precondition") {
            println!("EXPECTED PANIC {}", i);
            std::process::exit(0);
        }
        println!("PANIC {}", i);
    }));
    let number = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<u8>().ok()).unwrap_or(0);
    let guard = number("GUARD");
    FILL.store(number("FILL"), SeqCst);
    if guard > 0 {
        let p = unsafe { mmap(std::ptr::null_mut(), ARENA, 0, 0x4022, -1, 0) };
        if p as isize != -1 {
            BASE.store(p as usize, SeqCst);
            MODE.store(guard, SeqCst);
        }
    }
    match harness::TABLE.iter().find(|t| t.0 == a[1]) {
        Some(t) => (t.1)(),
        None => {
            println!("no harness {}", a[1]);
            std::process::exit(3)
        }
    }
    harness::rt::imp::finish();
}
