//! Interface to the symbolic executor. With feature `native` the same functions read
//! the inputs of a counterexample from a file.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn verif_sym_u(bits: u32, lo: u64, hi: u64) -> u64;
        pub fn verif_sym_i(bits: u32, lo: i64, hi: i64) -> i64;
        pub fn verif_bytes(p: *mut u8, len: usize, lo: u8, hi: u8);
        pub fn verif_choose(n: u64) -> u64;
        pub fn verif_concretize(v: u64) -> u64;
        pub fn verif_assume(c: bool);
        pub fn verif_check(c: bool, id: u32);
        pub fn verif_check_linear(v: i64, lo: i64, hi: i64, id: u32);
        pub fn verif_reach(id: u32);
        pub fn verif_param(i: u32) -> i64;
        pub fn verif_avx2(on: bool);
        pub fn verif_expect_panic(on: bool);
        pub fn verif_forget();
        pub fn verif_out(p: *const u8, len: usize);
        pub fn verif_slice(len: usize) -> *const u8;
        pub fn verif_window(len: usize, at: usize, n: usize) -> *mut u8;
    }
}

#[cfg(feature = "native")]
pub mod imp {
    use std::sync::Mutex;

    pub struct State {
        pub inputs: Vec<u64>,
        pub next: usize,
        pub params: Vec<i64>,
        pub out: Vec<u8>,
        pub expect_panic: bool,
    }

    pub static STATE: Mutex<State> =
        Mutex::new(State { inputs: vec![], next: 0, params: vec![], out: vec![], expect_panic: false });

    fn next() -> u64 {
        let mut s = STATE.lock().unwrap();
        let v = s.inputs.get(s.next).copied().unwrap_or(0);
        s.next += 1;
        v
    }

    fn outside() -> ! {
        println!("ASSUMPTION does not hold");
        std::process::exit(77)
    }

    pub fn finish() {
        use std::io::Write;
        let s = STATE.lock().unwrap();
        let hex: String = s.out.iter().map(|b| format!("{:02x}", b)).collect();
        println!("OUT {}", hex);
        std::io::stdout().flush().unwrap();
    }

    fn fail(text: String) -> ! {
        println!("{}", text);
        finish();
        std::process::exit(10)
    }

    pub unsafe fn verif_sym_u(bits: u32, lo: u64, hi: u64) -> u64 {
        let v = next();
        let v = if bits < 64 { v & ((1 << bits) - 1) } else { v };
        if v < lo || v > hi {
            outside()
        }
        v
    }
    pub unsafe fn verif_sym_i(bits: u32, lo: i64, hi: i64) -> i64 {
        let v = (next() << (64 - bits)) as i64 >> (64 - bits);
        if v < lo || v > hi {
            outside()
        }
        v
    }
    pub unsafe fn verif_bytes(p: *mut u8, len: usize, lo: u8, hi: u8) {
        for i in 0..len {
            *p.add(i) = verif_sym_u(8, lo.into(), hi.into()) as u8;
        }
    }
    pub unsafe fn verif_choose(n: u64) -> u64 {
        verif_sym_u(64, 0, n - 1)
    }
    pub unsafe fn verif_concretize(v: u64) -> u64 {
        v
    }
    pub unsafe fn verif_assume(c: bool) {
        if !c {
            outside()
        }
    }
    pub unsafe fn verif_check(c: bool, id: u32) {
        if !c {
            fail(format!("CHECK {} fails: {}", id, crate::ids::text(id)))
        }
    }
    pub unsafe fn verif_check_linear(v: i64, lo: i64, hi: i64, id: u32) {
        if v < lo || v > hi {
            fail(format!("CHECK {} fails: {} ({} is not in {}..={})", id, crate::ids::text(id), v, lo, hi))
        }
    }
    pub unsafe fn verif_reach(_id: u32) {}
    pub unsafe fn verif_param(i: u32) -> i64 {
        STATE.lock().unwrap().params[i as usize]
    }
    pub unsafe fn verif_avx2(_on: bool) {}
    pub unsafe fn verif_expect_panic(on: bool) {
        STATE.lock().unwrap().expect_panic = on;
    }
    pub unsafe fn verif_out(p: *const u8, len: usize) {
        let s = std::slice::from_raw_parts(p, len);
        STATE.lock().unwrap().out.extend_from_slice(s);
    }
    /// memory that is reserved, but never touched
    pub unsafe fn verif_slice(len: usize) -> *const u8 {
        if len == 0 {
            return 1 as *const u8;
        }
        extern "C" {
            fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        }
        // PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
        let p = mmap(std::ptr::null_mut(), len, 0, 0x4022, -1, 0);
        assert!(p as isize != -1);
        p
    }
    /// memory of zeros between two inaccessible pages
    pub unsafe fn verif_window(len: usize, _at: usize, _n: usize) -> *mut u8 {
        extern "C" {
            fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
            fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
        }
        let size = (len + 4095) & !4095;
        // PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
        let p = mmap(std::ptr::null_mut(), size + 8192, 0, 0x4022, -1, 0);
        assert!(p as isize != -1);
        assert!(mprotect(p.add(4096), size, 3) == 0);
        p.add(4096 + size - len)
    }
}

use imp::*;

pub fn u(bits: u32, lo: u64, hi: u64) -> u64 {
    unsafe { verif_sym_u(bits, lo, hi) }
}
pub fn any_u8() -> u8 {
    u(8, 0, 255) as u8
}
pub fn range_u8(lo: u8, hi: u8) -> u8 {
    u(8, lo.into(), hi.into()) as u8
}
pub fn any_u16() -> u16 {
    u(16, 0, 65535) as u16
}
pub fn range_u16(lo: u16, hi: u16) -> u16 {
    u(16, lo.into(), hi.into()) as u16
}
pub fn range_u32(lo: u32, hi: u32) -> u32 {
    u(32, lo.into(), hi.into()) as u32
}
pub fn range_usize(lo: usize, hi: usize) -> usize {
    u(64, lo as u64, hi as u64) as usize
}
pub fn range_i16(lo: i16, hi: i16) -> i16 {
    unsafe { verif_sym_i(16, lo.into(), hi.into()) as i16 }
}
pub fn any_bool() -> bool {
    u(8, 0, 1) == 1
}
pub fn fill(b: &mut [u8], lo: u8, hi: u8) {
    unsafe { verif_bytes(b.as_mut_ptr(), b.len(), lo, hi) }
}
/// one path for each value below n
pub fn choose(n: usize) -> usize {
    unsafe { verif_choose(n as u64) as usize }
}
/// one path for each possible value
pub fn concretize(v: u64) -> u64 {
    unsafe { verif_concretize(v) }
}
pub fn assume(c: bool) {
    unsafe { verif_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, id: u32) {
    unsafe { verif_check(c, id) }
}
#[inline(always)]
pub fn check_linear(v: i64, lo: i64, hi: i64, id: u32) {
    unsafe { verif_check_linear(v, lo, hi, id) }
}
pub fn reach(id: u32) {
    unsafe { verif_reach(id) }
}
pub fn param(i: u32) -> i64 {
    unsafe { verif_param(i) }
}
pub fn avx2(on: bool) {
    unsafe { verif_avx2(on) }
}
pub fn expect_panic(on: bool) {
    unsafe { verif_expect_panic(on) }
}
/// What happens in a process of its own, given the arbitrary values of this one. Nothing of the crate may have
/// been called before.
#[cfg(not(feature = "native"))]
pub fn fresh(f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    let v = f();
    unsafe { verif_forget() };
    v
}
#[cfg(feature = "native")]
pub fn fresh(f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    extern "C" {
        fn fork() -> i32;
        fn pipe(fds: *mut i32) -> i32;
        fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        fn _exit(code: i32) -> !;
    }
    let mut fds = [0; 2];
    unsafe {
        assert!(pipe(fds.as_mut_ptr()) == 0);
        let mut from = std::fs::File::from_raw_fd(fds[0]);
        let mut to = std::fs::File::from_raw_fd(fds[1]);
        std::io::stdout().flush().unwrap();
        let pid = fork();
        assert!(pid >= 0);
        if pid == 0 {
            drop(from);
            let v = f();
            to.write_all(&v).unwrap();
            _exit(0)
        }
        drop(to);
        let mut v = vec![];
        from.read_to_end(&mut v).unwrap();
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        if status != 0 {
            // the child has said why
            std::process::exit(if status & 0x7F != 0 { 101 } else { status >> 8 })
        }
        v
    }
}
pub fn out(b: &[u8]) {
    unsafe { verif_out(b.as_ptr(), b.len()) }
}
/// a slice that may not be read, of which only the length matters
pub fn unreadable(len: usize) -> &'static [u8] {
    unsafe { std::slice::from_raw_parts(verif_slice(len), len) }
}
/// a slice of zeros, of which `n` bytes from `at` on may be changed
pub fn window(len: usize, at: usize, n: usize) -> &'static mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(verif_window(len, at, n), len) }
}
