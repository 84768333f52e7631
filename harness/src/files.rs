//! Encoders that write to files. The standard library is executed as well; the calls of the operating system it makes
//! are modelled here (natively they are made).

#![allow(static_mut_refs)]

use crate::common::*;
use crate::ids::*;
use crate::rt::*;
use jpeg_encoder::*;

const OLD: u8 = 0xA5;

#[cfg(not(feature = "native"))]
mod system {
    use super::*;

    pub struct Disk {
        /// None: there is no such file
        file: Option<Vec<u8>>,
        directory: bool,
        capacity: usize,
        position: usize,
        append: bool,
        open: bool,
    }

    static mut DISK: Disk =
        Disk { file: None, directory: true, capacity: 0, position: 0, append: false, open: false };
    static mut ERRNO: i32 = 0;

    const PATH: &[u8] = b"a.jpg\0";

    pub fn path() -> String {
        "a.jpg".into()
    }
    pub fn prepare(old: Option<usize>, directory: bool, capacity: usize) {
        unsafe {
            DISK = Disk {
                file: old.map(|n| vec![OLD; n]),
                directory,
                capacity,
                position: 0,
                append: false,
                open: false,
            }
        }
    }
    pub fn contents() -> Option<Vec<u8>> {
        unsafe {
            check(!DISK.open, FILE_CLOSED);
            DISK.file.take()
        }
    }
    pub fn finish() {}

    #[no_mangle]
    unsafe extern "C" fn open64(path: *const u8, flags: i32, _mode: u32) -> i32 {
        for (i, b) in PATH.iter().enumerate() {
            check(*path.add(i) == *b, FILE_NAME);
        }
        let fail = |e| {
            ERRNO = e;
            -1
        };
        if !DISK.directory {
            return fail(2); // ENOENT
        }
        if DISK.file.is_none() {
            if flags & 0o100 == 0 {
                return fail(2);
            }
            DISK.file = Some(vec![]);
        } else if flags & 0o300 == 0o300 {
            return fail(17); // EEXIST
        }
        if flags & 0o1000 != 0 {
            DISK.file = Some(vec![]);
        }
        if flags & 3 == 0 {
            DISK.capacity = 0;
        }
        DISK.append = flags & 0o2000 != 0;
        DISK.open = true;
        7
    }

    /// one path for each value from low up to high
    #[inline(never)]
    fn each(v: usize, low: usize, high: usize) -> usize {
        if high - low < 2 {
            return low;
        }
        let m = (low + high) / 2;
        if concretize((v < m) as u64) == 1 {
            each(v, low, m)
        } else {
            each(v, m, high)
        }
    }

    #[no_mangle]
    unsafe extern "C" fn write(fd: i32, p: *const core::ffi::c_void, n: usize) -> isize {
        let p = p as *const u8;
        if fd != 7 || !DISK.open {
            ERRNO = 9; // EBADF
            return -1;
        }
        let f = DISK.file.as_mut().unwrap();
        if DISK.append {
            DISK.position = f.len();
        }
        let at = DISK.position;
        let mut m = n;
        if n > 0 && DISK.capacity < at + n {
            if DISK.capacity <= at {
                ERRNO = 27; // EFBIG
                return -1;
            }
            m = each(DISK.capacity - at, 0, n);
        }
        if f.len() < at + m {
            f.resize(at + m, 0);
        }
        f[at..at + m].copy_from_slice(core::slice::from_raw_parts(p, m));
        DISK.position = at + m;
        m as isize
    }

    #[no_mangle]
    unsafe extern "C" fn close(fd: i32) -> i32 {
        if fd != 7 || !DISK.open {
            ERRNO = 9;
            return -1;
        }
        DISK.open = false;
        0
    }

    #[no_mangle]
    unsafe extern "C" fn fcntl(_fd: i32, _command: i32) -> i32 {
        if DISK.open {
            0
        } else {
            ERRNO = 9;
            -1
        }
    }

    #[no_mangle]
    unsafe extern "C" fn __errno_location() -> *mut i32 {
        core::ptr::addr_of_mut!(ERRNO)
    }
}

#[cfg(feature = "native")]
mod system {
    use super::*;
    use std::path::PathBuf;

    extern "C" {
        fn setrlimit(what: i32, limit: *const [u64; 2]) -> i32;
        fn signal(number: i32, handler: usize) -> usize;
    }

    fn folder() -> PathBuf {
        std::env::temp_dir().join(format!("verif-files-{}", std::process::id()))
    }
    pub fn path() -> String {
        folder().join("d").join("a.jpg").to_str().unwrap().into()
    }
    pub fn prepare(old: Option<usize>, directory: bool, capacity: usize) {
        std::fs::create_dir(folder()).unwrap();
        if directory {
            std::fs::create_dir(folder().join("d")).unwrap();
            if let Some(n) = old {
                std::fs::write(path(), vec![OLD; n]).unwrap();
            }
        }
        unsafe {
            signal(25, 1); // SIGXFSZ, SIG_IGN
            setrlimit(1, &[capacity as u64, u64::MAX]); // RLIMIT_FSIZE
        }
    }
    pub fn contents() -> Option<Vec<u8>> {
        let r = std::fs::read(path()).ok();
        finish();
        r
    }
    pub fn finish() {
        unsafe {
            setrlimit(1, &[u64::MAX, u64::MAX]);
        }
        let _ = std::fs::remove_dir_all(folder());
    }
}

/// params: avx2, colour type, sampling factor, mode, restart interval, width, height, kind, length of the old file
pub fn files() {
    avx2(param(0) != 0);
    let c = Cfg::params(1);
    let mut d = vec![0; c.bytes()];
    let mut s = 5u32;
    for p in d.iter_mut() {
        s = s.wrapping_mul(1103515245).wrapping_add(12345);
        *p = (s >> 16) as u8;
    }
    let quality = 100;
    let reference = c.encode(&d);
    let total = reference.len();
    let old = match param(8) {
        -1 => None,
        n => Some(total.wrapping_add(n as usize)),
    };
    // 0: there is room enough, 1: the disk is full after any number of bytes, 2: the file cannot be created
    let capacity = if param(7) == 1 { range_usize(0, total + 9) } else { total + 100_000 };
    system::prepare(old, param(7) != 2, capacity);
    let r = match Encoder::new_file(system::path(), quality) {
        Ok(mut e) => {
            check(param(7) != 2, FAIL_REPORTED);
            c.setup(&mut e);
            e.encode(&d, c.w as u16, c.h as u16, COLORS[c.ct])
        }
        Err(e) => {
            check(param(7) == 2, ENCODE_OK);
            check(matches!(&e, EncodingError::IoError(x) if x.kind() == std::io::ErrorKind::NotFound), FAIL_SAME);
            system::finish();
            return;
        }
    };
    let f = system::contents();
    check(f.is_some(), SUCCESS_COMPLETE);
    let f = f.unwrap();
    match r {
        Ok(_) => {
            check(capacity >= total, FAIL_REPORTED);
            check(f == reference, SUCCESS_COMPLETE);
            reach(1);
        }
        Err(e) => {
            check(capacity < total, ENCODE_OK);
            check(matches!(&e, EncodingError::IoError(x) if x.raw_os_error() == Some(27)), FAIL_SAME);
            check(f.len() <= total && f[..] == reference[..f.len()], FAIL_PREFIX);
            reach(2);
        }
    }
    out(&f);
}
