//! C14: writers that fail

use crate::common::*;
use crate::ids::*;
use crate::rt::*;
use crate::sink::*;
use jpeg_encoder::*;

fn picture(c: &Cfg) -> Vec<u8> {
    let mut d = vec![0; c.bytes()];
    let mut s = 5u32;
    for p in d.iter_mut() {
        s = s.wrapping_mul(1103515245).wrapping_add(12345);
        *p = (s >> 16) as u8;
    }
    d
}

/// params: avx2, colour type, sampling factor, mode, restart interval, width, height, kind, chunk
pub fn fail() {
    avx2(param(0) != 0);
    let c = Cfg::params(1);
    let d = picture(&c);
    let mut reference = Sink::new();
    let run = |s: &mut Sink| {
        let mut e = Encoder::new(s, 100);
        c.setup(&mut e);
        let r = e.add_app_segment(3, b"abc");
        check(r.is_ok(), SEG_ACCEPTED);
        e.encode(&d, c.w as u16, c.h as u16, COLORS[c.ct])
    };
    let r = run(&mut reference);
    check(r.is_ok(), ENCODE_OK);
    check(reference.flushes > 0 && reference.flushed == reference.data.len(), FLUSHED);
    let total = reference.data.len();
    let mut s = Sink::new();
    s.chunk = if param(8) > 0 && param(7) != 6 { param(8) as usize } else { usize::MAX };
    match param(7) {
        // the writer is full after any number of bytes
        0 | 1 => {
            s.zero = param(7) == 1;
            s.accept = range_usize(0, total + 9);
            let accept = s.accept;
            let r = run(&mut s);
            let n = s.data.len();
            match r {
                Ok(_) => {
                    check(accept >= total && n == total, SUCCESS_COMPLETE);
                    check(s.data == reference.data, SAME_STREAM);
                    check(s.flushed == total, FLUSHED);
                    reach(1);
                }
                Err(e) => {
                    check(accept < total, FAIL_REPORTED);
                    check(is_ours(&e, &s), FAIL_SAME);
                    reach(2);
                }
            }
            check(s.after == 0, FAIL_STOP);
            check(n <= total && s.data[..] == reference.data[..n], FAIL_PREFIX);
        }
        // any one call is interrupted, or accepts only one byte
        2 | 3 => {
            s.odd_call = range_usize(0, 1 << 20);
            s.odd_interrupted = param(7) == 2;
            let r = run(&mut s);
            check(r.is_ok(), SUCCESS_COMPLETE);
            check(s.data == reference.data, SAME_STREAM);
            check(s.flushed == total, FLUSHED);
        }
        // flushing fails
        4 => {
            s.flush_fails = true;
            s.code = if cfg!(feature = "std") { choose(ERRORS) } else { 0 };
            match run(&mut s) {
                Ok(_) => check(false, FAIL_REPORTED),
                Err(e) => check(is_ours(&e, &s), FAIL_SAME),
            }
        }
        // short writes
        5 => {
            s.chunk = 1 + choose(80);
            let r = run(&mut s);
            check(r.is_ok(), SUCCESS_COMPLETE);
            check(s.data == reference.data, SAME_STREAM);
        }
        _ => {}
    }
    #[cfg(feature = "std")]
    if param(7) >= 6 {
        // behind a buffer, as files are written
        s.accept = range_usize(0, total + 9);
        let accept = s.accept;
        let r = match param(7) {
            6 => through(Buffered { to: &mut s, buffer: vec![], size: param(8) as usize }, &c, &d),
            #[cfg(feature = "file")]
            7 => through(std::io::BufWriter::with_capacity(param(8) as usize, &mut s), &c, &d),
            #[cfg(feature = "file")]
            8 => through(std::io::LineWriter::with_capacity(param(8) as usize, &mut s), &c, &d),
            _ => return,
        };
        match r {
            Ok(_) => {
                check(accept >= total && s.data == reference.data, SUCCESS_COMPLETE);
                check(s.flushed == total, FLUSHED);
                reach(1);
            }
            Err(e) => {
                check(accept < total, FAIL_REPORTED);
                check(is_ours(&e, &s), FAIL_SAME);
                reach(2);
            }
        }
        let n = s.data.len();
        check(n <= total && s.data[..] == reference.data[..n], FAIL_PREFIX);
    }
}

#[cfg(feature = "std")]
fn through<W: std::io::Write>(w: W, c: &Cfg, d: &[u8]) -> Result<(), EncodingError> {
    let mut e = Encoder::new(w, 100);
    c.setup(&mut e);
    let r = e.add_app_segment(3, b"abc");
    check(r.is_ok(), SEG_ACCEPTED);
    e.encode(d, c.w as u16, c.h as u16, COLORS[c.ct])
}

/// Slices and cursors of any length as writers.
/// params: avx2, colour type, sampling factor, mode, restart interval, width, height, kind
#[cfg(feature = "std")]
pub fn std_writers() {
    avx2(param(0) != 0);
    let c = Cfg::params(1);
    let d = picture(&c);
    let reference = c.encode(&d);
    let total = reference.len();
    let size = choose(total + 10);
    let mut b = vec![0u8; total + 9];
    let (r, n) = match param(7) {
        0 => {
            let mut w = &mut b[..size];
            let mut e = Encoder::new(&mut w, 100);
            c.setup(&mut e);
            let r = e.encode(&d, c.w as u16, c.h as u16, COLORS[c.ct]);
            (r, size - w.len())
        }
        _ => {
            let mut w = std::io::Cursor::new(&mut b[..size]);
            let mut e = Encoder::new(&mut w, 100);
            c.setup(&mut e);
            let r = e.encode(&d, c.w as u16, c.h as u16, COLORS[c.ct]);
            (r, w.position() as usize)
        }
    };
    match r {
        Ok(_) => check(size >= total && n == total, SUCCESS_COMPLETE),
        Err(_) => check(size < total, FAIL_REPORTED),
    }
    check(b[..n] == reference[..n], FAIL_PREFIX);
}

#[cfg(not(feature = "std"))]
pub fn std_writers() {}

/// Writers the crate provides itself without std, and references to writers.
/// params: avx2, colour type, mode
pub fn writers() {
    avx2(param(0) != 0);
    let mut c = Cfg { ct: param(1) as usize, sf: 0, mode: param(2), ri: -1, w: 9, h: 9 };
    c.any_interval();
    let d = picture(&c);
    let mut s = Sink::new();
    {
        let mut e = Encoder::new(&mut s, 100);
        c.setup(&mut e);
        let r = e.encode(&d, 9, 9, COLORS[c.ct]);
        check(r.is_ok(), ENCODE_OK);
    }
    let v = c.encode(&d);
    check(v == s.data, SAME_STREAM);
    check(s.flushed == v.len(), FLUSHED);
    let mut t = Sink::new();
    {
        let mut r = &mut t;
        let mut e = Encoder::new(&mut r, 100);
        c.setup(&mut e);
        let r = e.encode(&d, 9, 9, COLORS[c.ct]);
        check(r.is_ok(), ENCODE_OK);
    }
    check(v == t.data, SAME_STREAM);
    check(t.flushed == v.len(), FLUSHED);
}
