//! C21: an encoder does not depend on what was encoded before, nor on other encoders

use crate::common::*;
use crate::header::jpeg_type;
use crate::hooks;
use crate::ids::*;
use crate::pixels::planes;
use crate::rt::*;
use core::cell::Cell;
use jpeg_encoder::*;

/// One encoding
struct Work {
    c: Cfg,
    quality: u8,
    /// 0: all ones, 1: as the quality says, 2: custom, 3 to 10: predefined tables, 11 and 12: custom, differ in one value
    tables: i64,
    at: usize,
    density: Density,
    segments: usize,
    bytes: [u8; 4],
    d: Vec<u8>,
}

impl Work {
    /// from five parameters: colour type, sampling factor, mode, width, height
    fn params(from: u32, n: usize, opts: i64) -> Work {
        let mut c = Cfg {
            ct: param(from) as usize,
            sf: param(from + 1) as usize,
            mode: param(from + 2),
            ri: -1,
            w: param(from + 3) as usize,
            h: param(from + 4) as usize,
        };
        if opts & 2 != 0 {
            c.any_interval();
        } else if opts & 128 != 0 {
            c.ri = 1 + (n == 0) as i64;
        }
        let mut d = vec![0; c.bytes()];
        let mut s = 5 + n as u32;
        for p in d.iter_mut() {
            s = s.wrapping_mul(1103515245).wrapping_add(12345);
            *p = (s >> 16) as u8;
        }
        if opts & 1 != 0 {
            fill(&mut d, 0, 255);
        }
        let mut bytes = [1; 4];
        fill(&mut bytes, 0, 255);
        let density = match (opts >> 2) & 3 {
            0 => Density::None,
            1 => Density::Inch { x: any_u16(), y: any_u16() },
            _ => Density::Centimeter { x: any_u16(), y: any_u16() },
        };
        Work { c, quality: 100, tables: 0, at: 0, density, segments: 0, bytes, d }
    }

    fn tables(&self, n: i64) -> QuantizationTableType {
        use QuantizationTableType::*;
        let mut t = [1; 64];
        match n {
            0 => Custom(Box::new(t)),
            1 => Default,
            2 => {
                for i in 0..64 {
                    t[i] = (i * 7 % 61 + 3) as u16;
                }
                Custom(Box::new(t))
            }
            11 | 12 => {
                t = [3; 64];
                t[self.at] = n as u16;
                Custom(Box::new(t))
            }
            3 => Flat,
            4 => CustomMsSsim,
            5 => CustomPsnrHvs,
            6 => ImageMagick,
            7 => KleinSilversteinCarney,
            8 => DentalXRays,
            9 => VisualDetectionModel,
            _ => ImprovedDetectionModel,
        }
    }

    fn first<W: JfifWrite>(&self, e: &mut Encoder<W>) {
        self.c.setup(e);
        e.set_density(self.density);
    }

    fn second<W: JfifWrite>(&self, e: &mut Encoder<W>) {
        if self.tables > 10 {
            e.set_quantization_tables(self.tables(self.tables), self.tables(self.tables));
        } else if self.tables > 0 {
            e.set_quantization_tables(self.tables(self.tables), self.tables(1 + self.tables % 10));
        }
        for i in 0..self.segments {
            let r = e.add_app_segment(3 + i as u8, &self.bytes[..4 - i]);
            check(r.is_ok(), SEG_ACCEPTED);
        }
        if self.segments > 1 {
            let r = e.add_icc_profile(&self.bytes[1..]);
            check(r.is_ok(), SEG_ACCEPTED);
        }
    }

    fn encoder<W: JfifWrite>(&self, w: W) -> Encoder<W> {
        let mut e = Encoder::new(w, self.quality);
        self.first(&mut e);
        self.second(&mut e);
        e
    }

    fn finish<W: JfifWrite>(&self, e: Encoder<W>) -> Result<(), EncodingError> {
        e.encode(&self.d, self.c.w as u16, self.c.h as u16, COLORS[self.c.ct])
    }

    /// the stream
    fn run(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(4096);
        let r = self.finish(self.encoder(&mut v));
        check(r.is_ok(), ENCODE_OK);
        v
    }

    /// the stream, and the samples of all blocks if the pixels are arbitrary
    fn all(&self, opts: i64) -> Vec<u8> {
        if opts & 1 == 0 {
            return self.run();
        }
        hooks::record();
        let mut v = self.run();
        for n in 0..hooks::recorded() {
            for s in hooks::samples(n) {
                v.extend_from_slice(&s.to_le_bytes());
            }
        }
        v
    }
}

fn same(a: &[u8], b: &[u8]) {
    check(a.len() == b.len(), HISTORY);
    for k in 0..a.len() {
        check(a[k] == b[k], HISTORY);
    }
}

/// An image that does something else in between
struct Nested<'a> {
    a: &'a Work,
    planes: Vec<Vec<u8>>,
    at: usize,
    rows: &'a Cell<usize>,
    run: &'a dyn Fn(),
}

impl<'a> ImageBuffer for Nested<'a> {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        jpeg_type(self.a.c.ct)
    }
    fn width(&self) -> u16 {
        self.a.c.w as u16
    }
    fn height(&self) -> u16 {
        self.a.c.h as u16
    }
    fn fill_buffers(&self, y: u16, buffers: &mut [Vec<u8>; 4]) {
        let n = self.rows.get();
        self.rows.set(n + 1);
        if n == self.at {
            (self.run)();
        }
        let w = self.a.c.w;
        for i in 0..self.planes.len() {
            for x in 0..w {
                buffers[i].push(self.planes[i][y as usize * w + x]);
            }
        }
    }
}

/// A writer that does something else in between, or fails
struct Busy<'a> {
    data: Vec<u8>,
    at: usize,
    calls: usize,
    fails: bool,
    run: &'a dyn Fn(),
}

impl<'a> Busy<'a> {
    fn take(&mut self, b: &[u8]) -> bool {
        let n = self.calls;
        self.calls += 1;
        if n == self.at {
            (self.run)();
            if self.fails {
                return false;
            }
        }
        self.data.extend_from_slice(b);
        true
    }
}

#[cfg(feature = "std")]
impl<'a> std::io::Write for Busy<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.take(b) {
            Ok(b.len())
        } else {
            Err(std::io::ErrorKind::StorageFull.into())
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[cfg(not(feature = "std"))]
impl<'a> JfifWrite for Busy<'a> {
    fn write_all(&mut self, b: &[u8]) -> Result<(), EncodingError> {
        if self.take(b) {
            Ok(())
        } else {
            Err(EncodingError::Write(String::from("full")))
        }
    }
    fn flush(&mut self) -> Result<(), EncodingError> {
        Ok(())
    }
}

/// Two encodings, each of which is the same in a process of its own.
/// params: avx2, kind, colour type, sampling factor, mode, width, height of one, and of the other,
/// options (1: arbitrary pixels, 2: any restart interval, 4 and 8: density, 16: qualities, 32: tables, 64: segments, 128: short intervals,
/// 256 *: only each such write, 65536 *: from this on; 256 if kind is 0: tables that differ in one value)
pub fn history() {
    avx2(param(0) != 0);
    let kind = param(1);
    let opts = param(12);
    let mut a = Work::params(2, 0, opts & !10);
    let mut b = Work::params(7, 7, opts & !4);
    if opts & 16 != 0 {
        const QUALITIES: [u8; 7] = [75, 1, 40, 50, 90, 100, 255];
        a.tables = 1;
        b.tables = 1;
        a.quality = QUALITIES[choose(7)];
        b.quality = QUALITIES[choose(2)];
    }
    if opts & 32 != 0 {
        a.tables = 1 + choose(10) as i64;
        b.tables = if choose(2) == 0 { 2 } else { a.tables % 10 + 1 };
        a.quality = 60;
        b.quality = 60;
    }
    if kind == 0 && opts & 256 != 0 {
        a.tables = 11;
        b.tables = 12;
        a.at = choose(64);
        b.at = a.at;
    }
    if opts & 64 != 0 {
        a.segments = choose(4);
        b.segments = choose(3);
    }
    let (a, b) = (a, b);
    // as new processes do it
    let fa = fresh(|| a.all(opts));
    let fb = fresh(|| b.all(opts));
    out(&fa);
    out(&fb);
    let step = ((opts >> 8) as usize & 255).max(1);
    match kind {
        // one after the other
        0 => {
            if choose(2) == 0 {
                same(&a.all(opts), &fa);
            }
            same(&b.all(opts), &fb);
            same(&a.all(opts), &fa);
            same(&b.all(opts), &fb);
        }
        // after a failure
        1 => {
            let run = || {};
            let mut w = Busy { data: Vec::with_capacity(4096), at: usize::MAX, calls: 0, fails: false, run: &run };
            let r = a.finish(a.encoder(&mut w));
            check(r.is_ok(), ENCODE_OK);
            let at = (opts >> 16) as usize % step + step * choose((w.calls - 1) / step + 1);
            let mut w = Busy { data: Vec::with_capacity(4096), at, calls: 0, fails: true, run: &run };
            let r = a.finish(a.encoder(&mut w));
            check(r.is_err() == (at < w.calls), FAIL_REPORTED);
            same(&b.all(opts), &fb);
            same(&a.all(opts), &fa);
        }
        // after something that was refused, or not done at all
        2 => {
            let mut v = Vec::new();
            let mut e = a.encoder(&mut v);
            let (w, h) = (a.c.w as u16, a.c.h as u16);
            let ok = match choose(8) {
                0 => e.encode(&a.d[..a.d.len() - 1], w, h, COLORS[a.c.ct]).is_err(),
                1 => e.encode(&a.d, 0, h, COLORS[a.c.ct]).is_err(),
                2 => e.encode(&a.d, w, 0, COLORS[a.c.ct]).is_err(),
                3 => e.add_app_segment(range_u8(16, 255), &a.bytes).is_err(),
                4 => e.add_app_segment(1, unreadable(65534)).is_err(),
                5 => e.add_icc_profile(unreadable(255 * 65519 + 1)).is_err(),
                6 => e.add_icc_profile(&a.bytes).is_ok(),
                _ => {
                    core::mem::forget(e);
                    true
                }
            };
            check(ok, SEG_REFUSED);
            same(&b.all(opts), &fb);
            same(&a.all(opts), &fa);
        }
        // at the same time
        3 => {
            let (mut va, mut vb) = (Vec::new(), Vec::new());
            let mut ea = Encoder::new(&mut va, a.quality);
            let mut eb;
            if choose(2) == 0 {
                a.first(&mut ea);
                eb = Encoder::new(&mut vb, b.quality);
                b.first(&mut eb);
                a.second(&mut ea);
                b.second(&mut eb);
            } else {
                eb = Encoder::new(&mut vb, b.quality);
                b.first(&mut eb);
                b.second(&mut eb);
                a.first(&mut ea);
                a.second(&mut ea);
            }
            let (x, y);
            if choose(2) == 0 {
                x = a.finish(ea);
                y = b.finish(eb);
            } else {
                y = b.finish(eb);
                x = a.finish(ea);
            }
            check(x.is_ok() && y.is_ok(), ENCODE_OK);
            same(&va, &fa);
            same(&vb, &fb);
        }
        // inside of each other
        4 => {
            let run = || same(&b.run(), &fb);
            let mut rows = 0;
            let mut v = Vec::with_capacity(4096);
            for again in [false, true] {
                let at = if again { choose(rows) } else { usize::MAX };
                let calls = Cell::new(0);
                v.clear();
                let image = Nested { a: &a, planes: planes(&a.c, &a.d), at, rows: &calls, run: &run };
                let r = a.encoder(&mut v).encode_image(image);
                check(r.is_ok(), ENCODE_OK);
                rows = calls.get();
            }
            same(&v, &fa);
        }
        _ => {
            let run = || same(&b.run(), &fb);
            let mut w = Busy { data: Vec::with_capacity(4096), at: usize::MAX, calls: 0, fails: false, run: &run };
            let r = a.finish(a.encoder(&mut w));
            check(r.is_ok(), ENCODE_OK);
            let at = (opts >> 16) as usize % step + step * choose((w.calls - 1) / step + 1);
            let mut w = Busy { data: Vec::with_capacity(4096), at, calls: 0, fails: false, run: &run };
            let r = a.finish(a.encoder(&mut w));
            check(r.is_ok(), ENCODE_OK);
            same(&w.data, &fa);
        }
    }
    reach(1);
}

/// What std::sync::Once does when nobody else is there, for the executor
#[cfg(not(feature = "native"))]
#[no_mangle]
#[track_caller]
pub unsafe fn verif_once_call(once: &core::sync::atomic::AtomicU32, _: bool, f: &mut dyn FnMut(*const (u32, u32))) {
    use core::sync::atomic::Ordering::SeqCst;
    once.store(1, SeqCst);
    let state = (0u32, 0u32);
    f(&state);
    once.store(0, SeqCst);
}
