//! C10, C11, C15, C16, C18, C19: which pixels end up in which block

use crate::common::*;
use crate::header::{check_scans, jpeg_type, MODES};
use crate::hooks;
use crate::ids::*;
use crate::jpeg::*;
use crate::rt::*;
use jpeg_encoder::*;

/// What the components of a picture are, given its bytes
pub fn planes(c: &Cfg, d: &[u8]) -> Vec<Vec<u8>> {
    let n = c.w * c.h;
    let b = BPP[c.ct];
    let mut p = vec![vec![0u8; n]; c.layout().len()];
    for k in 0..n {
        let s = &d[k * b..k * b + b];
        match c.ct {
            0 => p[0][k] = s[0],
            1..=4 => {
                let (y, u, v) = if c.ct <= 2 { rgb_to_ycbcr(s[0], s[1], s[2]) } else { rgb_to_ycbcr(s[2], s[1], s[0]) };
                p[0][k] = y;
                p[1][k] = u;
                p[2][k] = v;
            }
            7 => {
                let (y, u, v, w) = cmyk_to_ycck(s[0], s[1], s[2], s[3]);
                p[0][k] = y;
                p[1][k] = u;
                p[2][k] = v;
                p[3][k] = w;
            }
            _ => {
                for i in 0..b {
                    p[i][k] = if c.ct == CMYK { 255 - s[i] } else { s[i] };
                }
            }
        }
    }
    p
}

/// The blocks of a stream whose transform was recorded: for each component, the number of each block
/// (including the padding of interleaved scans)
pub fn numbers(c: &Cfg, j: &Jpeg) -> Vec<Vec<usize>> {
    let total = hooks::recorded();
    let mut seen = vec![false; total];
    let mut r = vec![];
    for (i, k) in j.comps.iter().enumerate() {
        let interleaved = j.scans.iter().any(|s| s.comps.len() > 1 && s.comps.contains(&i));
        let (cols, rows) = if interleaved { (k.grid_cols, k.grid_rows) } else { (k.cols, k.rows) };
        check((k.cols, k.rows) == comp_blocks(c, i), FRAME_SAMPLING);
        let mut v = vec![usize::MAX; k.grid_cols * k.grid_rows];
        for y in 0..rows {
            for x in 0..cols {
                let b = &k.blocks[y * k.grid_cols + x];
                let n = (b[0] as i32 + 1024) as usize;
                for m in 1..64 {
                    check(b[m] == 0, ACS_ZERO);
                }
                check(n < total && !seen[n], BLOCK_ONCE);
                seen[n] = true;
                v[y * k.grid_cols + x] = n;
            }
        }
        r.push(v);
    }
    r
}

/// All blocks hold the pixels they cover
pub fn check_pixels(c: &Cfg, j: &Jpeg, planes: &[Vec<u8>]) {
    let numbers = numbers(c, j);
    let (hm, vm) = c.max();
    let l = c.layout();
    for (i, k) in j.comps.iter().enumerate() {
        let (sx, sy) = (hm / l[i].0, vm / l[i].1);
        for y in 0..k.grid_rows {
            for x in 0..k.grid_cols {
                let n = numbers[i][y * k.grid_cols + x];
                if n == usize::MAX {
                    continue;
                }
                let s = hooks::samples(n);
                for m in 0..64 {
                    let px = ((x * 8 + m % 8) * sx).min(c.w - 1);
                    let py = ((y * 8 + m / 8) * sy).min(c.h - 1);
                    check(s[m] == planes[i][py * c.w + px] as i16 - 128, PIXEL);
                }
            }
        }
    }
}

/// An arbitrary picture.
/// params: avx2, colour type, sampling factor, mode, restart interval, width, height, extra bytes, first arbitrary
/// byte, number of arbitrary bytes (0: all)
pub fn pixels() {
    avx2(param(0) != 0);
    let c = Cfg::params(1);
    let n = c.bytes() + param(7) as usize;
    let mut d = vec![0; n];
    let mut s = 5u32;
    for p in d.iter_mut() {
        s = s.wrapping_mul(1103515245).wrapping_add(12345);
        *p = (s >> 16) as u8;
    }
    let from = (param(8) as usize).min(n);
    let to = if param(9) == 0 { n } else { (from + param(9) as usize).min(n) };
    fill(&mut d[from..to], 0, 255);
    hooks::record();
    let v = c.encode(&d);
    let j = decode(&v);
    check_frame(&c, &j);
    check_scans(&c, &j);
    let p = planes(&c, &d);
    check_pixels(&c, &j, &p);
    reach(1);
}

/// A picture in which each pixel has another value, for larger sizes; no arbitrary values except the restart interval
/// params: avx2, colour type, sampling factor, mode, restart interval (-2 any), width, height
pub fn sizes() {
    avx2(param(0) != 0);
    let mut c = Cfg::params(1);
    // n or more
    if c.w == 0 {
        c.w = 1 + choose(40);
    } else if c.w > 10000 {
        c.w = c.w - 10000 + choose(40);
    }
    if c.h == 0 {
        c.h = 1 + choose(20);
    } else if c.h > 10000 {
        c.h = c.h - 10000 + choose(20);
    }
    if c.ri == -2 {
        c.any_interval();
    }
    let mut d = vec![0; c.bytes()];
    let mut s = 5u32;
    for p in d.iter_mut() {
        s = s.wrapping_mul(1103515245).wrapping_add(12345);
        *p = (s >> 16) as u8;
    }
    hooks::record();
    let v = c.encode(&d);
    let j = decode(&v);
    check_frame(&c, &j);
    check_scans(&c, &j);
    let p = planes(&c, &d);
    check_pixels(&c, &j, &p);
}

/// The same picture in two modes.
/// params: avx2, colour type, sampling factor, mode (-1: choose), restart interval (-2 any), width, height, options
pub fn modes() {
    avx2(param(0) != 0);
    let mut c = Cfg::params(1);
    if c.mode < 0 {
        c.mode = MODES[choose(MODES.len())];
    }
    if c.ri == -2 {
        c.any_interval();
    }
    let opts = param(7);
    let mut d = vec![0; c.bytes()];
    let mut s = 5u32;
    for p in d.iter_mut() {
        s = s.wrapping_mul(1103515245).wrapping_add(12345);
        *p = if opts & 2 == 0 { (s >> 16) as u8 } else { 100 + (s >> 27) as u8 };
    }
    if opts & 8 != 0 {
        // areas of 16x16 pixels (or one row of them) with one colour, that of the first arbitrary
        let b = BPP[c.ct];
        let mut first = [3u8, 200, 90, 17];
        let at = c.w % b;
        first[at] = if opts & 16 == 0 { range_u8(100, 103) } else { any_u8() };
        for k in 0..c.w * c.h {
            let m = (k / c.w / 16) * 5 + (k % c.w) / 16;
            for i in 0..b {
                d[k * b + i] = if m == 0 { first[i] } else { (m * 53 + i * 101 + (m * m)) as u8 };
            }
        }
    }
    let plain = Cfg { mode: 0, ri: -1, ..c };
    if opts & 1 != 0 {
        // arbitrary pixels, compared before the transform
        fill(&mut d, 0, 255);
        hooks::record();
        let a = plain.encode(&d);
        let ja = decode(&a);
        let na = numbers(&plain, &ja);
        let total = hooks::recorded();
        let sa: Vec<[i16; 64]> = (0..total).map(hooks::samples).collect();
        hooks::record();
        let b = c.encode_with(&d, |e| other_settings(e, opts));
        let jb = decode(&b);
        let nb = numbers(&c, &jb);
        same_tables(&ja, &jb);
        for (i, k) in ja.comps.iter().enumerate() {
            for y in 0..k.rows {
                for x in 0..k.cols {
                    let p = y * k.grid_cols + x;
                    let t = hooks::samples(nb[i][p]);
                    for m in 0..64 {
                        check(sa[na[i][p]][m] == t[m], SAME_COEF);
                    }
                }
            }
        }
    } else {
        let quality = param(8);
        let set = |e: &mut Encoder<&mut Vec<u8>>| {
            if quality == 1 {
                e.set_quantization_tables(QuantizationTableType::Default, QuantizationTableType::CustomMsSsim)
            } else if quality == 2 {
                // a different step for each coefficient
                let (mut a, mut b) = ([0u16; 64], [0u16; 64]);
                for i in 0..64 {
                    a[i] = (i * 7 % 61 + 3) as u16;
                    b[i] = (i * 11 % 97 + 5) as u16;
                }
                e.set_quantization_tables(QuantizationTableType::Custom(Box::new(a)), QuantizationTableType::Custom(Box::new(b)))
            }
        };
        let a = plain.encode_with(&d, |e| set(e));
        let ja = decode(&a);
        let b = c.encode_with(&d, |e| {
            set(e);
            other_settings(e, opts)
        });
        let jb = decode(&b);
        same_tables(&ja, &jb);
        for (i, k) in ja.comps.iter().enumerate() {
            check(jb.comps[i].grid_cols == k.grid_cols, SAME_COEF);
            for y in 0..k.rows {
                for x in 0..k.cols {
                    let p = y * k.grid_cols + x;
                    check(k.blocks[p] == jb.comps[i].blocks[p], SAME_COEF);
                }
            }
        }
    }
}

fn other_settings(e: &mut Encoder<&mut Vec<u8>>, opts: i64) {
    if opts & 4 != 0 {
        e.set_density(Density::Inch { x: any_u16(), y: any_u16() });
        let mut b = [1; 9];
        fill(&mut b, 0, 255);
        assume(b[0] != b'A');
        let r = e.add_app_segment(range_u8(1, 15), &b);
        check(r.is_ok(), SEG_ACCEPTED);
        let r = e.add_icc_profile(&b);
        check(r.is_ok(), SEG_ACCEPTED);
    }
}

fn same_tables(a: &Jpeg, b: &Jpeg) {
    check(a.comps.len() == b.comps.len(), SAME_TABLES);
    for (x, y) in a.comps.iter().zip(&b.comps) {
        check(x.qt == y.qt, SAME_TABLES);
        check((x.h, x.v) == (y.h, y.v), SAME_TABLES);
    }
}

/// One picture in several formats.
/// params: avx2, sampling factor, mode, width, height, family (0 RGB, 1 YCCK, 2 grey, 3 CMYK), kind (0: arbitrary pixels before the
/// transform, 1: complete streams of a fixed picture with arbitrary alpha and trailing bytes), quality
pub fn formats() {
    avx2(param(0) != 0);
    let (w, h) = (param(3) as usize, param(4) as usize);
    let n = w * h;
    let symbolic = param(6) == 0;
    let c = Cfg { ct: 1, sf: param(1) as usize, mode: param(2), ri: -1, w, h };
    let mut px = vec![[0u8; 4]; n];
    let mut s = 77u32;
    for p in px.iter_mut() {
        for v in p.iter_mut() {
            s = s.wrapping_mul(1103515245).wrapping_add(12345);
            *v = (s >> 17) as u8;
        }
        if symbolic {
            fill(p, 0, 255);
        }
    }
    // the same picture as it has to be supplied in each format, followed by trailing bytes
    let supply = |ct: usize, extra: usize| {
        let mut d = Vec::with_capacity(n * 4 + extra);
        for p in &px {
            match ct {
                1 => d.extend_from_slice(&p[..3]),
                2 => d.extend_from_slice(&[p[0], p[1], p[2], any_u8()]),
                3 => d.extend_from_slice(&[p[2], p[1], p[0]]),
                4 => d.extend_from_slice(&[p[2], p[1], p[0], any_u8()]),
                5 => {
                    let (a, b, c) = rgb_to_ycbcr(p[0], p[1], p[2]);
                    d.extend_from_slice(&[a, b, c]);
                }
                0 => d.push(p[0]),
                6 | 7 => d.extend_from_slice(p),
                _ => {
                    let (a, b, c, k) = cmyk_to_ycck(p[0], p[1], p[2], p[3]);
                    d.extend_from_slice(&[a, b, c, k]);
                }
            }
        }
        for _ in 0..extra {
            d.push(any_u8());
        }
        d
    };
    let set = |e: &mut Encoder<&mut Vec<u8>>| {
        if param(7) == 1 {
            e.set_quantization_tables(QuantizationTableType::Default, QuantizationTableType::Default)
        }
    };
    let mut first: Option<(Vec<u8>, Vec<[i16; 64]>)> = None;
    let rows = 3 * n + w;
    let list: &[(usize, usize)] = match param(5) {
        0 => &[(5, 0), (1, 0), (2, 0), (3, 0), (4, 0), (1, 7), (2, 4), (3, 1), (4, 6), (5, 2), (5, rows), (1, rows)],
        1 => &[(8, 0), (7, 0), (7, 5), (8, 9), (8, rows)],
        2 => &[(0, 0), (0, 1), (0, 5), (0, rows), (0, 64)],
        _ => &[(6, 0), (6, 1), (6, 4), (6, rows)],
    };
    for &(ct, extra) in list {
        let d = supply(ct, extra);
        if symbolic {
            hooks::record();
        }
        let v = Cfg { ct, ..c }.encode_with(&d, set);
        let blocks: Vec<[i16; 64]> = if symbolic { (0..hooks::recorded()).map(hooks::samples).collect() } else { vec![] };
        match &first {
            None => first = Some((v, blocks)),
            Some((fv, fb)) => {
                check(fv.len() == v.len(), SAME_STREAM);
                for k in 0..v.len() {
                    check(fv[k] == v[k], SAME_STREAM);
                }
                check(fb.len() == blocks.len(), SAME_STREAM);
                for (x, y) in fb.iter().zip(&blocks) {
                    for m in 0..64 {
                        check(x[m] == y[m], PIXEL);
                    }
                }
            }
        }
    }
}

use core::cell::{Cell, RefCell};

/// An image that watches how it is used
struct Watched<'a> {
    ct: usize,
    w: usize,
    h: usize,
    planes: &'a [Vec<u8>],
    last: Cell<usize>,
    rows: &'a RefCell<Vec<usize>>,
}

impl<'a> ImageBuffer for Watched<'a> {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        jpeg_type(self.ct)
    }
    fn width(&self) -> u16 {
        self.w as u16
    }
    fn height(&self) -> u16 {
        self.h as u16
    }
    fn fill_buffers(&self, y: u16, buffers: &mut [Vec<u8>; 4]) {
        let y = y as usize;
        check(y < self.h, ROW_RANGE);
        let n = self.planes.len();
        // each used buffer has received the same number of bytes, the others none
        for i in 0..4 {
            check(buffers[i].len() == if i < n { buffers[0].len() } else { 0 }, ROW_BUFFERS);
        }
        let mut rows = self.rows.borrow_mut();
        let previous = rows.last().copied();
        match previous {
            None => check(y == 0, ROW_ORDER),
            Some(p) => check(y == p || y == p + 1, ROW_ORDER),
        }
        if buffers[0].len() > 0 {
            // the row added before is still there, followed by its last samples
            let at = self.last.get();
            let len = buffers[0].len();
            check(len >= at + self.w, ROW_BUFFERS);
            if let Some(p) = previous {
                for i in 0..n {
                    for x in 0..len - at {
                        let q = &self.planes[i];
                        check(buffers[i][at + x] == q[p * self.w + x.min(self.w - 1)], ROW_BUFFERS);
                    }
                }
            }
        }
        self.last.set(buffers[0].len());
        rows.push(y);
        for i in 0..n {
            for x in 0..self.w {
                buffers[i].push(self.planes[i][y * self.w + x]);
            }
        }
    }
}

/// Images of the user.
/// params: avx2, colour type, sampling factor, mode, restart interval, width, height (0: all up to 40), kind
/// (0: arbitrary pixels before the transform, 1: complete streams of a fixed picture)
pub fn custom() {
    avx2(param(0) != 0);
    let mut c = Cfg::params(1);
    if c.w == 0 {
        c.w = 1 + choose(40);
    }
    if c.h == 0 {
        c.h = 1 + choose(40);
    }
    let symbolic = param(7) == 0;
    let mut d = vec![0; c.bytes()];
    let mut s = 5u32;
    for p in d.iter_mut() {
        s = s.wrapping_mul(1103515245).wrapping_add(12345);
        *p = (s >> 16) as u8;
    }
    if symbolic {
        fill(&mut d, 0, 255);
        hooks::record();
    }
    let planes = planes(&c, &d);
    let rows = RefCell::new(vec![]);
    let mut v = Vec::with_capacity(4096);
    let mut e = Encoder::new(&mut v, 100);
    c.setup(&mut e);
    let r = e.encode_image(Watched { ct: c.ct, w: c.w, h: c.h, planes: &planes, last: Cell::new(0), rows: &rows });
    check(r.is_ok(), ENCODE_OK);
    let rows = rows.into_inner();
    check(rows.last() == Some(&(c.h - 1)), ROW_ORDER);
    if symbolic {
        let j = decode(&v);
        check_frame(&c, &j);
        check_pixels(&c, &j, &planes);
    } else {
        let w = c.encode(&d);
        check(v == w, SAME_STREAM);
    }
}

/// The same arbitrary picture with and without AVX2: samples of all blocks, and the stream.
/// params: colour type, sampling factor, mode, width, height, kind (0: arbitrary pixels before the transform,
/// 1: complete streams of a fixed picture), seed
pub fn simd() {
    let c = Cfg {
        ct: param(0) as usize,
        sf: param(1) as usize,
        mode: param(2),
        ri: -1,
        w: param(3) as usize,
        h: param(4) as usize,
    };
    let symbolic = param(5) == 0;
    let mut d = vec![0; c.bytes()];
    let mut s = 5 + param(6) as u32;
    for p in d.iter_mut() {
        s = s.wrapping_mul(1103515245).wrapping_add(12345);
        *p = (s >> 16) as u8;
    }
    if symbolic {
        fill(&mut d, 0, 255);
    }
    let run = |on: bool| {
        if symbolic {
            hooks::record();
        }
        avx2(on);
        let v = c.encode(&d);
        out(&v);
        let b: Vec<[i16; 64]> = if symbolic { (0..hooks::recorded()).map(hooks::samples).collect() } else { vec![] };
        for x in &b {
            out(&x.map(|v| v as u8));
        }
        (v, b)
    };
    let (va, ba) = run(true);
    let (vb, bb) = run(false);
    check(va.len() == vb.len(), SAME_STREAM);
    for k in 0..va.len() {
        check(va[k] == vb[k], SAME_STREAM);
    }
    check(ba.len() == bb.len(), SAME_STREAM);
    for (x, y) in ba.iter().zip(&bb) {
        for m in 0..64 {
            check(x[m] == y[m], PIXEL);
        }
    }
}

/// One row of a picture of any size, the rest of which is black. Arbitrary pixels at both ends of the row and in it.
/// params: avx2, colour type, width, height, row, number of arbitrary pixels at each end, position of more of them
pub fn far() {
    let fast = param(0) != 0;
    avx2(fast);
    let c = Cfg { ct: param(1) as usize, sf: 0, mode: 0, ri: -1, w: param(2) as usize, h: 1 };
    let (h, y) = (param(3) as usize, param(4) as usize);
    let b = BPP[c.ct];
    let n = c.w * b;
    let d = window(n * h, n * y, n);
    let row = &mut d[n * y..n * (y + 1)];
    let mut s = 5u32;
    for p in row.iter_mut() {
        s = s.wrapping_mul(1103515245).wrapping_add(12345);
        *p = (s >> 16) as u8;
    }
    let k = param(5) as usize;
    for at in [0, param(6) as usize, c.w - k] {
        fill(&mut row[at * b..(at + k) * b], 0, 255);
    }
    let p = planes(&c, row);
    let mut v = [Vec::with_capacity(c.w), Vec::with_capacity(c.w), Vec::with_capacity(c.w), Vec::with_capacity(c.w)];
    hooks::fill_row(COLORS[c.ct], fast, d, c.w as u16, h as u16, y as u16, &mut v);
    for (i, v) in v.iter().enumerate() {
        match p.get(i) {
            Some(p) => {
                check(v.len() == p.len(), PIXEL);
                for (x, y) in v.iter().zip(p) {
                    check(x == y, PIXEL);
                }
            }
            None => check(v.is_empty(), PIXEL),
        }
    }
    reach(1);
}

/// One block of a component of any size, the rest of which is black.
/// params: width and height of the component, position of the block, distance of its columns and rows
pub fn far_block() {
    let (w, h) = (param(0) as usize, param(1) as usize);
    let (x, y) = (param(2) as usize, param(3) as usize);
    let (sx, sy) = (param(4) as usize, param(5) as usize);
    let from = y * w + x;
    let d = window(w * h, from, 7 * sy * w + 7 * sx + 1);
    let mut want = [0; 64];
    fill(&mut want, 0, 255);
    for i in 0..64 {
        d[from + i / 8 * sy * w + i % 8 * sx] = want[i];
    }
    let b = hooks::block(d, x, y, sx, sy, w);
    for i in 0..64 {
        check(b[i] == want[i] as i16 - 128, PIXEL);
    }
    reach(1);
}

/// An image of the user that does not keep to the interface: safe code, so nothing worse than a panic may follow
struct Rogue {
    ct: usize,
    w: usize,
    h: usize,
    calls: Cell<usize>,
    kind: i64,
    k: usize,
}

impl Rogue {
    fn side(&self, v: usize, kind: i64) -> u16 {
        let n = self.calls.get();
        self.calls.set(n + 1);
        (if self.kind == kind && n >= self.k { v * 2 + 3 } else { v }) as u16
    }
}

impl ImageBuffer for Rogue {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        let n = self.calls.get();
        self.calls.set(n + 1);
        jpeg_type(if self.kind == 8 && n >= self.k { if self.ct == LUMA { CMYK } else { LUMA } } else { self.ct })
    }
    fn width(&self) -> u16 {
        self.side(self.w, 6)
    }
    fn height(&self) -> u16 {
        self.side(self.h, 7)
    }
    fn fill_buffers(&self, y: u16, buffers: &mut [Vec<u8>; 4]) {
        let (w, k) = (self.w, self.k);
        let y = y as usize;
        for i in 0..4 {
            let b = &mut buffers[i];
            // too few, too many, and different numbers for the components
            let n = match self.kind {
                0 => k,
                1 => (w + k) >> (i == k % 4) as usize,
                2 => if i == k % 4 { 0 } else { w },
                _ => w,
            };
            for x in 0..n {
                b.push((x * 7 + y * 3 + i) as u8);
            }
            // the buffer of the encoder goes away, or loses rows
            match self.kind {
                3 if y == k => *b = Vec::new(),
                4 if y == k => b.clear(),
                5 if y == k => {
                    b.truncate(k);
                    b.shrink_to_fit()
                }
                _ => {}
            }
        }
        if self.kind == 9 {
            buffers.swap(k % 4, (k + 1 + k / 4) % 4);
        }
    }
}

/// params: avx2, colour type, sampling factor, mode, restart interval, width, height, largest number of samples, calls
/// or rows in question, kind of misbehaviour or -1 for all
pub fn rogue() {
    avx2(param(0) != 0);
    let c = Cfg::params(1);
    let k = choose(param(7) as usize + 1);
    let kind = if param(8) < 0 { choose(10) as i64 } else { param(8) };
    expect_panic(true);
    let mut v = Vec::with_capacity(4096);
    let mut e = Encoder::new(&mut v, 90);
    c.setup(&mut e);
    let r = e.encode_image(Rogue { ct: c.ct, w: c.w, h: c.h, calls: Cell::new(0), kind, k });
    if r.is_ok() {
        out(&v);
    }
    reach(1);
}
