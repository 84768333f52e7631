//! C01, C02, C12, C13, C20: headers, segments, refused arguments, settings

use crate::common::*;
use crate::ids::*;
use crate::jpeg::*;
use crate::rt::*;
use crate::sink::*;
use jpeg_encoder::*;

/// Any density
pub fn any_density() -> Density {
    match choose(3) {
        0 => Density::None,
        1 => Density::Inch { x: any_u16(), y: any_u16() },
        _ => Density::Centimeter { x: any_u16(), y: any_u16() },
    }
}

/// The JFIF header carries the density
pub fn check_density(d: &[u8], j: &Jpeg, density: Density) {
    let s = &d[j.segs[0].start..];
    let (unit, x, y) = match density {
        Density::None => (0, 1, 1),
        Density::Inch { x, y } => (1, x, y),
        Density::Centimeter { x, y } => (2, x, y),
    };
    check(s[7] == unit, DENSITY);
    check((s[8] as u16) << 8 | s[9] as u16 == x, DENSITY);
    check((s[10] as u16) << 8 | s[11] as u16 == y, DENSITY);
}

fn is_adobe(d: &[u8], s: &Seg) -> bool {
    s.marker == 0xEE && s.len >= 5 && &d[s.start..s.start + 5] == b"Adobe"
}

/// Adobe segments are those that decoders expect. `added`: number of segments of the user
pub fn check_adobe(d: &[u8], j: &Jpeg, ct: usize) {
    let mut found = 0;
    let mut transform = 255;
    for s in &j.segs {
        if is_adobe(d, s) {
            found += 1;
            check(s.len == 12, ADOBE);
            transform = d[s.start + 11];
        }
    }
    match ct {
        CMYK => check(found == 1 && transform == 0, ADOBE),
        CMYK_AS_YCCK | YCCK => check(found == 1 && transform == 2, ADOBE),
        _ => check(found == 0, ADOBE),
    }
}

/// Segments between the headers of the format and the first table or frame
pub fn user_segments(d: &[u8], j: &Jpeg) -> Vec<(u8, usize, usize)> {
    let mut r = vec![];
    for s in &j.segs[1..] {
        if (0xE0..=0xEF).contains(&s.marker) && !is_adobe(d, s) {
            r.push((s.marker & 15, s.start, s.len));
        }
    }
    r
}

/// Everything up to the first scan, for any size.
/// params: avx2, colour type, sampling factor (-1: all), how the image is given
pub fn headers() {
    avx2(param(0) != 0);
    let ct = param(1) as usize;
    let sf = if param(2) < 0 { choose(16) } else { param(2) as usize };
    // larger factors are coded one component after the other, which needs the whole picture first
    assume(HV[sf].0 < 4 && HV[sf].1 < 4);
    let (w, h) = (range_u16(1, 65535), range_u16(1, 65535));
    let ri = if choose(2) == 0 { 0 } else { range_u16(1, 65535) };
    let density = any_density();
    let c = Cfg { ct, sf, mode: 0, ri: ri as i64, w: w as usize, h: h as usize };
    // the headers of a small picture have the same length
    let small = Cfg { w: 1, h: 1, ri: (ri > 0) as i64, ..c };
    let v = small.encode(&vec![0; BPP[ct]]);
    let length = match Jpeg::headers(&v) {
        Ok(j) => j.header_end,
        Err(e) => return check(false, e),
    };
    let mut s = Sink::new();
    s.accept = length;
    let mut e = Encoder::new(&mut s, 100);
    e.set_sampling_factor(FACTORS[sf]);
    e.set_density(density);
    e.set_quantization_tables(ones(), ones());
    e.set_restart_interval(ri);
    let r = if param(3) == 0 {
        e.encode(unreadable(65535 * 65535 * BPP[ct]), w, h, COLORS[ct])
    } else {
        e.encode_image(Untouched { ct, w, h })
    };
    check(r.is_err(), FAIL_REPORTED);
    out(&s.data);
    s.data.extend_from_slice(&[0xFF, 0xDA]);
    let j = match Jpeg::headers(&s.data) {
        Ok(j) => j,
        Err(e) => return check(false, e),
    };
    check_header(&c, &s.data, &j, density);
    reach(1);
}

fn check_header(c: &Cfg, d: &[u8], j: &Jpeg, density: Density) {
    check_frame(c, j);
    check_density(d, j, density);
    check_adobe(d, j, c.ct);
    if c.ri > 0 {
        check(j.restart_interval == Some(c.ri as usize), DRI);
    } else {
        check(j.restart_interval.is_none(), DRI);
    }
    for k in &j.comps {
        check(j.qts[k.tq as usize].is_some(), E_TABLE_UNDEFINED);
    }
}

/// An image of which only the size is known
struct Untouched {
    ct: usize,
    w: u16,
    h: u16,
}

pub fn jpeg_type(ct: usize) -> JpegColorType {
    match ct {
        LUMA => JpegColorType::Luma,
        CMYK => JpegColorType::Cmyk,
        CMYK_AS_YCCK | YCCK => JpegColorType::Ycck,
        _ => JpegColorType::Ycbcr,
    }
}

impl ImageBuffer for Untouched {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        jpeg_type(self.ct)
    }
    fn width(&self) -> u16 {
        self.w
    }
    fn height(&self) -> u16 {
        self.h
    }
    fn fill_buffers(&self, _y: u16, _buffers: &mut [Vec<u8>; 4]) {
        check(false, FAIL_STOP);
    }
}

pub const MODES: [i64; 10] = [0, 1, 200, 2, 3, 34, 64, 102, 105, 164];

/// All settings at once with a small picture.
/// params: avx2, colour type, width, height, sampling factor (-1: all), mode (-1: all of MODES, else the mode),
/// restart interval (-2 any, -1 none), options
pub fn config() {
    avx2(param(0) != 0);
    let ct = param(1) as usize;
    let sf = if param(4) < 0 { choose(16) } else { param(4) as usize };
    let mode = if param(5) < 0 { MODES[choose(MODES.len())] } else { param(5) };
    let (w, h) = (param(2) as usize, param(3) as usize);
    let opts = param(7);
    let density = if opts & 1 != 0 { any_density() } else { Density::None };
    let mut c = Cfg { ct, sf, mode, ri: param(6), w, h };
    if c.ri == -2 {
        c.any_interval();
    }
    let mut d = vec![0; c.bytes()];
    let mut s = 1u32;
    for p in d.iter_mut() {
        s = s.wrapping_mul(1103515245).wrapping_add(12345);
        *p = (s >> 20) as u8;
    }
    let nr = if opts & 2 != 0 { range_u8(1, 15) } else { 1 };
    let mut data = [0; 5];
    fill(&mut data, 0, 255);
    if opts & 2 != 0 {
        // not an Adobe segment
        assume(data[0] != b'A');
    }
    let v = c.encode_with(&d, |e| {
        e.set_density(density);
        if opts & 2 != 0 {
            let r = e.add_app_segment(nr, &data);
            check(r.is_ok(), SEG_ACCEPTED);
        }
        if opts & 4 != 0 {
            e.set_quantization_tables(QuantizationTableType::Default, QuantizationTableType::Default);
        }
    });
    let j = if opts & 8 != 0 {
        crate::entropy::check_tables(&c, crate::entropy::decode_counting(&v));
        return;
    } else {
        decode(&v)
    };
    check_header(&c, &v, &j, density);
    check_scans(&c, &j);
    let u = user_segments(&v, &j);
    if opts & 2 != 0 {
        check(u.len() == 1, SEG_COUNT);
        check(u[0].0 == nr, SEG_NUMBER);
        check(u[0].2 == 5, SEG_DATA);
        for i in 0..5 {
            check(v[u[0].1 + i] == data[i], SEG_DATA);
        }
    } else {
        check(u.len() == 0, SEG_COUNT);
    }
}

/// Number and bands of the scans
pub fn check_scans(c: &Cfg, j: &Jpeg) {
    if !is_progressive(c.mode) {
        return;
    }
    let n = if c.mode == 200 { 4 } else { c.mode % 100 } as usize;
    for i in 0..j.comps.len() {
        let mut own = 0;
        let mut next = 0;
        for s in &j.scans {
            if s.comps.contains(&i) {
                check(s.ss == next, BANDS);
                if own == 0 {
                    check(s.se == 0, BANDS);
                }
                next = s.se + 1;
                own += 1;
            }
        }
        check(next == 64, BANDS);
        check(own == n, SCAN_COUNT);
    }
}

/// Segments in order. params: avx2, colour type, mode, kind
pub fn segments() {
    avx2(param(0) != 0);
    let c = Cfg { ct: param(1) as usize, sf: 0, mode: param(2), ri: -1, w: 2, h: 2 };
    let d = vec![77; c.bytes()];
    let mut segs: Vec<(u8, Vec<u8>)> = vec![];
    match param(3) {
        // any numbers, any data
        0 => {
            for len in [3usize, 0, 17] {
                let nr = range_u8(1, 15);
                let mut data = vec![0; len];
                fill(&mut data, 0, 255);
                if len > 0 {
                    assume(data[0] != b'A');
                }
                segs.push((nr, data));
            }
        }
        // longest and nearly longest segments
        1 => {
            for len in [65533usize, 65532, 65519] {
                let nr = range_u8(1, 15);
                let mut data = vec![0x5a; len];
                fill(&mut data[..3], 0, 64);
                let n = data.len();
                fill(&mut data[n - 3..], 0, 255);
                segs.push((nr, data));
            }
        }
        // all lengths in a range, chosen
        2 => {
            let len = choose(600);
            let mut data = vec![3; len];
            if len > 0 {
                data[len - 1] = any_u8();
                data[0] = 7;
            }
            segs.push((range_u8(1, 15), data));
        }
        // any two of three segments may be equal
        4 => {
            let any = range_u8(1, 15);
            for nr in [any, any, 3, any, 15] {
                let mut data = vec![0; 4];
                fill(&mut data, 0, 255);
                assume(data[0] != b'A');
                segs.push((nr, data));
            }
        }
        // equal segments
        5 => {
            for i in 0..6u8 {
                let v = any_u8();
                for _ in 0..1 + i % 3 {
                    segs.push((i + 1, vec![v; (i as usize * 7) % 16]));
                }
            }
            for s in segs.iter() {
                if s.1.len() > 0 {
                    assume(s.1[0] != b'A');
                }
            }
        }
        // more than a byte can count
        6 => {
            for i in 0..300usize {
                let mut data = vec![i as u8; i % 3];
                if i % 50 == 49 {
                    fill(&mut data, 0, 64);
                }
                segs.push(((i * 7 % 15) as u8 + 1, data));
            }
        }
        // many segments
        _ => {
            for i in 0..40u8 {
                let mut data = vec![i; i as usize];
                if i > 1 {
                    let n = data.len();
                    data[n - 1] = any_u8();
                }
                segs.push((i % 15 + 1, data));
            }
        }
    }
    let mode = c.mode;
    let v = c.encode_with(&d, |e| {
        for (nr, data) in &segs {
            let r = e.add_app_segment(*nr, data);
            check(r.is_ok(), SEG_ACCEPTED);
        }
        let _ = mode;
    });
    let j = decode(&v);
    check_adobe(&v, &j, c.ct);
    let u = user_segments(&v, &j);
    check(u.len() == segs.len(), SEG_COUNT);
    for (i, (nr, data)) in segs.iter().enumerate() {
        check(u[i].0 == *nr, SEG_NUMBER);
        check(u[i].2 == data.len(), SEG_DATA);
        check_equal(&v[u[i].1..u[i].1 + u[i].2], data, SEG_DATA);
    }
    // the JFIF header, then Adobe, then the segments
    let adobe = (c.ct >= CMYK) as usize;
    for i in 0..segs.len() {
        check(j.segs[1 + adobe + i].start == u[i].1, SEG_ORDER);
    }
}

/// long slices byte by byte only where symbolic values may be
fn check_equal(a: &[u8], b: &[u8], id: u32) {
    check(a.len() == b.len(), id);
    let n = a.len();
    if n <= 128 {
        for k in 0..n {
            check(a[k] == b[k], id);
        }
    } else {
        check_equal(&a[..64], &b[..64], id);
        check_equal(&a[n - 64..], &b[n - 64..], id);
        check(a[64..n - 64] == b[64..n - 64], id);
    }
}

pub const ICC: usize = 65519;

/// ICC profiles. params: avx2, colour type, chunks, length relative to chunks * 65519
pub fn icc() {
    avx2(param(0) != 0);
    let c = Cfg { ct: param(1) as usize, sf: 0, mode: 0, ri: -1, w: 1, h: 1 };
    let d = vec![77; c.bytes()];
    let len = (param(2) * ICC as i64 + param(3)) as usize;
    let mut p = vec![0xA5u8; len];
    // bytes around the borders of the chunks are arbitrary
    let mut at = vec![];
    let mut k = 0;
    while k < len {
        for a in [k, k + 1, k + ICC - 1] {
            if a < len {
                at.push(a);
            }
        }
        k += ICC * if len > 10 * ICC { 32 } else { 1 };
    }
    if len > 0 {
        at.push(len - 1);
    }
    let mut mixed = 0u32;
    for b in p.iter_mut().step_by(997) {
        mixed = mixed.wrapping_mul(1103515245).wrapping_add(12345);
        *b = (mixed >> 16) as u8;
    }
    for a in at {
        p[a] = any_u8();
    }
    let v = c.encode_with(&d, |e| {
        let r = e.add_icc_profile(&p);
        check(r.is_ok(), ICC_ACCEPTED);
    });
    let j = match Jpeg::headers(&v) {
        Ok(j) => j,
        Err(e) => return check(false, e),
    };
    let u = user_segments(&v, &j);
    let n = (len + ICC - 1) / ICC;
    check(u.len() == n, ICC_CHUNK);
    let mut done = 0;
    for (i, s) in u.iter().enumerate() {
        check(s.0 == 2, SEG_NUMBER);
        check(s.2 > 14, ICC_CHUNK);
        let b = &v[s.1..s.1 + s.2];
        check(&b[..12] == b"ICC_PROFILE\0", ICC_CHUNK);
        check(b[12] as usize == i + 1 && b[13] as usize == n, ICC_CHUNK);
        let m = b.len() - 14;
        check(done + m <= len, ICC_DATA);
        let q = &p[done..done + m];
        check_equal(&b[14..], q, ICC_DATA);
        done += m;
    }
    check(done == len, ICC_DATA);
}

/// Refused arguments. params: avx2, colour type, kind
pub fn refused() {
    avx2(param(0) != 0);
    let ct = param(1) as usize;
    let mode = param(3);
    match param(2) {
        // any size, any length of data
        0 => {
            let (w, h) = (any_u16(), any_u16());
            let len = range_usize(0, 1 << 36);
            let mut s = Sink::new();
            s.accept = 0;
            let mut e = Encoder::new(&mut s, 75);
            set_mode(&mut e, mode);
            let r = e.encode(unreadable(len), w, h, COLORS[ct]);
            let required = w as usize * h as usize * BPP[ct];
            if len < required {
                match r {
                    Err(EncodingError::BadImageData { length, required: q }) => {
                        check(length == len && q == required, BAD_DATA)
                    }
                    _ => check(false, BAD_DATA),
                }
                check(s.calls == 0, NOTHING_WRITTEN);
                reach(1);
            } else if w == 0 || h == 0 {
                match r {
                    Err(EncodingError::ZeroImageDimensions { width, height }) => {
                        check(width == w && height == h, ZERO_DIM)
                    }
                    _ => check(false, ZERO_DIM),
                }
                check(s.calls == 0, NOTHING_WRITTEN);
                reach(2);
            } else {
                check(s.calls > 0, WRITER_REACHED);
                match r {
                    Err(e) => check(is_ours(&e, &s), FAIL_SAME),
                    Ok(_) => check(false, FAIL_REPORTED),
                }
                reach(3);
            }
        }
        // images of the user
        1 => {
            let (w, h) = (any_u16(), any_u16());
            let mut s = Sink::new();
            s.accept = 0;
            let mut e = Encoder::new(&mut s, 75);
            set_mode(&mut e, mode);
            let r = e.encode_image(Untouched { ct, w, h });
            if w == 0 || h == 0 {
                match r {
                    Err(EncodingError::ZeroImageDimensions { width, height }) => {
                        check(width == w && height == h, ZERO_DIM)
                    }
                    _ => check(false, ZERO_DIM),
                }
                check(s.calls == 0, NOTHING_WRITTEN);
                reach(1);
            } else {
                check(s.calls > 0, WRITER_REACHED);
                match r {
                    Err(e) => check(is_ours(&e, &s), FAIL_SAME),
                    Ok(_) => check(false, FAIL_REPORTED),
                }
                reach(2);
            }
        }
        // segment numbers and lengths
        2 => {
            let nr = any_u8();
            let len = range_usize(0, 1 << 36);
            assume(nr == 0 || nr > 15 || len > 65533);
            let c = Cfg { ct, sf: 0, mode, ri: -1, w: 1, h: 1 };
            let d = vec![77; c.bytes()];
            let reference = c.encode(&d);
            let v = c.encode_with(&d, |e| {
                let r = e.add_app_segment(nr, unreadable(len));
                let bad_nr = nr == 0 || nr > 15;
                match r {
                    Err(EncodingError::InvalidAppSegment(n)) => check(bad_nr && n == nr, SEG_REFUSED),
                    Err(EncodingError::AppSegmentTooLarge(n)) => check(len > 65533 && n == len, SEG_REFUSED),
                    _ => check(false, SEG_REFUSED),
                }
            });
            check(v == reference, NO_STATE);
        }
        // legal segments of the longest lengths
        3 => {
            let nr = range_u8(1, 15);
            let data = vec![1; 65530 + choose(4)];
            let mut v = Vec::with_capacity(66000);
            let mut e = Encoder::new(&mut v, 75);
            let r = e.add_app_segment(nr, &data);
            check(r.is_ok(), SEG_ACCEPTED);
            let r = e.add_app_segment(nr, &[]);
            check(r.is_ok(), SEG_ACCEPTED);
        }
        // ICC profiles that are too long
        4 => {
            let len = range_usize(255 * ICC + 1, 1 << 36);
            let c = Cfg { ct, sf: 0, mode, ri: -1, w: 1, h: 1 };
            let d = vec![77; c.bytes()];
            let reference = c.encode(&d);
            let v = c.encode_with(&d, |e| {
                match e.add_icc_profile(unreadable(len)) {
                    Err(EncodingError::IccTooLarge(n)) => check(n == len, ICC_REFUSED),
                    _ => check(false, ICC_REFUSED),
                };
            });
            check(v == reference, NO_STATE);
        }
        // the same with readable data, then a legal profile
        6 => {
            let len = 255 * ICC + 1 + choose(3) * (ICC - 1);
            let c = Cfg { ct, sf: 0, mode, ri: -1, w: 1, h: 1 };
            let d = vec![77; c.bytes()];
            let small = [1, 2, any_u8()];
            for legal in [false, true] {
                let add = |e: &mut Encoder<&mut Vec<u8>>| {
                    if legal {
                        let r = e.add_icc_profile(&small);
                        check(r.is_ok(), ICC_ACCEPTED);
                    }
                };
                let reference = c.encode_with(&d, add);
                let v = c.encode_with(&d, |e| {
                    let p = vec![0u8; len];
                    match e.add_icc_profile(&p) {
                        Err(EncodingError::IccTooLarge(n)) => check(n == len, ICC_REFUSED),
                        _ => check(false, ICC_REFUSED),
                    };
                    add(e);
                });
                check(v.len() == reference.len(), NO_STATE);
                for k in 0..v.len() {
                    check(v[k] == reference[k], NO_STATE);
                }
            }
        }
        // the same for segments, between legal ones
        7 => {
            let c = Cfg { ct, sf: 0, mode, ri: -1, w: 1, h: 1 };
            let d = vec![77; c.bytes()];
            let nr = range_u8(1, 15);
            let bad = any_u8();
            assume(bad == 0 || bad > 15);
            let mut data = [5u8; 9];
            fill(&mut data[1..4], 0, 255);
            let long = vec![9u8; 65534 + choose(2) * 70000];
            let reference = c.encode_with(&d, |e| {
                for _ in 0..2 {
                    let r = e.add_app_segment(nr, &data);
                    check(r.is_ok(), SEG_ACCEPTED);
                }
            });
            let v = c.encode_with(&d, |e| {
                for i in 0..2 {
                    let r = e.add_app_segment(bad, &data);
                    check(matches!(r, Err(EncodingError::InvalidAppSegment(n)) if n == bad), SEG_REFUSED);
                    let r = e.add_app_segment(nr, &data);
                    check(r.is_ok(), SEG_ACCEPTED);
                    let r = e.add_app_segment(if i == 0 { nr } else { 7 }, &long);
                    check(matches!(r, Err(EncodingError::AppSegmentTooLarge(n)) if n == long.len()), SEG_REFUSED);
                }
            });
            check(v.len() == reference.len(), NO_STATE);
            for k in 0..v.len() {
                check(v[k] == reference[k], NO_STATE);
            }
        }
        // exactly enough data, up to three bytes too few
        _ => {
            let (w, h) = (1 + choose(20), 1 + choose(10));
            let c = Cfg { ct, sf: 3, mode, ri: -1, w, h };
            let missing = choose(4);
            let n = c.bytes();
            assume(missing <= n);
            let d = vec![99; n - missing];
            let mut s = Sink::new();
            let mut e = Encoder::new(&mut s, 75);
            c.setup(&mut e);
            let r = e.encode(&d, w as u16, h as u16, COLORS[ct]);
            if missing == 0 {
                check(r.is_ok(), ENCODE_OK);
            } else {
                match r {
                    Err(EncodingError::BadImageData { length, required }) => {
                        check(length == n - missing && required == n, BAD_DATA)
                    }
                    _ => check(false, BAD_DATA),
                }
                check(s.calls == 0, NOTHING_WRITTEN);
            }
        }
    }
}

/// Settings. params: avx2, kind
pub fn settings() {
    avx2(param(0) != 0);
    let quality = any_u8();
    let mut v = vec![];
    let mut e = Encoder::new(&mut v, quality);
    match param(1) {
        0 => {
            // defaults
            let d = e.sampling_factor();
            if quality < 90 {
                check(d == SamplingFactor::F_2_2, DEFAULT);
            } else {
                check(d == SamplingFactor::F_1_1, DEFAULT);
            }
            check(e.density() == Density::None, DEFAULT);
            check(e.progressive_scans().is_none(), DEFAULT);
            check(e.restart_interval().is_none(), DEFAULT);
            check(!e.optimized_huffman_tables(), DEFAULT);
            let t = e.quantization_tables();
            check(matches!(t[0], QuantizationTableType::Default), DEFAULT);
            check(matches!(t[1], QuantizationTableType::Default), DEFAULT);
        }
        1 => {
            let d = any_density();
            e.set_density(d);
            check(e.density() == d, GETTER);
            let f = FACTORS[choose(16)];
            e.set_sampling_factor(f);
            check(e.sampling_factor() == f, GETTER);
            let ri = any_u16();
            e.set_restart_interval(ri);
            check(e.restart_interval() == if ri == 0 { None } else { Some(ri) }, GETTER);
            let o = any_bool();
            e.set_optimized_huffman_tables(o);
            check(e.optimized_huffman_tables() == o, GETTER);
            e.set_optimized_huffman_tables(!o);
            check(e.optimized_huffman_tables() == !o, GETTER);
            // settings do not affect each other
            check(e.density() == d, GETTER);
            check(e.sampling_factor() == f, GETTER);
            check(e.restart_interval() == if ri == 0 { None } else { Some(ri) }, GETTER);
            check(e.progressive_scans().is_none(), GETTER);
            e.set_restart_interval(0);
            check(e.restart_interval().is_none(), GETTER);
        }
        2 => {
            let n = any_u8();
            e.set_progressive(true);
            check(e.progressive_scans() == Some(4), DEFAULT);
            let legal = n >= 2 && n <= 64;
            expect_panic(!legal);
            e.set_progressive_scans(n);
            expect_panic(false);
            check(legal, PANIC);
            check(e.progressive_scans() == Some(n), GETTER);
            e.set_progressive(false);
            check(e.progressive_scans().is_none(), GETTER);
            e.set_progressive_scans(n);
            check(e.progressive_scans() == Some(n), GETTER);
            e.set_progressive(true);
            check(e.progressive_scans() == Some(4), DEFAULT);
        }
        3 => {
            let (x, y) = (any_u8(), any_u8());
            let legal = (x == 1 || x == 2 || x == 4) && (y == 1 || y == 2 || y == 4) && !(x == 4 && y == 4);
            match SamplingFactor::from_factors(x, y) {
                None => check(!legal, FACTOR),
                Some(f) => {
                    check(legal, FACTOR);
                    for i in 0..8 {
                        if f == FACTORS[i] {
                            check(HV[i] == (x as usize, y as usize), FACTOR);
                        }
                    }
                    let mut own = false;
                    for i in 0..8 {
                        own |= f == FACTORS[i];
                    }
                    check(own, FACTOR);
                }
            }
        }
        // tables are kept as they are
        _ => {
            let mut t = [0u16; 64];
            for v in t.iter_mut() {
                *v = any_u16();
            }
            e.set_quantization_tables(QuantizationTableType::Custom(Box::new(t)), QuantizationTableType::ImageMagick);
            let k = e.quantization_tables();
            match &k[0] {
                QuantizationTableType::Custom(c) => {
                    for i in 0..64 {
                        check(c[i] == t[i], GETTER);
                    }
                }
                _ => check(false, GETTER),
            }
            check(matches!(k[1], QuantizationTableType::ImageMagick), GETTER);
        }
    }
}

/// A factor and its alias give the same stream. params: avx2, colour type, mode
pub fn alias() {
    avx2(param(0) != 0);
    let i = choose(8);
    let mut c = Cfg { ct: param(1) as usize, sf: i, mode: param(2), ri: -1, w: 17, h: 9 };
    c.any_interval();
    let mut d = vec![0; c.bytes()];
    for (k, p) in d.iter_mut().enumerate() {
        *p = (k * 89 >> 3) as u8;
    }
    let a = c.encode(&d);
    let b = Cfg { sf: i + 8, ..c }.encode(&d);
    check(a == b, SAME_HEADER);
    let j = decode(&b);
    check_frame(&c, &j);
}

/// Any two of the predefined and custom tables together: the stream is complete and each component has its own.
/// params: avx2, colour type, mode, width, height, quality
pub fn table_pairs() {
    use crate::math::TABLES;
    avx2(param(0) != 0);
    let ct = param(1) as usize;
    let c = Cfg { ct, sf: 0, mode: param(2), ri: -1, w: param(3) as usize, h: param(4) as usize };
    let n = TABLES.len();
    let (a, b) = (choose(n + 2), choose(n + 2));
    let any = range_u16(1, 255);
    let fixed = 19;
    let table = |i: usize| match i {
        _ if i < n => TABLES[i].clone(),
        _ if i == n => QuantizationTableType::Custom(Box::new([any; 64])),
        _ => QuantizationTableType::Custom(Box::new([fixed; 64])),
    };
    // what the components have as 128, which leaves nothing to be quantized
    let one: &[u8] = match ct {
        CMYK => &[127; 4],
        CMYK_AS_YCCK => &[128, 128, 128, 127],
        _ => &[128; 4][..BPP[ct]],
    };
    let d: Vec<u8> = (0..c.bytes()).map(|k| one[k % BPP[ct]]).collect();
    let q = param(5) as u8;
    let mut v = Vec::with_capacity(2048);
    let mut e = Encoder::new(&mut v, q);
    c.setup(&mut e);
    e.set_quantization_tables(table(a), table(b));
    let r = e.encode(&d, c.w as u16, c.h as u16, COLORS[ct]);
    check(r.is_ok(), ENCODE_OK);
    let j = decode(&v);
    check_frame(&c, &j);
    let q = if q < 1 { 1 } else if q > 100 { 100 } else { q } as u32;
    let scale = if q < 50 { 5000 / q } else { 200 - 2 * q };
    for (i, k) in j.comps.iter().enumerate() {
        let second = match ct {
            LUMA => false,
            CMYK => i < 3,
            _ => i == 1 || i == 2,
        };
        let t = if second { b } else { a };
        for m in 0..64 {
            let e = if t == n {
                any as u32
            } else if t > n {
                fixed as u32
            } else {
                let base = if second { crate::tables::CHROMA_TABLES } else { crate::tables::LUMA_TABLES }[t];
                let e = (base[ZZ[m] as usize] as u32 * scale + 50) / 100;
                if e < 1 { 1 } else if e > 255 { 255 } else { e }
            };
            check(k.qt[m] as u32 == e, QUANT_TABLE);
        }
    }
}

/// Segments before and behind a profile. params: avx2, colour type, mode, length of the profile
pub fn mixed_segments() {
    avx2(param(0) != 0);
    let c = Cfg { ct: param(1) as usize, sf: 0, mode: param(2), ri: -1, w: 1, h: 1 };
    let len = param(3) as usize;
    let d = vec![77; c.bytes()];
    let mut p = vec![0x33u8; len];
    for a in [0, 1, ICC - 1, ICC, len.max(1) - 1] {
        if a < len {
            p[a] = any_u8();
        }
    }
    let mut segs: Vec<(u8, Vec<u8>)> = vec![];
    for len in [2, 20, 0, 9] {
        let mut data = vec![0; len];
        fill(&mut data, 0, 255);
        if len >= 5 {
            assume(data[0] != b'A');
        }
        segs.push((range_u8(1, 15), data));
    }
    // before, between or behind
    let at = choose(5);
    let v = c.encode_with(&d, |e| {
        for i in 0..5 {
            if i == at {
                let r = e.add_icc_profile(&p);
                check(r.is_ok(), ICC_ACCEPTED);
            }
            if i < 4 {
                let r = e.add_app_segment(segs[i].0, &segs[i].1);
                check(r.is_ok(), SEG_ACCEPTED);
            }
        }
    });
    let j = decode(&v);
    check_adobe(&v, &j, c.ct);
    let u = user_segments(&v, &j);
    let n = (len + ICC - 1) / ICC;
    check(u.len() == 4 + n, SEG_COUNT);
    let mut done = 0;
    for (k, s) in u.iter().enumerate() {
        let b = &v[s.1..s.1 + s.2];
        if k >= at && k < at + n {
            let i = k - at;
            check(s.0 == 2, SEG_NUMBER);
            check(b.len() > 14, ICC_CHUNK);
            check(&b[..12] == b"ICC_PROFILE\0", ICC_CHUNK);
            check(b[12] as usize == i + 1 && b[13] as usize == n, ICC_CHUNK);
            check(done + b.len() - 14 <= len, ICC_DATA);
            check_equal(&b[14..], &p[done..done + b.len() - 14], ICC_DATA);
            done += b.len() - 14;
        } else {
            let (nr, data) = &segs[if k < at { k } else { k - n }];
            check(s.0 == *nr, SEG_NUMBER);
            check_equal(b, data, SEG_DATA);
        }
    }
    check(done == len, ICC_DATA);
}

/// What the getters of an encoder should return
#[derive(Clone, Copy)]
struct Model {
    density: Density,
    factor: SamplingFactor,
    scans: Option<u8>,
    interval: u16,
    optimized: bool,
    /// values of a custom table, or the default tables
    table: Option<u16>,
}

impl Model {
    fn new(quality: u8) -> Model {
        Model {
            density: Density::None,
            factor: if quality < 90 { SamplingFactor::F_2_2 } else { SamplingFactor::F_1_1 },
            scans: None,
            interval: 0,
            optimized: false,
            table: None,
        }
    }

    /// One of the setters with any argument
    fn step<W: JfifWrite>(&mut self, e: &mut Encoder<W>, which: usize) {
        match which {
            0 => {
                self.density = Density::Centimeter { x: any_u16(), y: any_u16() };
                e.set_density(self.density);
            }
            1 => {
                self.factor = SamplingFactor::R_4_1_0;
                e.set_sampling_factor(self.factor);
            }
            2 => {
                self.scans = Some(range_u8(2, 64));
                e.set_progressive_scans(self.scans.unwrap());
            }
            3 => {
                self.interval = any_u16();
                e.set_restart_interval(self.interval);
            }
            4 => {
                self.optimized = any_bool();
                e.set_optimized_huffman_tables(self.optimized);
            }
            5 => {
                let t = any_u16();
                self.table = Some(t);
                let luma = QuantizationTableType::Custom(Box::new([t; 64]));
                e.set_quantization_tables(luma, QuantizationTableType::CustomMsSsim);
            }
            6 => {
                self.scans = Some(4);
                e.set_progressive(true);
            }
            7 => {
                self.scans = None;
                e.set_progressive(false);
            }
            8 => {
                let _ = e.add_app_segment(any_u8(), &[1, 2, 3]);
            }
            _ => {
                let _ = e.add_icc_profile(&[any_u8(); 4]);
            }
        }
    }

    fn check<W: JfifWrite>(&self, e: &Encoder<W>) {
        check(e.density() == self.density, GETTER);
        check(e.sampling_factor() == self.factor, GETTER);
        check(e.progressive_scans() == self.scans, GETTER);
        match e.restart_interval() {
            None => check(self.interval == 0, GETTER),
            Some(i) => check(i == self.interval && i != 0, GETTER),
        }
        check(e.optimized_huffman_tables() == self.optimized, GETTER);
        let t = e.quantization_tables();
        match (self.table, &t[0]) {
            (None, QuantizationTableType::Default) => check(matches!(t[1], QuantizationTableType::Default), GETTER),
            (Some(v), QuantizationTableType::Custom(c)) => {
                for i in [0, 1, 31, 63] {
                    check(c[i] == v, GETTER);
                }
                check(matches!(t[1], QuantizationTableType::CustomMsSsim), GETTER);
            }
            _ => check(false, GETTER),
        }
    }
}

/// Any sequence of setters with any arguments: all getters return what was set last.
/// params: avx2, number of calls, first call (-1: any)
pub fn sequence() {
    avx2(param(0) != 0);
    let quality = any_u8();
    let mut v = vec![];
    let mut e = Encoder::new(&mut v, quality);
    let mut m = Model::new(quality);
    m.check(&e);
    for i in 0..param(1) {
        let which = if i == 0 && param(2) >= 0 { param(2) as usize } else { choose(10) };
        m.step(&mut e, which);
        m.check(&e);
    }
}

/// The setters in any order: the stream is what they say.
/// params: avx2, colour type, width, height, sampling factor, mode
pub fn orders() {
    avx2(param(0) != 0);
    let mut c = Cfg {
        ct: param(1) as usize,
        sf: param(4) as usize,
        mode: param(5),
        ri: -1,
        w: param(2) as usize,
        h: param(3) as usize,
    };
    let mut d = vec![0; c.bytes()];
    for (k, p) in d.iter_mut().enumerate() {
        *p = (k * 89 >> 3) as u8;
    }
    let optimized = c.mode == 1 || c.mode > 100 && c.mode < 200;
    let density = Density::Inch { x: any_u16(), y: any_u16() };
    c.ri = if optimized { 3 } else { range_u16(1, 65535) } as i64;
    let nr = range_u8(1, 15);
    let mut left = vec![0, 1, 2, 3, 4, 5, 6];
    let mut v = Vec::with_capacity(4096);
    let mut e = Encoder::new(&mut v, 100);
    while !left.is_empty() {
        // the first three in any order
        let k = if left.len() > 4 { choose(left.len()) } else { param(6) as usize % left.len() };
        match left.remove(k) {
            0 => e.set_sampling_factor(FACTORS[c.sf]),
            1 => e.set_quantization_tables(ones(), ones()),
            2 => match c.mode {
                m if m == 200 => e.set_progressive(true),
                m if m > 100 => e.set_progressive_scans((m - 100) as u8),
                m if m > 1 => e.set_progressive_scans(m as u8),
                _ => e.set_progressive(false),
            },
            3 => e.set_restart_interval(c.ri as u16),
            4 => e.set_density(density),
            5 => e.set_optimized_huffman_tables(optimized),
            _ => check(e.add_app_segment(nr, &[7, 8, 9]).is_ok(), SEG_ACCEPTED),
        }
    }
    let r = e.encode(&d, c.w as u16, c.h as u16, COLORS[c.ct]);
    check(r.is_ok(), ENCODE_OK);
    let j = decode(&v);
    check_header(&c, &v, &j, density);
    check_scans(&c, &j);
    let u = user_segments(&v, &j);
    check(u.len() == 1 && u[0].0 == nr && u[0].2 == 3, SEG_COUNT);
}

/// Nothing set but the quality: the stream is that of the same settings made explicitly.
/// params: avx2, colour type, width, height, all qualities or those around limits
pub fn defaults() {
    avx2(param(0) != 0);
    let quality = if param(4) != 0 {
        choose(256) as u8
    } else {
        [0, 1, 2, 49, 50, 51, 75, 85, 88, 89, 90, 91, 92, 95, 99, 100, 101, 255][choose(18)]
    };
    let low = quality < 90;
    let sf = if low { 3 } else { 0 };
    let c = Cfg { ct: param(1) as usize, sf, mode: 0, ri: -1, w: param(2) as usize, h: param(3) as usize };
    // what all components have as 128, which leaves nothing to be quantized
    let one: &[u8] = match c.ct {
        CMYK => &[127; 4],
        CMYK_AS_YCCK => &[128, 128, 128, 127],
        _ => &[128; 4][..BPP[c.ct]],
    };
    let d: Vec<u8> = (0..c.bytes()).map(|k| one[k % BPP[c.ct]]).collect();
    let mut v = Vec::with_capacity(2048);
    let r = Encoder::new(&mut v, quality).encode(&d, c.w as u16, c.h as u16, COLORS[c.ct]);
    check(r.is_ok(), ENCODE_OK);
    let j = decode(&v);
    check_header(&c, &v, &j, Density::None);
    check(user_segments(&v, &j).is_empty(), SEG_COUNT);
    let mut v2 = Vec::with_capacity(2048);
    let mut e = Encoder::new(&mut v2, quality);
    e.set_sampling_factor(FACTORS[sf + 8 * (sf == 0) as usize]);
    e.set_quantization_tables(QuantizationTableType::Default, QuantizationTableType::Default);
    e.set_progressive(false);
    e.set_optimized_huffman_tables(false);
    e.set_restart_interval(0);
    e.set_density(Density::None);
    let r = e.encode(&d, c.w as u16, c.h as u16, COLORS[c.ct]);
    check(r.is_ok(), ENCODE_OK);
    check(v.len() == v2.len(), DEFAULT);
    for i in 0..v.len() {
        check(v[i] == v2[i], DEFAULT);
    }
}
