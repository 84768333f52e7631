//! C06, C07, C08, C09, C17: arithmetic

use crate::common::*;
use crate::header::check_scans;
use crate::hooks;
use crate::ids::*;
use crate::jpeg::*;
use crate::rt::*;
use crate::sink::Sink;
use jpeg_encoder::*;

/// cos(pi k / 16) * 2^30
const COS: [i64; 16] = [
    1073741824, 1053110176, 992008094, 892783698, 759250125, 596538995, 410903207, 209476638, 0, -209476638,
    -410903207, -596538995, -759250125, -892783698, -992008094, -1053110176,
];

fn cos(k: usize) -> i64 {
    let k = k % 32;
    if k < 16 {
        COS[k]
    } else {
        -COS[k - 16]
    }
}

/// 8 times the exact coefficient (u, v) of the DCT, times 2^20, is the sum of weight(..) * sample
fn weight(u: usize, v: usize, x: usize, y: usize) -> i64 {
    // 8 * 1/4 C(u) C(v) cos cos; C(0) = 1/sqrt(2)
    let c = |u: usize, x: usize| if u == 0 { COS[4] } else { cos((2 * x + 1) * u) };
    // 2^60 -> 2^20, times 2
    let p = c(u, x) * c(v, y);
    (p + (1 << 38)) >> 39
}

fn transform(b: &mut [i16; 64], simd: bool) {
    #[cfg(feature = "simd")]
    if simd {
        #[allow(unused_unsafe)]
        unsafe {
            fdct_avx2(b)
        };
        return;
    }
    let _ = simd;
    fdct(b);
}

/// Accuracy of the transform for every block. params: simd, first coefficient, number of coefficients
pub fn dct() {
    let mut b = [0i16; 64];
    for v in b.iter_mut() {
        *v = range_i16(-128, 127);
    }
    let x = b;
    transform(&mut b, param(0) != 0);
    let from = param(1) as usize;
    for k in from..from + param(2) as usize {
        let mut e = (b[k] as i64) << 20;
        for m in 0..64 {
            e -= weight(k % 8, k / 8, m % 8, m / 8) * x[m] as i64;
        }
        check_linear(e, -(5 << 19), 5 << 19, DCT_ACCURACY);
        // a value the quantization with 1 keeps in the range: |b| < 8 * 1023 + 5 for AC
        if k == 0 {
            check_linear(b[k] as i64, -8192, 8187, DCT_RANGE);
        } else {
            check_linear(b[k] as i64, -8187, 8187, DCT_RANGE);
        }
    }
}

/// Constant blocks. params: simd
pub fn dct_constant() {
    let v = range_i16(-128, 127);
    let mut b = [v; 64];
    transform(&mut b, param(0) != 0);
    check(b[0] == v * 64, DCT_CONSTANT);
    for k in 1..64 {
        check(b[k] == 0, DCT_CONSTANT);
    }
}

/// Both transforms give the same result for every block
#[cfg(feature = "simd")]
pub fn dct_same() {
    let mut a = [0i16; 64];
    for v in a.iter_mut() {
        *v = range_i16(-128, 127);
    }
    let mut b = a;
    fdct(&mut a);
    transform(&mut b, true);
    for k in 0..64 {
        check(a[k] == b[k], DCT_SAME);
    }
}

#[cfg(not(feature = "simd"))]
pub fn dct_same() {}

/// Conversion of every colour. params: kind
pub fn colour() {
    let (r, g, b) = (any_u8(), any_u8(), any_u8());
    match param(0) {
        0 => {
            let (y, cb, cr) = rgb_to_ycbcr(r, g, b);
            let (r, g, b) = (r as i64, g as i64, b as i64);
            // JFIF 1.02: exact formulas times 10^4; -0.1687, -0.3313, -0.4187, -0.0813 are rounded
            // there, and exact as -0.299/1.772, -0.587/1.772, -0.587/1.402, -0.114/1.402 times 10^9
            let ey = 299_000_000 * r + 587_000_000 * g + 114_000_000 * b;
            let eb = 128_000_000_000 - 168_735_892 * r - 331_264_108 * g + 500_000_000 * b;
            let er = 128_000_000_000 + 500_000_000 * r - 418_687_589 * g - 81_312_411 * b;
            for (v, e) in [(y, ey), (cb, eb), (cr, er)] {
                let d = v as i64 * 1_000_000_000 - e;
                check_linear(d, -1_000_000_000, 1_000_000_000, YCC_ACCURACY);
            }
        }
        1 => {
            let (y, cb, cr) = rgb_to_ycbcr(r, r, r);
            check(y == r && cb == 128 && cr == 128, YCC_GREY);
        }
        _ => {
            let k = any_u8();
            let (y, cb, cr) = rgb_to_ycbcr(r, g, b);
            let o = cmyk_to_ycck(r, g, b, k);
            check(o == (y, cb, cr, 255 - k), YCC_CMYK);
        }
    }
}

pub const TABLES: [QuantizationTableType; 9] = [
    QuantizationTableType::Default,
    QuantizationTableType::Flat,
    QuantizationTableType::CustomMsSsim,
    QuantizationTableType::CustomPsnrHvs,
    QuantizationTableType::ImageMagick,
    QuantizationTableType::KleinSilversteinCarney,
    QuantizationTableType::DentalXRays,
    QuantizationTableType::VisualDetectionModel,
    QuantizationTableType::ImprovedDetectionModel,
];

/// Tables in the stream for every quality. params: avx2, table type, chroma
pub fn quality() {
    avx2(param(0) != 0);
    let t = &TABLES[param(1) as usize];
    let chroma = param(2) as usize;
    let base = if chroma == 1 { crate::tables::CHROMA_TABLES } else { crate::tables::LUMA_TABLES }[param(1) as usize];
    let q = concretize(any_u8() as u64) as u8;
    let mut v = Vec::with_capacity(2048);
    let mut e = Encoder::new(&mut v, q);
    e.set_sampling_factor(SamplingFactor::F_1_1);
    e.set_quantization_tables(t.clone(), t.clone());
    let r = e.encode(&[128, 128, 128], 1, 1, ColorType::Ycbcr);
    check(r.is_ok(), ENCODE_OK);
    let j = decode(&v);
    let s = j.comps[chroma].qt;
    let q = if q < 1 { 1 } else if q > 100 { 100 } else { q } as u32;
    let scale = if q < 50 { 5000 / q } else { 200 - 2 * q };
    for m in 0..64 {
        let e = (base[ZZ[m] as usize] as u32 * scale + 50) / 100;
        let e = if e < 1 { 1 } else if e > 255 { 255 } else { e };
        check(s[m] as u32 == e, QUANT_TABLE);
    }
}

/// Custom tables are used as they are, in zig-zag order, whatever the quality.
/// params: avx2, colour type, mode, table with one arbitrary value at any position (0 luma, 1 chroma, 2 none, 3 chroma, equal otherwise)
pub fn custom_table() {
    avx2(param(0) != 0);
    let ct = param(1) as usize;
    let (mut a, mut b) = ([0u16; 64], [0u16; 64]);
    for k in 0..64 {
        a[k] = k as u16 + 1;
        b[k] = 255 - k as u16;
    }
    let q = any_u8();
    match param(3) {
        0 => a[choose(64)] = any_u16(),
        1 => b[choose(64)] = any_u16(),
        // equal but for one value
        3 => {
            b = a;
            b[choose(64)] = any_u16();
        }
        _ => {}
    }
    let mut v = Vec::with_capacity(2048);
    let mut e = Encoder::new(&mut v, q);
    set_mode(&mut e, param(2));
    e.set_sampling_factor(SamplingFactor::F_1_1);
    e.set_quantization_tables(QuantizationTableType::Custom(Box::new(a)), QuantizationTableType::Custom(Box::new(b)));
    // grey in all colour types
    let d = [128u8; 4];
    let r = e.encode(&d, 1, 1, COLORS[ct]);
    check(r.is_ok(), ENCODE_OK);
    let j = match Jpeg::headers(&v) {
        Ok(j) => j,
        Err(e) => return check(false, e),
    };
    check_custom(ct, &j, &a, &b);
}

/// Two values of each of two tables arbitrary at once, the others equal, up to the first scan. params: avx2, colour type, positions
pub fn custom_any() {
    avx2(param(0) != 0);
    let ct = param(1) as usize;
    let (mut a, mut b) = ([16u16; 64], [16u16; 64]);
    let q = any_u8();
    let table = |t: &[u16; 64]| QuantizationTableType::Custom(Box::new(*t));
    let d = [128u8; 4];
    let mut v = Vec::with_capacity(2048);
    let mut e = Encoder::new(&mut v, 50);
    e.set_quantization_tables(table(&a), table(&b));
    e.set_sampling_factor(SamplingFactor::F_1_1);
    check(e.encode(&d, 1, 1, COLORS[ct]).is_ok(), ENCODE_OK);
    let length = match Jpeg::headers(&v) {
        Ok(j) => j.header_end,
        Err(e) => return check(false, e),
    };
    for k in [param(2) as usize, param(3) as usize] {
        a[k] = any_u16();
        b[k] = any_u16();
    }
    let mut s = Sink::new();
    s.accept = length;
    let mut e = Encoder::new(&mut s, q);
    e.set_quantization_tables(table(&a), table(&b));
    e.set_sampling_factor(SamplingFactor::F_1_1);
    check(e.encode(&d, 1, 1, COLORS[ct]).is_err(), FAIL_REPORTED);
    out(&s.data);
    s.data.extend_from_slice(&[0xFF, 0xDA]);
    match Jpeg::headers(&s.data) {
        Ok(j) => check_custom(ct, &j, &a, &b),
        Err(e) => check(false, e),
    }
}

fn check_custom(ct: usize, j: &Jpeg, a: &[u16; 64], b: &[u16; 64]) {
    for (i, c) in j.comps.iter().enumerate() {
        // colour components use the second table
        let second = match ct {
            LUMA => false,
            CMYK => i < 3,
            _ => i == 1 || i == 2,
        };
        let t = match &j.qts[c.tq as usize] {
            Some(t) => *t,
            None => return check(false, E_TABLE_UNDEFINED),
        };
        for m in 0..64 {
            let e = if second { b } else { a }[ZZ[m] as usize];
            let e = if e < 1 { 1 } else if e > 255 { 255 } else { e };
            check(t[m] as u16 == e, QUANT_TABLE);
        }
    }
}

/// Rounding for every value and divisor. params: first divisor, number of divisors, index
pub fn quantize() {
    let d = param(0) as u16 + choose(param(1) as usize) as u16;
    let i = param(2) as usize;
    let mut t = [d; 64];
    t[(i + 1) % 64] = d % 255 + 1;
    let q = hooks::Quantizer::new(&QuantizationTableType::Custom(Box::new(t)), any_u8(), i % 2 == 0);
    // all that the transform can return
    let v = range_i16(-8200, 8200);
    let r = q.quantize(v, i) as i32;
    let (v, d) = (v as i32, d as i32);
    let e = r * d * 8 - v;
    check(3 * e <= 16 * d && 3 * e >= -16 * d, QUANT_ROUND);
    let n = q.quantize(-(v as i16), i) as i32;
    check(n == -r, QUANT_ODD);
    // zero stays zero
    check(v != 0 || r == 0, QUANT_ROUND);
}

/// 64 divisors, each at one position. params of quant_block: avx2, first divisor, distance, rotation
fn divisors(first: usize, by: usize, rot: usize) -> [u16; 64] {
    let mut t = [0; 64];
    for i in 0..64 {
        t[(i + rot) % 64] = ((first + i * by) % 255 + 1) as u16;
    }
    t
}

/// All that the transform can return, for 64 divisors at once
pub fn quant_block() {
    let t = divisors(param(1) as usize, param(2) as usize, param(3) as usize);
    let mut b = [0i16; 64];
    for v in b.iter_mut() {
        *v = range_i16(-8200, 8200);
    }
    let q = hooks::quantize_block(param(0) != 0, &b, &QuantizationTableType::Custom(Box::new(t)), any_u8(), param(3) % 2 == 0);
    for i in 0..64 {
        let z = ZZ[i] as usize;
        let (r, d, v) = (q[i] as i32, t[z] as i32, b[z] as i32);
        let e = r * d * 8 - v;
        check(3 * e <= 16 * d && 3 * e >= -16 * d, QUANT_ROUND);
    }
}

/// Both code paths quantize any block alike. params: first divisor, distance, rotation
pub fn quant_same() {
    let t = QuantizationTableType::Custom(Box::new(divisors(param(0) as usize, param(1) as usize, param(2) as usize)));
    let mut b = [0i16; 64];
    for v in b.iter_mut() {
        *v = range_i16(-8200, 8200);
    }
    let q = hooks::quantize_block(true, &b, &t, 50, true);
    let r = hooks::quantize_block(false, &b, &t, 50, true);
    for i in 0..64 {
        check(q[i] == r[i], QUANT_SAME);
    }
}

/// Any bits are coded as they are, in codes of the given sizes. params: start of the sizes, number of bits
pub fn bits() {
    let (mut s, total) = (param(0) as u32, param(1) as usize);
    let mut values: Vec<(u32, u8)> = vec![];
    let mut n = 0;
    while n < total {
        s = s.wrapping_mul(1103515245).wrapping_add(12345);
        let size = (1 + (s >> 16) as usize % 27).min(total - n);
        values.push((range_u32(0, ((1u64 << size) - 1) as u32), size as u8));
        n += size;
    }
    let v = match hooks::write_bits(&values) {
        Ok(v) => v,
        Err(_) => return check(false, ENCODE_OK),
    };
    out(&v);
    // bits in order, padded with 1
    let mut want = vec![0u8; (total + 7) / 8];
    let mut at = 0;
    for (v, size) in values {
        for i in (0..size).rev() {
            want[at / 8] |= ((v >> i & 1) as u8) << (7 - at % 8);
            at += 1;
        }
    }
    while at % 8 > 0 {
        want[at / 8] |= 1 << (7 - at % 8);
        at += 1;
    }
    let mut i = 0;
    for w in want {
        check(i < v.len(), BITS);
        check(v[i] == w, BITS);
        i += 1;
        if w == 0xFF {
            check(i < v.len() && v[i] == 0, BITS);
            i += 1;
        }
    }
    check(i == v.len(), BITS);
}

/// Coefficients in a stream belong to the table of their component.
/// params: avx2, colour type, mode, component, index in zig-zag order
pub fn stream_quant() {
    avx2(param(0) != 0);
    let ct = param(1) as usize;
    let c = Cfg { ct, sf: 0, mode: param(2), ri: -1, w: 8, h: 8 };
    let (comp, k) = (param(3) as usize, param(4) as usize);
    let n = c.layout().len();
    let (mut a, mut b) = ([0u16; 64], [0u16; 64]);
    for i in 0..64 {
        a[i] = ((i * 37 + 11) % 255 + 1) as u16;
        b[i] = ((i * 91 + 200) % 255 + 1) as u16;
    }
    let mut f = vec![[0i16; 64]; n];
    let mut s = 3u32;
    for g in f.iter_mut() {
        for v in g.iter_mut() {
            s = s.wrapping_mul(1103515245).wrapping_add(12345);
            *v = (s >> 16) as i16 >> 3;
            if *v > 8000 || *v < -8000 {
                *v = 4000;
            }
        }
    }
    f[comp][ZZ[k] as usize] = range_i16(-8000, 8000);
    hooks::inject(&f);
    let d = crate::entropy::numbered_picture(&c);
    let v = c.encode_with(&d, |e| {
        e.set_quantization_tables(QuantizationTableType::Custom(Box::new(a)), QuantizationTableType::Custom(Box::new(b)))
    });
    let j = decode(&v);
    for (i, p) in j.comps.iter().enumerate() {
        for m in 0..64 {
            let q = p.qt[m] as i32;
            let e = p.blocks[0][m] as i32 * q * 8 - f[i][ZZ[m] as usize] as i32;
            check(3 * e <= 16 * q && 3 * e >= -16 * q, QUANT_ROUND);
        }
    }
}

/// Frequencies of the test families
fn frequencies(kind: i64, n: usize, arg: i64) -> [u32; 257] {
    let mut f = [0u32; 257];
    f[256] = 1;
    match kind {
        // n arbitrary frequencies
        0 => {
            for i in 0..n {
                f[i * 17 % 256] = range_u32(if i == 0 { 1 } else { 0 }, arg as u32);
            }
        }
        // Fibonacci numbers, one of them increased by any small amount: the deepest trees
        1 => {
            let (mut a, mut b) = (1u32, 1u32);
            for i in 0..n {
                f[(i * 5 + 3) % 256] = a;
                let c = a.saturating_add(b);
                a = b;
                b = c;
            }
            if arg >= 0 {
                let at = (arg as usize * 5 + 3) % 256;
                f[at] += range_u32(0, 3);
            }
        }
        // powers of two
        2 => {
            for i in 0..n {
                f[255 - i] = 1 << i.min(31);
            }
            if arg >= 0 {
                f[255 - arg as usize] = range_u32(1, 1 << 20);
            }
        }
        // n equal frequencies, any of them rarer
        3 => {
            let v = arg as u32;
            for i in 0..n {
                f[i] = v;
            }
            let k = choose(n);
            f[k] = range_u32((n == 1) as u32, v);
        }
        // ramps and repeated groups
        _ => {
            let mut s = arg as u32;
            for i in 0..n {
                s = s.wrapping_mul(1103515245).wrapping_add(12345);
                let m = s >> 16;
                f[i] = match arg % 4 {
                    0 => i as u32 + 1,
                    1 => m,
                    2 => 1 << (m % 28),
                    _ => m % 3,
                };
            }
            let k = (s >> 8) as usize % n;
            f[k] = if n > 60 { choose(6) as u32 } else { range_u32(0, 5) };
        }
    }
    // there is no table without symbols
    let mut sum = 0u64;
    for i in 0..256 {
        sum += f[i] as u64;
    }
    assume(sum > 0);
    f
}

/// Tables for frequencies. params: kind, symbols, argument
pub fn opt_table() {
    let f = frequencies(param(0), param(1) as usize, param(2));
    let t = hooks::OptimizedTable::new(f);
    let h = match Huff::new(*t.length(), t.values().to_vec()) {
        Ok(h) => h,
        Err(e) => return check(false, e),
    };
    let mut total = 0;
    for l in 0..16 {
        total += t.length()[l] as usize;
    }
    check(total == t.values().len(), E_HUFF_COUNT);
    let mut at = [0usize; 257];
    for l in 1..=16 {
        at[l + 1..].iter_mut().for_each(|a| *a = 0);
    }
    let mut coded = [false; 256];
    let mut code = 0u32;
    let mut k = 0;
    for l in 1..=16usize {
        for _ in 0..t.length()[l - 1] {
            let v = t.values()[k];
            coded[v as usize] = true;
            let (len, c) = t.code(v);
            check(len as usize == l && c as u32 == code, HUFF_AGREE);
            code += 1;
            k += 1;
        }
        code <<= 1;
    }
    for i in 0..256 {
        check(f[i] == 0 || coded[i], HUFF_COVERED);
    }
    let _ = h;
}

/// Tables for frequencies: nothing is wasted. params: kind, symbols, argument
pub fn opt_fit() {
    let f = frequencies(param(0), param(1) as usize, param(2));
    let t = hooks::OptimizedTable::new(f);
    match Huff::new(*t.length(), t.values().to_vec()) {
        Ok(h) => crate::entropy::fits(&h, &f),
        Err(e) => check(false, e),
    }
    reach(1);
}

/// All decodings of the tables in the streams of one picture are legal, and the tables cover its symbols: the picture
/// has blocks with all categories. params: avx2, colour type, mode, restart interval, seed
pub fn opt_stream() {
    avx2(param(0) != 0);
    let c = Cfg { ct: param(1) as usize, sf: 0, mode: param(2), ri: param(3), w: 24, h: 16 };
    let bases = crate::entropy::block_bases(&c);
    let n = bases[bases.len() - 1];
    let mut f = vec![[0i16; 64]; n];
    let mut s = param(4) as u32;
    let mut rnd = || {
        s = s.wrapping_mul(1103515245).wrapping_add(12345);
        (s >> 16) as i32
    };
    for b in f.iter_mut() {
        b[0] = ((rnd() % 2048 - 1024) * 8) as i16;
        let mut k = 1 + (rnd() % 20) as usize;
        while k < 64 {
            let m = 1 << (rnd() % 10);
            b[ZZ[k] as usize] = (m * 8 * if rnd() & 1 == 0 { -1 } else { 1 }) as i16;
            k += 1 + (rnd() % 18) as usize;
        }
    }
    let at = (rnd() as usize) % n;
    f[at][0] = range_i16(-1024, 1023) * 8;
    hooks::inject(&f);
    let d = crate::entropy::numbered_picture(&c);
    let v = c.encode(&d);
    let j = decode(&v);
    for (i, k) in j.comps.iter().enumerate() {
        for y in 0..k.rows {
            for x in 0..k.cols {
                let b = &k.blocks[y * k.grid_cols + x];
                let e = &f[bases[i] + y * k.cols + x];
                for m in 0..64 {
                    check(b[m] * 8 == e[ZZ[m] as usize], COEF);
                }
            }
        }
    }
}

/// Large pictures do not panic, and end with EOI.
/// params: avx2, colour type, sampling factor, mode, restart interval, width, height, content
pub fn big() {
    avx2(param(0) != 0);
    let c = Cfg::params(1);
    let mut d = vec![0u8; c.bytes()];
    match param(7) {
        0 => {}
        // extreme checkerboard
        1 => {
            for (i, p) in d.iter_mut().enumerate() {
                *p = if (i ^ (i / c.w)) & 1 == 0 { 0 } else { 255 };
            }
        }
        _ => {
            let mut s = 5u32;
            for p in d.iter_mut() {
                s = s.wrapping_mul(1103515245).wrapping_add(12345);
                *p = if s >> 16 & 1 == 0 { 0 } else { 255 };
            }
        }
    }
    let n = d.len();
    d[n - 1] = any_u8();
    assume(d[n - 1] == 3);
    let v = c.encode(&d);
    check(v.len() > 4 && v[v.len() - 2..] == [0xFF, 0xD9], E_TRUNCATED);
}

/// Constant blocks through the whole encoder, without hooks.
/// params: avx2, colour type (grey or YCbCr), sampling factor, mode, width in blocks
pub fn flat() {
    avx2(param(0) != 0);
    let ct = param(1) as usize;
    let (bw, b) = (param(4) as usize, BPP[ct]);
    let c = Cfg { ct, sf: param(2) as usize, mode: param(3), ri: -1, w: bw * 8, h: 8 };
    let mut d = vec![0; c.bytes()];
    let mut vals = vec![];
    for i in 0..bw * b {
        vals.push(if i < 2 { any_u8() } else { (i * 71) as u8 });
    }
    for y in 0..8 {
        for x in 0..c.w {
            for i in 0..b {
                d[(y * c.w + x) * b + i] = vals[x / 8 * b + i];
            }
        }
    }
    let v = c.encode(&d);
    let j = decode(&v);
    for (i, k) in j.comps.iter().enumerate() {
        for x in 0..k.cols {
            let q = &k.blocks[x];
            check(q[0] == (vals[x * b + i] as i16 - 128) * 8, DCT_CONSTANT);
            for m in 1..64 {
                check(q[m] == 0, DCT_CONSTANT);
            }
        }
    }
}

/// Pictures of the largest sizes, without hooks: each MCU has another value, that of the last one is any of four, and the
/// decoded coefficients are compared.
/// params: avx2, colour type (grey, YCbCr, CMYK or YCCK), sampling factor, mode, restart interval, width, height
pub fn long() {
    avx2(param(0) != 0);
    let c = Cfg::params(1);
    let b = BPP[c.ct];
    let (hm, vm) = c.max();
    let (mw, mh) = (hm * 8, vm * 8);
    let (cols, rows) = (up(c.w, mw), up(c.h, mh));
    let mut vals: Vec<u8> = (0..cols * rows * b).map(|i| ((i * 37) >> 3) as u8 ^ i as u8).collect();
    let n = vals.len();
    vals[n - 1] = range_u8(100, 103);
    let mut d = vec![0; c.bytes()];
    for y in 0..c.h {
        for x in 0..c.w {
            let m = (y / mh * cols + x / mw) * b;
            let p = (y * c.w + x) * b;
            d[p..p + b].copy_from_slice(&vals[m..m + b]);
        }
    }
    let v = c.encode(&d);
    let j = decode(&v);
    check_frame(&c, &j);
    check_scans(&c, &j);
    let l = c.layout();
    for (i, k) in j.comps.iter().enumerate() {
        check((k.cols, k.rows) == comp_blocks(&c, i), FRAME_SAMPLING);
        for y in 0..k.rows {
            for x in 0..k.cols {
                let q = &k.blocks[y * k.grid_cols + x];
                let s = vals[(y / l[i].1 * cols + x / l[i].0) * b + i];
                let s = if c.ct == CMYK { 255 - s } else { s };
                check(q[0] == (s as i16 - 128) * 8, DCT_CONSTANT);
                for m in 1..64 {
                    check(q[m] == 0, DCT_CONSTANT);
                }
            }
        }
    }
}
