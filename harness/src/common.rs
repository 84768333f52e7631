//! Configurations, and what they mean according to the documentation

use crate::ids::*;
use crate::jpeg::*;
use crate::rt::*;
use jpeg_encoder::*;

pub const LUMA: usize = 0;
pub const RGB: usize = 1;
pub const YCBCR: usize = 5;
pub const CMYK: usize = 6;
pub const CMYK_AS_YCCK: usize = 7;
pub const YCCK: usize = 8;

pub const COLORS: [ColorType; 9] = [
    ColorType::Luma,
    ColorType::Rgb,
    ColorType::Rgba,
    ColorType::Bgr,
    ColorType::Bgra,
    ColorType::Ycbcr,
    ColorType::Cmyk,
    ColorType::CmykAsYcck,
    ColorType::Ycck,
];

pub const BPP: [usize; 9] = [1, 3, 4, 3, 4, 3, 4, 4, 4];

use SamplingFactor::*;

pub const FACTORS: [SamplingFactor; 16] = [
    F_1_1, F_2_1, F_1_2, F_2_2, F_4_1, F_4_2, F_1_4, F_2_4, R_4_4_4, R_4_2_2, R_4_4_0, R_4_2_0, R_4_1_1, R_4_1_0,
    R_4_4_1, R_4_2_1,
];

/// horizontal and vertical factor of each sampling factor
pub const HV: [(usize, usize); 16] = [
    (1, 1),
    (2, 1),
    (1, 2),
    (2, 2),
    (4, 1),
    (4, 2),
    (1, 4),
    (2, 4),
    (1, 1),
    (2, 1),
    (1, 2),
    (2, 2),
    (4, 1),
    (4, 2),
    (1, 4),
    (2, 4),
];

/// a coding mode: 0 default, 1 optimized tables, 2..=64 progressive with that many scans,
/// 100 + scans progressive with optimized tables, 200 progressive with the default scans
pub fn set_mode<W: JfifWrite>(e: &mut Encoder<W>, mode: i64) {
    match mode {
        0 => {}
        1 => e.set_optimized_huffman_tables(true),
        200 => e.set_progressive(true),
        m if m > 100 => {
            e.set_progressive_scans((m - 100) as u8);
            e.set_optimized_huffman_tables(true);
        }
        m => e.set_progressive_scans(m as u8),
    }
}

pub fn is_progressive(mode: i64) -> bool {
    mode > 1
}

pub fn ones() -> QuantizationTableType {
    QuantizationTableType::Custom(Box::new([1; 64]))
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub ct: usize,
    pub sf: usize,
    pub mode: i64,
    /// restart interval, not set if negative
    pub ri: i64,
    pub w: usize,
    pub h: usize,
}

impl Cfg {
    /// parameters from..from + 6: colour type, sampling factor, mode, restart interval, width, height
    pub fn params(from: u32) -> Cfg {
        Cfg {
            ct: param(from) as usize,
            sf: param(from + 1) as usize,
            mode: param(from + 2),
            ri: param(from + 3),
            w: param(from + 4) as usize,
            h: param(from + 5) as usize,
        }
    }

    /// Any restart interval; one after the other where statistics are collected, as the interval is a divisor there
    pub fn any_interval(&mut self) {
        let optimized = self.mode == 1 || self.mode > 100 && self.mode < 200;
        let most = (up(self.w, 8) * up(self.h, 8)) as u16;
        self.ri = if !optimized {
            any_u16()
        } else if choose(2) == 0 {
            concretize(range_u16(0, most) as u64) as u16
        } else {
            range_u16(most + 1, 65535)
        } as i64;
    }

    pub fn bytes(&self) -> usize {
        self.w * self.h * BPP[self.ct]
    }

    /// sampling factors of the components
    pub fn layout(&self) -> Vec<(usize, usize)> {
        let f = HV[self.sf];
        match self.ct {
            LUMA => vec![(1, 1)],
            CMYK => vec![(1, 1), (1, 1), (1, 1), f],
            CMYK_AS_YCCK | YCCK => vec![f, (1, 1), (1, 1), f],
            _ => vec![f, (1, 1), (1, 1)],
        }
    }

    /// largest factors
    pub fn max(&self) -> (usize, usize) {
        if self.ct == LUMA {
            (1, 1)
        } else {
            HV[self.sf]
        }
    }

    pub fn setup<W: JfifWrite>(&self, e: &mut Encoder<W>) {
        e.set_sampling_factor(FACTORS[self.sf]);
        e.set_quantization_tables(ones(), ones());
        set_mode(e, self.mode);
        if self.ri >= 0 {
            e.set_restart_interval(self.ri as u16);
        }
    }

    pub fn encode(&self, data: &[u8]) -> Vec<u8> {
        self.encode_with(data, |_| {})
    }

    pub fn encode_with(&self, data: &[u8], f: impl FnOnce(&mut Encoder<&mut Vec<u8>>)) -> Vec<u8> {
        let mut v = Vec::with_capacity(4096);
        let mut e = Encoder::new(&mut v, 100);
        self.setup(&mut e);
        f(&mut e);
        let r = e.encode(data, self.w as u16, self.h as u16, COLORS[self.ct]);
        check(r.is_ok(), ENCODE_OK);
        v
    }
}

pub fn up(a: usize, b: usize) -> usize {
    (a + b - 1) / b
}

/// Decode, or fail with the reason
pub fn decode(v: &[u8]) -> Jpeg {
    out(v);
    match Jpeg::decode(v) {
        Ok(j) => j,
        Err(e) => {
            check(false, e);
            // not reached: a failed check ends the path
            assume(false);
            loop {}
        }
    }
}

/// Size in real blocks of a component
pub fn comp_blocks(c: &Cfg, i: usize) -> (usize, usize) {
    let (h, v) = c.layout()[i];
    let (hm, vm) = c.max();
    (up(up(c.w * h, hm), 8), up(up(c.h * v, vm), 8))
}

/// The frame describes the image
pub fn check_frame(c: &Cfg, j: &Jpeg) {
    let l = c.layout();
    check(j.width == c.w && j.height == c.h, FRAME_SIZE);
    check(j.comps.len() == l.len(), FRAME_COMPONENTS);
    for (i, k) in j.comps.iter().enumerate() {
        check((k.h, k.v) == l[i], FRAME_SAMPLING);
    }
    check(j.progressive == is_progressive(c.mode), FRAME_TYPE);
}
