//! A strict decoder for the JPEG streams this encoder may write, following ITU-T T.81 bit by bit.
//! It shares no code with the encoder. Every deviation is an error; nothing is tolerated.

use crate::ids::*;

pub struct Seg {
    pub marker: u8,
    pub start: usize,
    pub len: usize,
}

#[derive(Clone)]
pub struct Huff {
    pub counts: [u8; 16],
    pub vals: Vec<u8>,
    /// first code, and index of the first value, of each length
    first: [u32; 17],
    index: [usize; 17],
}

pub struct Comp {
    pub id: u8,
    pub h: usize,
    pub v: usize,
    pub tq: u8,
    /// size in blocks in single-component scans
    pub cols: usize,
    pub rows: usize,
    /// size in blocks including the padding of interleaved scans
    pub grid_cols: usize,
    pub grid_rows: usize,
    pub blocks: Vec<[i16; 64]>,
    /// scans that transmitted each coefficient
    pub seen: [u8; 64],
    pub qt: [u8; 64],
}

pub struct ScanInfo {
    pub comps: Vec<usize>,
    pub ss: usize,
    pub se: usize,
    pub restarts: usize,
    pub mcus: usize,
}

pub struct Jpeg {
    pub segs: Vec<Seg>,
    pub progressive: bool,
    pub precision: u8,
    pub width: usize,
    pub height: usize,
    pub comps: Vec<Comp>,
    pub qts: [Option<[u8; 64]>; 4],
    pub dc: [Option<Huff>; 4],
    pub ac: [Option<Huff>; 4],
    pub restart_interval: Option<usize>,
    pub scans: Vec<ScanInfo>,
    /// where the headers end (start of the first entropy-coded segment)
    pub header_end: usize,
    /// entropy-coded segments of all scans: start and end
    pub entropy: Vec<(usize, usize)>,
    /// how often each symbol of the current DC and AC tables occurred, if that is counted
    pub uses: Option<Vec<[u32; 256]>>,
    /// AC or DC, table, number: tables that were replaced
    pub replaced: Vec<(usize, Huff, [u32; 256])>,
}

type R<T> = Result<T, u32>;

/// Zig-zag order, T.81 figure 5, computed by walking the diagonals
pub const fn zigzag() -> [u8; 64] {
    let mut z = [0u8; 64];
    let (mut x, mut y) = (0i32, 0i32);
    let mut i = 0;
    while i < 64 {
        z[i] = (y * 8 + x) as u8;
        if (x + y) % 2 == 0 {
            if x == 7 {
                y += 1;
            } else if y == 0 {
                x += 1;
            } else {
                x += 1;
                y -= 1;
            }
        } else if y == 7 {
            x += 1;
        } else if x == 0 {
            y += 1;
        } else {
            x -= 1;
            y += 1;
        }
        i += 1;
    }
    z
}

pub const ZZ: [u8; 64] = zigzag();

impl Huff {
    /// Table from its code length counts and symbols, if they form a legal prefix code
    pub fn new(counts: [u8; 16], vals: Vec<u8>) -> R<Huff> {
        let mut code = 0u32;
        let mut k = 0usize;
        let mut first = [0; 17];
        let mut index = [0; 17];
        for l in 1..=16 {
            let n = counts[l - 1] as u32;
            first[l] = code;
            index[l] = k;
            code += n;
            k += n as usize;
            // the code of all ones has to stay free
            if n > 0 && code > (1 << l) - 1 {
                return Err(E_HUFF_CODE);
            }
            code <<= 1;
        }
        if k != vals.len() {
            return Err(E_HUFF_COUNT);
        }
        let mut seen = [false; 256];
        for &v in &vals {
            if seen[v as usize] {
                return Err(E_HUFF_REPEATED);
            }
            seen[v as usize] = true;
        }
        Ok(Huff { counts, vals, first, index })
    }

    /// length and code of a symbol
    pub fn code(&self, symbol: u8) -> Option<(usize, u32)> {
        for l in 1..=16 {
            for i in 0..self.counts[l - 1] as usize {
                if self.vals[self.index[l] + i] == symbol {
                    return Some((l, self.first[l] + i as u32));
                }
            }
        }
        None
    }
}

struct Bits<'a> {
    d: &'a [u8],
    pos: usize,
    acc: u64,
    n: u32,
}

impl<'a> Bits<'a> {
    fn load(&mut self) -> R<()> {
        if self.pos >= self.d.len() {
            return Err(E_TRUNCATED);
        }
        let b = self.d[self.pos];
        self.pos += 1;
        if b == 0xFF {
            if self.pos >= self.d.len() {
                return Err(E_TRUNCATED);
            }
            if self.d[self.pos] != 0 {
                return Err(E_MARKER_IN_SCAN);
            }
            self.pos += 1;
        }
        self.acc = (self.acc << 8) | b as u64;
        self.n += 8;
        Ok(())
    }

    fn bits(&mut self, k: u32) -> R<u32> {
        while self.n < k {
            self.load()?;
        }
        self.n -= k;
        Ok(((self.acc >> self.n) & ((1 << k) - 1)) as u32)
    }

    fn symbol(&mut self, t: &Huff) -> R<u8> {
        let mut code = 0;
        for l in 1..=16 {
            code = (code << 1) | self.bits(1)?;
            let i = code.wrapping_sub(t.first[l]);
            if i < t.counts[l - 1] as u32 {
                return Ok(t.vals[t.index[l] + i as usize]);
            }
        }
        Err(E_BAD_CODE)
    }

    /// T.81 RECEIVE and EXTEND
    fn value(&mut self, s: u32) -> R<i32> {
        if s == 0 {
            return Ok(0);
        }
        let v = self.bits(s)? as i32;
        // without a branch, so that the sign can stay symbolic
        let top = (v >> (s - 1)) & 1;
        Ok(v + (top - 1) * ((1 << s) - 1))
    }

    /// the rest of the byte has to be ones
    fn align(&mut self) -> R<()> {
        if self.n >= 8 {
            return Err(E_TRAILING);
        }
        let m = (1u64 << self.n) - 1;
        if self.acc & m != m {
            return Err(E_PADDING);
        }
        self.n = 0;
        Ok(())
    }
}

fn u16_at(d: &[u8], p: usize) -> usize {
    (d[p] as usize) << 8 | d[p + 1] as usize
}

impl Jpeg {
    fn new() -> Jpeg {
        Jpeg {
            segs: vec![],
            progressive: false,
            precision: 0,
            width: 0,
            height: 0,
            comps: vec![],
            qts: [None; 4],
            dc: [None, None, None, None],
            ac: [None, None, None, None],
            restart_interval: None,
            scans: vec![],
            header_end: 0,
            entropy: vec![],
            uses: None,
            replaced: vec![],
        }
    }

    /// Decode a complete stream and count how often each symbol occurs
    pub fn decode_counting(d: &[u8]) -> R<Jpeg> {
        let mut j = Jpeg::new();
        j.uses = Some(vec![[0; 256]; 8]);
        j.run(d, false)?;
        Ok(j)
    }

    /// Decode a complete stream
    pub fn decode(d: &[u8]) -> R<Jpeg> {
        let mut j = Jpeg::new();
        j.run(d, false)?;
        Ok(j)
    }

    /// Decode everything before the first scan
    pub fn headers(d: &[u8]) -> R<Jpeg> {
        let mut j = Jpeg::new();
        j.run(d, true)?;
        Ok(j)
    }

    fn run(&mut self, d: &[u8], headers: bool) -> R<()> {
        if d.len() < 4 || d[0] != 0xFF || d[1] != 0xD8 {
            return Err(E_NO_SOI);
        }
        let mut p = 2;
        loop {
            if p + 2 > d.len() {
                return Err(E_TRUNCATED);
            }
            if d[p] != 0xFF {
                return Err(E_NO_MARKER);
            }
            let m = d[p + 1];
            p += 2;
            if m == 0xD9 {
                if p != d.len() {
                    return Err(E_AFTER_EOI);
                }
                break;
            }
            // standalone markers, fill bytes and reserved ones have no place between segments
            if m == 0xFF || m < 0xC0 || (0xD0..=0xD8).contains(&m) {
                return Err(E_BAD_MARKER);
            }
            if headers && m == 0xDA {
                if self.comps.is_empty() {
                    return Err(E_NO_FRAME);
                }
                self.header_end = p - 2;
                return Ok(());
            }
            if p + 2 > d.len() {
                return Err(E_TRUNCATED);
            }
            let len = u16_at(d, p);
            if len < 2 || p + len > d.len() {
                return Err(E_SEGMENT_LENGTH);
            }
            let (start, end) = (p + 2, p + len);
            self.segs.push(Seg { marker: m, start, len: len - 2 });
            if self.segs.len() == 1 {
                if m != 0xE0 || len != 16 || &d[start..start + 5] != b"JFIF\0" || d[start + 5] != 1 {
                    return Err(E_NO_JFIF);
                }
                if d[start + 7] > 2 || d[start + 12] != 0 || d[start + 13] != 0 {
                    return Err(E_NO_JFIF);
                }
            }
            let s = &d[start..end];
            p = end;
            match m {
                0xC0 | 0xC2 => self.frame(s, m == 0xC2)?,
                0xC4 => self.huffman(s)?,
                0xDB => self.quant(s)?,
                0xDD => {
                    if s.len() != 2 {
                        return Err(E_SEGMENT_LENGTH);
                    }
                    self.restart_interval = Some(u16_at(s, 0));
                }
                0xDA => {
                    if self.header_end == 0 {
                        self.header_end = p;
                    }
                    let e = p;
                    p = self.scan(d, s, p)?;
                    self.entropy.push((e, p));
                }
                0xE0..=0xEF | 0xFE => {}
                _ => return Err(E_BAD_MARKER),
            }
        }
        if self.comps.is_empty() || self.scans.is_empty() {
            return Err(E_NO_FRAME);
        }
        for c in &self.comps {
            for k in 0..64 {
                if c.seen[k] != 1 {
                    return Err(E_NOT_ALL_TRANSMITTED);
                }
            }
        }
        Ok(())
    }

    fn frame(&mut self, s: &[u8], progressive: bool) -> R<()> {
        if !self.comps.is_empty() {
            return Err(E_TWO_FRAMES);
        }
        if s.len() < 6 || s.len() != 6 + 3 * s[5] as usize || s[5] == 0 || s[5] > 4 {
            return Err(E_SEGMENT_LENGTH);
        }
        self.progressive = progressive;
        self.precision = s[0];
        if s[0] != 8 {
            return Err(E_PRECISION);
        }
        self.height = u16_at(s, 1);
        self.width = u16_at(s, 3);
        if self.height == 0 || self.width == 0 {
            return Err(E_ZERO_SIZE);
        }
        let (mut hm, mut vm) = (1, 1);
        for i in 0..s[5] as usize {
            let c = &s[6 + 3 * i..9 + 3 * i];
            let (h, v) = ((c[1] >> 4) as usize, (c[1] & 15) as usize);
            if h < 1 || h > 4 || v < 1 || v > 4 {
                return Err(E_SAMPLING);
            }
            if c[2] > 3 {
                return Err(E_TABLE_ID);
            }
            for o in &self.comps {
                if o.id == c[0] {
                    return Err(E_COMPONENT_ID);
                }
            }
            hm = hm.max(h);
            vm = vm.max(v);
            self.comps.push(Comp {
                id: c[0],
                h,
                v,
                tq: c[2],
                cols: 0,
                rows: 0,
                grid_cols: 0,
                grid_rows: 0,
                blocks: vec![],
                seen: [0; 64],
                qt: [0; 64],
            });
        }
        let up = |a: usize, b: usize| (a + b - 1) / b;
        for c in &mut self.comps {
            // A.1.1: size of the component, A.2: blocks of single and interleaved scans
            let xi = up(self.width * c.h, hm);
            let yi = up(self.height * c.v, vm);
            c.cols = up(xi, 8);
            c.rows = up(yi, 8);
            c.grid_cols = up(self.width, 8 * hm) * c.h;
            c.grid_rows = up(self.height, 8 * vm) * c.v;
        }
        Ok(())
    }

    fn quant(&mut self, s: &[u8]) -> R<()> {
        let mut p = 0;
        while p < s.len() {
            if s[p] > 3 {
                return Err(E_TABLE_ID);
            }
            if p + 65 > s.len() {
                return Err(E_SEGMENT_LENGTH);
            }
            let mut t = [0u8; 64];
            for k in 0..64 {
                t[k] = s[p + 1 + k];
                if t[k] == 0 {
                    return Err(E_ZERO_QUANT);
                }
            }
            self.qts[s[p] as usize] = Some(t);
            p += 65;
        }
        Ok(())
    }

    fn huffman(&mut self, s: &[u8]) -> R<()> {
        let mut p = 0;
        while p < s.len() {
            if p + 17 > s.len() {
                return Err(E_SEGMENT_LENGTH);
            }
            let (class, id) = (s[p] >> 4, (s[p] & 15) as usize);
            if class > 1 || id > 3 {
                return Err(E_TABLE_ID);
            }
            let mut counts = [0u8; 16];
            let mut n = 0usize;
            for i in 0..16 {
                counts[i] = s[p + 1 + i];
                n += counts[i] as usize;
            }
            p += 17;
            if n > 256 || p + n > s.len() {
                return Err(E_SEGMENT_LENGTH);
            }
            let t = Huff::new(counts, s[p..p + n].to_vec())?;
            p += n;
            if let Some(u) = &mut self.uses {
                let at = class as usize * 4 + id;
                let old = if class == 0 { self.dc[id].take() } else { self.ac[id].take() };
                if let Some(old) = old {
                    self.replaced.push((class as usize, old, u[at]));
                }
                u[at] = [0; 256];
            }
            if class == 0 {
                self.dc[id] = Some(t);
            } else {
                self.ac[id] = Some(t);
            }
        }
        Ok(())
    }

    fn scan(&mut self, d: &[u8], s: &[u8], mut p: usize) -> R<usize> {
        if s.len() < 4 || s[0] == 0 || s[0] > 4 || s.len() != 4 + 2 * s[0] as usize {
            return Err(E_SEGMENT_LENGTH);
        }
        let n = s[0] as usize;
        let (ss, se, a) = (s[1 + 2 * n] as usize, s[2 + 2 * n] as usize, s[3 + 2 * n]);
        if a != 0 {
            return Err(E_APPROXIMATION);
        }
        if self.progressive {
            if ss > se || se > 63 || (ss == 0 && se != 0) || (ss > 0 && n != 1) {
                return Err(E_SPECTRAL);
            }
        } else if ss != 0 || se != 63 {
            return Err(E_SPECTRAL);
        }
        let mut idx = vec![];
        let mut tables = vec![];
        let mut units = 0;
        for i in 0..n {
            let (id, t) = (s[1 + 2 * i], s[2 + 2 * i]);
            let mut c = self.comps.len();
            for (k, o) in self.comps.iter().enumerate() {
                if o.id == id {
                    c = k;
                }
            }
            if c == self.comps.len() {
                return Err(E_SCAN_COMPONENT);
            }
            if let Some(&last) = idx.last() {
                if c <= last {
                    return Err(E_SCAN_COMPONENT);
                }
            }
            idx.push(c);
            let (td, ta) = ((t >> 4) as usize, (t & 15) as usize);
            let limit = if self.progressive { 3 } else { 1 };
            if td > limit || ta > limit {
                return Err(E_TABLE_ID);
            }
            if (ss == 0 && self.dc[td].is_none()) || (se > 0 && self.ac[ta].is_none()) {
                return Err(E_TABLE_UNDEFINED);
            }
            tables.push((td, ta));
            units += self.comps[c].h * self.comps[c].v;
            let q = self.comps[c].tq as usize;
            match &self.qts[q] {
                Some(t) => self.comps[c].qt = *t,
                None => return Err(E_TABLE_UNDEFINED),
            }
            for k in ss..=se {
                if self.comps[c].seen[k] != 0 {
                    return Err(E_TRANSMITTED_TWICE);
                }
                self.comps[c].seen[k] = 1;
            }
            if ss > 0 && self.comps[c].seen[0] == 0 {
                return Err(E_SPECTRAL);
            }
        }
        if n > 1 && units > 10 {
            return Err(E_MCU_SIZE);
        }
        for &c in &idx {
            let c = &mut self.comps[c];
            if c.blocks.is_empty() {
                c.blocks = vec![[0; 64]; c.grid_cols * c.grid_rows];
            }
        }

        // A.2: MCUs
        let (mx, my) = if n == 1 {
            (self.comps[idx[0]].cols, self.comps[idx[0]].rows)
        } else {
            let c = &self.comps[idx[0]];
            (c.grid_cols / c.h, c.grid_rows / c.v)
        };
        let total = mx * my;
        let ri = self.restart_interval.unwrap_or(0);
        let mut restarts = 0;
        let mut pred = [0i32; 4];
        let mut eobrun = 0u32;
        let mut b = Bits { d, pos: p, acc: 0, n: 0 };
        for m in 0..total {
            if ri > 0 && m > 0 && m % ri == 0 {
                if eobrun > 0 {
                    return Err(E_BAD_CODE);
                }
                b.align()?;
                if b.pos + 2 > d.len() || d[b.pos] != 0xFF {
                    return Err(E_RESTART);
                }
                if d[b.pos + 1] != 0xD0 + (restarts % 8) as u8 {
                    return Err(E_RESTART);
                }
                b.pos += 2;
                b.acc = 0;
                restarts += 1;
                pred = [0; 4];
            }
            for (i, &ci) in idx.iter().enumerate() {
                let (td, ta) = tables[i];
                let (h, v) = if n == 1 { (1, 1) } else { (self.comps[ci].h, self.comps[ci].v) };
                for y in 0..v {
                    for x in 0..h {
                        let col = (m % mx) * h + x;
                        let row = (m / mx) * v + y;
                        let comp = &mut self.comps[ci];
                        let at = row * comp.grid_cols + col;
                        let block = &mut comp.blocks[at];
                        if ss == 0 {
                            let t = match &self.dc[td] {
                                Some(t) => t,
                                None => return Err(E_TABLE_UNDEFINED),
                            };
                            let s = b.symbol(t)?;
                            if let Some(u) = &mut self.uses {
                                u[td][s as usize] += 1;
                            }
                            if s > 11 {
                                return Err(E_DC_RANGE);
                            }
                            pred[i] += b.value(s as u32)?;
                            block[0] = pred[i] as i16;
                            if block[0] as i32 != pred[i] {
                                return Err(E_DC_RANGE);
                            }
                        }
                        if se > 0 {
                            let t = match &self.ac[ta] {
                                Some(t) => t,
                                None => return Err(E_TABLE_UNDEFINED),
                            };
                            if eobrun > 0 {
                                eobrun -= 1;
                                continue;
                            }
                            let mut k = if ss == 0 { 1 } else { ss };
                            while k <= se {
                                let rs = b.symbol(t)?;
                                if let Some(u) = &mut self.uses {
                                    u[4 + ta][rs as usize] += 1;
                                }
                                let (r, s) = ((rs >> 4) as usize, (rs & 15) as u32);
                                if s == 0 {
                                    if r == 15 {
                                        k += 16;
                                        // a zero run has to be followed by a coefficient
                                        if k > se {
                                            return Err(E_RUN);
                                        }
                                        continue;
                                    }
                                    if r > 0 {
                                        if !self.progressive {
                                            return Err(E_BAD_CODE);
                                        }
                                        eobrun = (1 << r) + b.bits(r as u32)? - 1;
                                    }
                                    break;
                                }
                                if s > 10 {
                                    return Err(E_AC_RANGE);
                                }
                                k += r;
                                if k > se {
                                    return Err(E_RUN);
                                }
                                block[k] = b.value(s)? as i16;
                                k += 1;
                            }
                        }
                    }
                }
            }
        }
        if eobrun > 0 {
            return Err(E_BAD_CODE);
        }
        b.align()?;
        p = b.pos;
        if p + 2 > d.len() || d[p] != 0xFF || d[p + 1] == 0 {
            return Err(E_TRAILING);
        }
        if d[p + 1] & 0xF8 == 0xD0 {
            return Err(E_RESTART);
        }
        self.scans.push(ScanInfo { comps: idx, ss, se, restarts, mcus: total });
        Ok(p)
    }
}
