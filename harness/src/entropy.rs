//! C03, C04, C05, C06: blocks of chosen coefficients are coded and decoded again

use crate::common::*;
use crate::hooks;
use crate::ids::*;
use crate::jpeg::*;
use crate::rt::*;

/// first block of each component, counting row by row
pub fn block_bases(c: &Cfg) -> Vec<usize> {
    let mut n = 0;
    let mut r = vec![];
    for i in 0..c.layout().len() {
        r.push(n);
        let (cols, rows) = comp_blocks(c, i);
        n += cols * rows;
    }
    r.push(n);
    r
}

/// A picture in which the samples of each block have the number of the block as their value
pub fn numbered_picture(c: &Cfg) -> Vec<u8> {
    let bases = block_bases(c);
    let l = c.layout();
    let (hm, vm) = c.max();
    let mut d = Vec::with_capacity(c.bytes());
    for y in 0..c.h {
        for x in 0..c.w {
            for i in 0..l.len() {
                let (cols, _) = comp_blocks(c, i);
                let n = bases[i] + (y / (8 * vm / l[i].1)) * cols + x / (8 * hm / l[i].0);
                d.push(if c.ct == CMYK { 255 - n as u8 } else { n as u8 });
            }
        }
    }
    d
}

/// Any value, with one path for each sign
pub fn signed(lo: i16, hi: i16) -> i16 {
    if choose(2) == 0 {
        range_i16(0, hi)
    } else {
        range_i16(lo, -1)
    }
}

/// What the coefficients of the blocks are. q[n][k]: coefficient k, in zig-zag order, of block n
fn coefficients(n: usize, pattern: i64, arg: i64) -> Vec<[i16; 64]> {
    let mut q = vec![[0i16; 64]; n];
    match pattern {
        // two coefficients at all positions: all run lengths
        0 => {
            let j = arg as usize;
            let k = j + 1 + choose(64 - j);
            if j > 0 {
                q[0][j] = 1;
            }
            if k < 64 {
                q[0][k] = -3;
            }
            q[0][0] = 7;
            if n > 1 {
                q[1][0] = -5;
                q[1][k.min(63)] = 2;
            }
        }
        // any DC in two blocks
        1 => {
            q[arg as usize][0] = signed(-1024, 1023);
            if n > arg as usize + 1 {
                q[arg as usize + 1][0] = signed(-1024, 1023);
            }
        }
        // any value for one AC coefficient
        6 => {
            q[0][0] = 3;
            q[0][arg as usize] = signed(-1023, 1023);
            if n > 1 {
                q[1][0] = -9;
            }
        }
        // all AC coefficients of all blocks arbitrary with a magnitude of 8..=15
        2 => {
            let mut s = arg as u32;
            for (i, b) in q.iter_mut().enumerate() {
                // small differences and a last coefficient that keep 0xFF out of the stream
                b[0] = (i * 7 % 3) as i16;
                b[63] = 8;
                for k in 1..63 {
                    let m = range_i16(8, 15);
                    s = s.wrapping_mul(1103515245).wrapping_add(12345);
                    b[k] = if s >> 16 & 1 == 0 { -m } else { m };
                }
            }
        }
        // large values at any alignment of the bit buffer, with all stuffing patterns
        3 => {
            // arg + 2 bits or so in front
            let mut k = 1;
            for _ in 0..arg {
                q[0][k] = 1;
                k += 1;
            }
            for i in 0..2 {
                if k + i < 64 {
                    q[0][k + i] = range_i16(512, 1023);
                }
            }
            if n > 1 {
                q[1][0] = 1023;
                q[1][1] = 1023;
                q[1][2] = range_i16(-1023, -512);
            }
        }
        // concrete blocks with various runs and sizes; 4: one arbitrary DC
        4 | 7 => {
            let mut s = 99 + if pattern == 7 { arg as u32 } else { 0 };
            let mut rnd = || {
                s = s.wrapping_mul(1103515245).wrapping_add(12345);
                (s >> 16) as i32
            };
            for b in q.iter_mut() {
                b[0] = (rnd() % 2048 - 1024) as i16;
                let mut k = 1 + (rnd() % 4) as usize;
                while k < 64 {
                    let m = 1 << (rnd() % 10 + 1);
                    b[k] = (rnd() % (2 * m - 1) - (m - 1)) as i16;
                    k += 1 + (rnd() % 24) as usize;
                }
            }
            if pattern == 4 {
                q[(arg as usize).min(n - 1)][0] = signed(-1024, 1023);
            }
        }
        // the longest possible blocks: all coefficients of the largest size
        5 => {
            for (i, b) in q.iter_mut().enumerate() {
                for k in 1..64 {
                    b[k] = if (k + i) % 3 == 0 { -1023 } else { 1023 };
                }
                b[0] = if i % 2 == 0 { -1024 } else { 1023 };
            }
            q[0][1] = range_i16(512, 1023);
        }
        // four blocks, from block arg on, have any of these shapes each: no AC coefficients, none that is zero,
        // a run up to the last one, one at the start; equal DC values where there are no AC coefficients
        8 => {
            let a = arg as usize;
            let mut dc = 0;
            for (i, b) in q.iter_mut().enumerate() {
                let shape = if (a..a + 4).contains(&i) { choose(4) } else { i % 4 };
                match shape {
                    0 => {}
                    1 => {
                        dc += 3;
                        for k in 1..64 {
                            b[k] = if (k + i) % 5 == 0 { -1 } else { 1 + (i % 2) as i16 };
                        }
                    }
                    2 => {
                        dc -= 9 * (i as i16 + 1);
                        b[63] = if i == a { range_i16(8, 15) } else { 1 << (i % 8) };
                    }
                    _ => {
                        dc += 100;
                        b[1 + i % 3] = if i == a + 1 { range_i16(-127, -64) } else { -(5 << (i % 6)) };
                    }
                }
                b[0] = dc;
            }
        }
        _ => {}
    }
    q
}

/// A stream of chosen coefficients. params: avx2, colour type, sampling factor, mode, restart interval (-2: any), width,
/// height, pattern, argument
fn chosen() -> (Cfg, Vec<[i16; 64]>, Vec<u8>) {
    avx2(param(0) != 0);
    let mut c = Cfg::params(1);
    if c.ri == -2 {
        c.any_interval();
    }
    let bases = block_bases(&c);
    let n = bases[bases.len() - 1];
    let q = coefficients(n, param(7), param(8));
    let f: Vec<[i16; 64]> = q
        .iter()
        .map(|b| {
            let mut f = [0; 64];
            for k in 0..64 {
                f[ZZ[k] as usize] = b[k] * 8;
            }
            f
        })
        .collect();
    hooks::inject(&f);
    let d = numbered_picture(&c);
    let v = c.encode(&d);
    (c, q, v)
}

/// C22: the Huffman tables of a stream. params: as above
pub fn fitting() {
    let (c, _, v) = chosen();
    check_tables(&c, decode_counting(&v));
}

pub fn decode_counting(v: &[u8]) -> Jpeg {
    out(v);
    match Jpeg::decode_counting(v) {
        Ok(j) => j,
        Err(e) => {
            check(false, e);
            assume(false);
            loop {}
        }
    }
}

/// Without optimization the tables are those of the standard, with it none wastes bits
pub fn check_tables(c: &Cfg, j: Jpeg) {
    let optimized = c.mode == 1 || c.mode > 100 && c.mode < 200;
    let uses = j.uses.unwrap();
    let mut all = j.replaced;
    for i in 0..8 {
        if let Some(t) = if i < 4 { &j.dc[i] } else { &j.ac[i - 4] } {
            all.push((i / 4, t.clone(), uses[i]));
        }
    }
    check(all.len() > 0, STANDARD_TABLES);
    if optimized {
        for (_, t, n) in &all {
            fits(t, n);
        }
        reach(2);
        return;
    }
    for (class, t, _) in &all {
        let known = |i: usize| t.counts == crate::tables::HUFFMAN[i].0 && t.vals == crate::tables::HUFFMAN[i].1;
        check(known(class * 2) || known(class * 2 + 1), STANDARD_TABLES);
    }
    // brightness and colour have their own
    for (class, tables) in [&j.dc, &j.ac].iter().enumerate() {
        for (i, t) in tables.iter().enumerate() {
            if let Some(t) = t {
                check(i < 2 && t.vals == crate::tables::HUFFMAN[class * 2 + i].1, STANDARD_TABLES);
            }
        }
    }
    reach(1);
}

/// No code of a table for these statistics is wasted
pub fn fits(t: &Huff, n: &[u32]) {
    let mut longest = 0;
    let mut cost = 0u64;
    let mut total = 0u64;
    let mut k = 0;
    // the code of all ones counts as one more symbol, which occurs once
    let mut w = vec![1u64];
    for l in 1..=16 {
        for _ in 0..t.counts[l - 1] {
            let f = n[t.vals[k] as usize] as u64;
            check(f > 0, CODE_UNUSED);
            cost += f * l as u64;
            total += f;
            w.push(f);
            k += 1;
            longest = l as u64;
        }
    }
    // lengths that had to be limited cost more
    if longest == 16 && total >= 1597 {
        reach(3);
        return;
    }
    let least = huffman_cost(w.clone());
    w[0] = 0;
    let ideal = huffman_cost(w);
    check(cost + longest <= least || cost <= ideal, CODE_OPTIMAL);
}

/// Number of bits that the best prefix code takes
fn huffman_cost(mut w: Vec<u64>) -> u64 {
    let mut cost = 0;
    while w.len() > 1 {
        let mut take = || {
            let mut at = 0;
            for i in 1..w.len() {
                if w[i] < w[at] {
                    at = i;
                }
            }
            w.swap_remove(at)
        };
        let s = take() + take();
        cost += s;
        w.push(s);
    }
    cost
}

/// params: as above
pub fn entropy() {
    let (c, q, v) = chosen();
    let bases = block_bases(&c);
    let j = decode(&v);
    check(j.comps.len() == c.layout().len(), FRAME_COMPONENTS);
    check(j.progressive == is_progressive(c.mode), FRAME_TYPE);
    if c.ri > 0 {
        check(j.restart_interval == Some(c.ri as usize), DRI);
    } else {
        check(j.restart_interval.is_none(), DRI);
    }
    if is_progressive(c.mode) && c.mode != 200 {
        let scans = (c.mode % 100) as usize;
        check(j.scans.len() == scans * j.comps.len(), SCAN_COUNT);
    }
    for (i, k) in j.comps.iter().enumerate() {
        check((k.cols, k.rows) == comp_blocks(&c, i), FRAME_SAMPLING);
        for y in 0..k.rows {
            for x in 0..k.cols {
                let b = &k.blocks[y * k.grid_cols + x];
                let e = &q[bases[i] + y * k.cols + x];
                for m in 0..64 {
                    check(b[m] == e[m], COEF);
                }
            }
        }
    }
}
