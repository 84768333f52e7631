//! Harnesses for the symbolic execution of jpeg-encoder

pub mod ids;
pub mod jpeg;
pub mod rt;

macro_rules! harnesses {
    ($($m:ident :: $n:ident),* $(,)?) => {
        mod entry {
            $(#[no_mangle] pub extern "C" fn $n() { super::$m::$n() })*
        }
        pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), entry::$n)),*];
    };
}

mod common;
mod entropy;
mod fail;
#[cfg(feature = "file")]
mod files;
#[cfg(not(feature = "file"))]
mod files {
    pub fn files() {}
}
mod header;
mod history;
mod hooks;
mod math;
mod pixels;
mod sink;
mod tables;
harnesses! {
    entropy::entropy, entropy::fitting,
    fail::fail, fail::writers, fail::std_writers, files::files,
    header::headers, header::config, header::segments, header::icc, header::refused, header::settings, header::alias,
    header::table_pairs, header::mixed_segments, header::sequence, header::orders, header::defaults,
    history::history,
    math::dct, math::dct_constant, math::dct_same, math::colour, math::quality, math::custom_table, math::custom_any, math::quantize,
    math::stream_quant, math::opt_table, math::opt_fit, math::opt_stream, math::quant_block, math::quant_same, math::bits, math::big, math::flat, math::long,
    pixels::pixels, pixels::sizes, pixels::modes, pixels::formats, pixels::custom, pixels::simd, pixels::far,
    pixels::far_block, pixels::rogue,
}
