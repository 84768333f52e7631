//! The hooks in the crate, or stand-ins that decide nothing if they do not fit it any more

#[cfg(jpeg_encoder_verif)]
pub use jpeg_encoder::verif::*;

#[cfg(not(jpeg_encoder_verif))]
pub use without::*;

#[cfg(jpeg_encoder_verif_rows)]
pub use jpeg_encoder::verif_rows::*;

#[cfg(not(jpeg_encoder_verif_rows))]
pub use without_rows::*;

#[cfg(jpeg_encoder_verif_ops)]
pub use jpeg_encoder::verif_ops::*;

#[cfg(not(jpeg_encoder_verif_ops))]
pub use without_ops::*;

#[cfg(not(jpeg_encoder_verif_ops))]
mod without_ops {
    use crate::rt::assume;
    use jpeg_encoder::{EncodingError, QuantizationTableType};

    fn undecided() -> ! {
        assume(false);
        loop {}
    }
    pub fn quantize_block(_: bool, _: &[i16; 64], _: &QuantizationTableType, _: u8, _: bool) -> [i16; 64] {
        undecided()
    }
    pub fn write_bits(_: &[(u32, u8)]) -> Result<Vec<u8>, EncodingError> {
        undecided()
    }
}

#[cfg(not(jpeg_encoder_verif_rows))]
mod without_rows {
    use crate::rt::assume;
    use jpeg_encoder::ColorType;

    fn undecided() -> ! {
        assume(false);
        loop {}
    }
    pub fn fill_row(_: ColorType, _: bool, _: &[u8], _: u16, _: u16, _: u16, _: &mut [Vec<u8>; 4]) {
        undecided()
    }
    pub fn block(_: &[u8], _: usize, _: usize, _: usize, _: usize, _: usize) -> [i16; 64] {
        undecided()
    }
}

#[cfg(not(jpeg_encoder_verif))]
mod without {
    use crate::rt::assume;
    use jpeg_encoder::QuantizationTableType;

    fn undecided() -> ! {
        assume(false);
        loop {}
    }
    pub fn inject(_: &[[i16; 64]]) {
        undecided()
    }
    pub fn record() {
        undecided()
    }
    pub fn recorded() -> usize {
        undecided()
    }
    pub fn samples(_: usize) -> [i16; 64] {
        undecided()
    }
    pub struct OptimizedTable;
    impl OptimizedTable {
        pub fn new(_: [u32; 257]) -> Self {
            undecided()
        }
        pub fn length(&self) -> &[u8; 16] {
            undecided()
        }
        pub fn values(&self) -> &[u8] {
            undecided()
        }
        pub fn code(&self, _: u8) -> (u8, u16) {
            undecided()
        }
    }
    pub struct Quantizer;
    impl Quantizer {
        pub fn new(_: &QuantizationTableType, _: u8, _: bool) -> Self {
            undecided()
        }
        pub fn quantize(&self, _: i16, _: usize) -> i16 {
            undecided()
        }
    }
}
