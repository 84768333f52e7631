//! What each check decides

macro_rules! ids {
    ($($n:ident = $v:literal : $t:literal;)*) => {
        $(pub const $n: u32 = $v;)*
        pub fn text(id: u32) -> &'static str {
            match id {
                $($v => $t,)*
                _ => "",
            }
        }
    };
}

ids! {
    E_NO_SOI = 1: "the stream starts with SOI";
    E_TRUNCATED = 2: "the stream is complete";
    E_NO_MARKER = 3: "a segment starts with a marker";
    E_AFTER_EOI = 4: "nothing follows EOI";
    E_BAD_MARKER = 5: "markers are legal where they are";
    E_SEGMENT_LENGTH = 6: "length fields equal the contents";
    E_NO_JFIF = 7: "the first segment is a JFIF header";
    E_NO_FRAME = 8: "there is a frame and a scan";
    E_TWO_FRAMES = 9: "there is only one frame";
    E_PRECISION = 10: "samples have 8 bits";
    E_ZERO_SIZE = 11: "the frame is not empty";
    E_SAMPLING = 12: "sampling factors are legal";
    E_TABLE_ID = 13: "table identifiers are legal";
    E_COMPONENT_ID = 14: "component identifiers are unique";
    E_ZERO_QUANT = 15: "quantization values are not zero";
    E_HUFF_CODE = 16: "huffman codes fit and leave the all-ones code free";
    E_HUFF_COUNT = 17: "there are as many symbols as codes";
    E_HUFF_REPEATED = 18: "no symbol has two codes";
    E_SPECTRAL = 19: "spectral selection is legal for the mode";
    E_APPROXIMATION = 20: "there is no successive approximation";
    E_SCAN_COMPONENT = 21: "scan components are those of the frame, in order";
    E_TABLE_UNDEFINED = 22: "tables are defined before they are used";
    E_TRANSMITTED_TWICE = 23: "a coefficient is transmitted once";
    E_NOT_ALL_TRANSMITTED = 24: "all coefficients of all components are transmitted";
    E_MCU_SIZE = 25: "an MCU has at most 10 blocks";
    E_MARKER_IN_SCAN = 26: "0xFF in entropy-coded data is followed by 0x00";
    E_BAD_CODE = 27: "only codes of the table are used";
    E_TRAILING = 28: "the scan ends after the last block";
    E_PADDING = 29: "padding consists of ones";
    E_RESTART = 30: "restart markers appear exactly where the interval says, in sequence";
    E_DC_RANGE = 31: "DC differences have at most 11 bits";
    E_AC_RANGE = 32: "AC values have at most 10 bits";
    E_RUN = 33: "zero runs stay inside the block";

    ENCODE_OK = 40: "encoding succeeds";
    COEF = 41: "decoded coefficients are those that were coded";
    FRAME_SIZE = 42: "the frame has the size of the image";
    FRAME_COMPONENTS = 43: "the frame has the components of the colour type";
    FRAME_SAMPLING = 44: "the components have the configured sampling factors";
    FRAME_TYPE = 45: "the frame type matches the mode";
    DRI = 46: "a restart interval is declared exactly when one is set";
    SCAN_COUNT = 47: "each component has the configured number of scans";
    DENSITY = 48: "the JFIF header has the configured density";
    ADOBE = 49: "an Adobe segment with the right transform is present exactly for four components";
    SAME_HEADER = 50: "alias names of a sampling factor give the same header";
    BANDS = 51: "DC scan first, then bands that cover all AC coefficients";
    ACS_ZERO = 52: "a block without AC coefficients is coded as such";
    BLOCK_ONCE = 53: "each block of the picture is coded once";
    PIXEL = 54: "the samples of a block are the pixels it covers";
    SAME_STREAM = 56: "the streams are equal";
    SAME_COEF = 57: "the coefficients are equal in all modes";
    SAME_TABLES = 58: "the quantization tables are equal in all modes";
    SEG_COUNT = 59: "each added segment is present";
    SEG_NUMBER = 60: "segments have their number";
    SEG_DATA = 61: "segments have their data";
    SEG_ORDER = 62: "segments follow the JFIF and Adobe headers";
    ICC_CHUNK = 63: "ICC chunks are numbered and carry the total count";
    ICC_DATA = 64: "the ICC chunks concatenate to the profile";
    ICC_ACCEPTED = 65: "an ICC profile of legal size is accepted";
    ICC_REFUSED = 66: "an ICC profile that is too long is refused with its length";
    SEG_ACCEPTED = 67: "a legal segment is accepted";
    SEG_REFUSED = 68: "an illegal segment is refused with the documented error";
    NO_STATE = 69: "a refused call leaves no state";
    BAD_DATA = 70: "too little data is refused with both lengths";
    ZERO_DIM = 71: "an empty image is refused with its dimensions";
    NOTHING_WRITTEN = 72: "nothing is written if the arguments are refused";
    WRITER_REACHED = 73: "enough data is accepted";
    FAIL_REPORTED = 74: "a write error is returned";
    FAIL_SAME = 75: "the error is that of the writer";
    FAIL_STOP = 76: "nothing is written after an error";
    FAIL_PREFIX = 77: "what was written before an error is a prefix of the stream";
    FLUSHED = 78: "the writer is flushed after the last byte";
    SUCCESS_COMPLETE = 79: "success means that everything was accepted";
    QUANT_TABLE = 80: "the table is the one selected, scaled for the quality";
    QUANT_ROUND = 81: "a quantized coefficient is within 2/3 of a step of the transform output";
    QUANT_ODD = 82: "quantization is symmetric";
    HUFF_LENGTHS = 83: "code lengths are legal";
    HUFF_COVERED = 84: "each symbol that occurs has a code";
    HUFF_AGREE = 85: "the codes used are those of the table";
    DCT_ACCURACY = 86: "the transform is within 2.5 of 8 times the exact DCT";
    DCT_CONSTANT = 87: "a constant block has an exact DC value and no AC";
    DCT_RANGE = 88: "coefficients stay in the range baseline JPEG can code";
    DCT_SAME = 89: "both transforms have the same output";
    YCC_ACCURACY = 90: "the conversion is within one unit of the exact formulas";
    YCC_GREY = 91: "grey is mapped to itself";
    YCC_CMYK = 92: "the CMYK conversion is that of RGB, with 255-K";
    ROW_RANGE = 93: "only rows of the picture are requested";
    ROW_ORDER = 94: "rows are requested in order, and all of them";
    ROW_BUFFERS = 95: "buffers are only appended to, and only those of the colour type are used";
    GETTER = 96: "getters return what was set";
    DEFAULT = 97: "defaults are as documented";
    PANIC = 98: "an invalid scan count panics";
    FACTOR = 99: "factors exist exactly for the documented pairs";
    CATEGORY = 100: "the configured symbols are used";
    FILE_NAME = 101: "the file that is opened is the one named";
    FILE_CLOSED = 102: "the file is closed after the last byte";
    BITS = 103: "bits are coded as they are given, with a 0 byte after each 0xFF";
    QUANT_SAME = 104: "both code paths quantize alike";
    STANDARD_TABLES = 106: "without optimization the tables are those of the standard";
    CODE_UNUSED = 107: "an optimized table has codes for the symbols that occur only";
    CODE_OPTIMAL = 108: "an optimized table makes the symbols as short as a prefix code can";
    HISTORY = 105: "a stream is the one a new process writes";
}
