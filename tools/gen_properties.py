#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

E, W, H, I, Q, F, A1, A2, L = ("src/encoder.rs", "src/writer.rs", "src/huffman.rs", "src/image_buffer.rs",
    "src/quantization.rs", "src/fdct.rs", "src/avx2/fdct.rs", "src/avx2/ycbcr.rs", "src/lib.rs")
INJ = "fdct override (cfg jpeg_encoder_verif): lets a harness choose the DCT coefficients of each block"

prop("C01", "A successful encode writes exactly one well-formed JPEG stream",
 "Whenever encoding succeeds, the bytes handed to the writer are one complete JPEG/JFIF interchange stream: SOI, the JFIF header, marker segments whose length fields equal their contents, exactly one frame header of the type that matches the chosen mode (baseline or progressive), legal scan headers, entropy-coded data, EOI, and nothing after it. Every quantization and Huffman table a scan refers to is defined before that scan, has a legal identifier and no illegal (zero) entries. Every component of the frame is transmitted by the scans.",
 ["inputs", "configurations"], "for every image size, pixel content, colour type, sampling factor, quality/table choice, restart interval, Huffman option and scan count",
 "The tests decode about 20 fixed 258x128 images with one tolerant decoder; they do not check segment lengths, table references or table values, and reach only 2 scan counts and 2 restart intervals.",
 [E, W, "src/marker.rs"], [("encode_image_internal, write_frame_header", E), ("write_segment, write_scan_header, write_huffman_segment, write_quantization_segment", W)],
 ["bytes received by the JfifWrite sink"], hook=INJ)
prop("C02", "Frame and header fields describe the image and the settings",
 "The frame header carries the exact width and height, 8-bit precision, the right number of components (1 for grey, 3 for YCbCr, 4 for CMYK and YCCK) and the configured sampling factors; the JFIF header carries the configured density unit and values; a restart interval is declared exactly when one is set, with its value. An Adobe segment with transform 0 (CMYK) or 2 (YCCK) is present exactly for four-component images. The alias names of a sampling factor give the same header as the factor they stand for.",
 ["inputs", "configurations"], "for every 16-bit width and height, every density, restart interval, colour type and sampling factor",
 "Tests use two or three fixed sizes and never read the density, Adobe or sampling bytes back.",
 [E, W], [("write_header / write_frame_header / write_dri", W), ("init_components, get_sampling_factors, Adobe APP14", E)], ["bytes of the header segments"])
prop("C03", "Entropy coding is lossless in sequential and interleaved scans",
 "Decoding the entropy-coded data with the Huffman tables found in the stream, as ITU T.81 prescribes, gives back exactly the quantized coefficients of every block, in order: DC values including their prediction, AC values with their run lengths, long zero runs and end-of-block. No 0xFF byte appears inside entropy-coded data unless followed by a stuffed 0x00, and the last byte of a scan is padded with 1-bits and nothing else follows.",
 ["inputs", "configurations"], "for every block of quantized coefficients (DC in [-1024,1023], AC in [-1023,1023]) at every position and every bit alignment",
 "Coefficient patterns such as a run of 47 zeros, a non-zero last coefficient, an all-ones bit string at a given alignment or an 11-bit DC difference are rare; the tests' smooth gradients exercise few of them and compare pixels with a tolerance of 20.",
 [W, E, H], [("write_block/write_dc/write_ac_block/get_code", W), ("write_bits, write_bit_buffer, finalize_bit_buffer", W), ("block loops in encode_image_interleaved / encode_image_sequential", E)],
 ["bytes of each scan", "coefficients recovered by an independent decoder"],
 [("bit_buffer/free_bits", "pending bits not yet written", W), ("prev_dc", "DC predictor per component", E)], INJ)
prop("C04", "Progressive scans transmit every coefficient exactly once",
 "With progressive encoding and any permitted scan count n, each component gets one DC scan and n-1 AC scans whose spectral bands are non-empty, legal, do not overlap and together cover coefficients 1 to 63. Decoding all scans yields exactly the quantized coefficients of every block, the same as sequential encoding would transmit.",
 ["inputs", "configurations"], "for every scan count from 2 to 64, every component layout, every coefficient content",
 "Only the default of 4 scans is ever tested; 62 of the 63 permitted values are never run.",
 [E, W], [("encode_image_progressive", E), ("write_ac_block(start,end)", W)], ["scan headers", "decoded coefficients"], hook=INJ)
prop("C05", "Restart markers divide every scan exactly at the configured interval",
 "With restart interval N, every scan has a restart marker after each N MCUs except after the last MCU, numbered 0,1,...,7,0,... from the start of that scan, each preceded by byte alignment with 1-bits; with no interval set there are none. DC prediction of all components restarts at zero after each marker, so every interval decodes on its own.",
 ["inputs", "configurations"], "for every restart interval, image size, sampling factor, scan type (interleaved, sequential, progressive DC and AC, optimized tables)",
 "Three tests use interval 32 on one image size; marker numbering beyond one wrap, intervals larger than the scan, interval 1, four-component images and the combination with optimized tables are not run.",
 [E, W], [("restarts/restarts_to_go in the four block loops", E), ("finalize_bit_buffer", W)], ["positions and numbers of RSTn in each scan", "decoded coefficients"],
 [("restarts, restarts_to_go", "marker number and MCUs left in the interval", E)], INJ)
prop("C06", "Huffman tables are valid and cover every symbol that is coded",
 "Every Huffman table in a stream, default or optimized, is a proper prefix code: code lengths 1 to 16, no code consisting only of 1-bits, no repeated symbol, symbol count equal to the length counts. An optimized table gives a code to every symbol that occurs in the statistics of the image, for any statistics with at least one symbol, and building it never fails. Every symbol the default tables have to provide for baseline data has a code.",
 ["inputs", "configurations"], "for every symbol statistics (frequency vector) and every image",
 "Three optimized-table tests see three statistics; code-length limiting to 16 bits, ties and degenerate statistics are not reached.",
 [H, E], [("HuffmanTable::new_optimized, create_lookup_table", H), ("optimize_huffman_table", E)], ["DHT segments", "table returned for a frequency vector"], hook="huffman table construction from a frequency vector (cfg jpeg_encoder_verif)")
prop("C07", "Quantization tables in the stream are those applied, and rounding is tight",
 "The table written for each component is the selected table scaled by the IJG quality formula and limited to 1..255 (quality outside 1..100 is treated as the nearest bound; a custom table is used unscaled, limited to 1..255), in zig-zag order. Each quantized coefficient, multiplied by its table entry, differs from the transform output by at most 2/3 of that entry, for every output the transform can have (up to 8200 in units of 1/8), with the same result for a value and its negative up to sign.",
 ["inputs", "configurations"], "for every quality 0..255, each of the 9 built-in table types and any custom table, every coefficient value and index",
 "Unit tests cover quality 100 with the default tables only; division by reciprocal multiplication can be wrong for single divisor/value pairs.",
 [Q, W, E], [("get_with_quality, get_user_table, compute_reciprocal, quantize", Q), ("write_quantization_segment", W), ("Operations::quantize_block", E)], ["DQT segments", "decoded coefficients"], hook=INJ)
prop("C08", "The forward DCT is accurate for every block",
 "For every 8x8 block of samples each transform output (in units of 1/8) is within 2.5 units of the exact real-valued DCT, i.e. within a third of a quantization step at best quality. A constant block gives an exact DC value and zero AC, and no quantized coefficient leaves the range baseline JPEG can code (11-bit DC differences, 10-bit AC).",
 ["inputs"], "for all 256^64 blocks of 8-bit samples, scalar and AVX2 transform",
 "One test compares two blocks with recorded outputs; an error in one constant, one rounding or one saturation shows only for particular blocks.",
 [F, A1], [("fdct", F), ("fdct_avx2", A1)], ["transform output (benchmark feature exports)"])
prop("C09", "RGB to YCbCr conversion is accurate for every colour",
 "For every 8-bit RGB triple the public conversion gives Y, Cb and Cr within one unit of the exact JFIF formulas (after rounding), never wraps around, and maps every grey (v,v,v) to (v,128,128). The CMYK conversion gives the same three values for (C,M,Y) and 255-K.",
 ["inputs"], "for all 2^24 RGB and 2^32 CMYK values",
 "Tests sample about 90 RGB triples and no CMYK values.",
 [I], [("rgb_to_ycbcr, cmyk_to_ycck", I)], ["return values of the public functions"])
prop("C10", "Equivalent pixel formats give identical streams",
 "The same picture supplied as RGB, BGR, RGBA or BGRA gives byte-identical streams whatever the alpha bytes are; converting it first with the public conversion and supplying YCbCr gives the same scan data, and the same holds for CMYK converted to YCCK. CMYK samples are stored inverted, YCCK, YCbCr and grey samples unchanged. Bytes after the last pixel have no effect.",
 ["inputs", "configurations"], "for every picture, size, sampling mode, trailing data and alpha content",
 "Each format is tested with one image and compared only to within 20 levels; swapped channels in one row position, alpha dependence or reads past the pixels are not excluded.",
 [I, A2, E], [("ycbcr_image!/CmykImage/YcckImage fill_buffers", I), ("fill_buffers_avx2", A2)], ["bytes written by encode for each ColorType"], hook=INJ)
prop("C11", "Every block holds the right pixels; edges are replicated",
 "Component i is sampled at every (Hmax/Hi, Vmax/Vi)-th pixel, and sample (x,y) of its block grid is the pixel at (x*Hmax/Hi, y*Vmax/Vi) with coordinates beyond the picture replaced by the last column and row. Blocks are transmitted in the order and number JPEG defines: MCU order with complete MCUs in interleaved scans, ceil-sized raster order in single-component scans.",
 ["inputs", "configurations"], "for every width and height (not only multiples of the MCU), every sampling factor, colour type and mode, all pixel values",
 "Tests use sizes 258x128 and 258x192 with smooth content, for which a wrongly replicated edge or a shifted block stays within the tolerance.",
 [E, I], [("encode_image_interleaved, encode_blocks, get_block", E)], ["decoded coefficients under an identity transform"], hook=INJ)
prop("C12", "Application segments and ICC profiles are embedded intact",
 "Every application segment added appears after the JFIF (and Adobe) header in the order added, with its number and exact data. An ICC profile of any length up to 255*65519 = 16,707,345 bytes appears as consecutively numbered APP2 chunks, each carrying the total count, whose data concatenates to the profile; longer profiles are refused with the documented error.",
 ["inputs", "configurations"], "for every segment number 1..15, data length 0..65533, sequence of segments, ICC length",
 "One segment of 7 bytes and one ICC profile of 128 KiB are tested; the limits of both are not.",
 [E, W], [("add_app_segment, add_icc_profile", E), ("write_segment", W)], ["APPn segments in the stream"])
prop("C13", "Invalid arguments are rejected with the documented error",
 "Too little pixel data gives BadImageData with the supplied and required lengths, a zero width or height gives ZeroImageDimensions (unless the data check failed first), segment numbers outside 1..15 give InvalidAppSegment and more than 65533 bytes AppSegmentTooLarge; in all these cases nothing reaches the writer and no partial state is kept. Exactly the required amount of data, or more, is accepted.",
 ["inputs"], "for every width, height, data length, colour type, segment number and segment length",
 "No test covers any error path.",
 [E, "src/error.rs"], [("encode: required_data_len", E), ("encode_image_internal: zero check", E), ("add_app_segment", E)], ["returned error and bytes written"])
prop("C14", "Write failures are reported and never hidden",
 "If the writer fails at any point, encode returns that error, does not panic and writes nothing more; what was written before is a prefix of the stream a working writer would have received. Success is returned only if every byte was accepted by the writer and, for std writers, flushed; short writes and interrupted writes do not change the stream.",
 ["fault_sequences", "inputs"], "for a failure at every single write call, every pattern of short or interrupted writes, every mode",
 "No test uses a failing or short-writing sink.",
 [W, E, "src/error.rs"], [("JfifWrite for std::io::Write, ? propagation", W), ("encode_image_internal", E)], ["result of encode and calls received by the sink"])
prop("C15", "SIMD and scalar encoders produce identical streams",
 "With the simd feature on an AVX2 machine, the transform of every block and the colour conversion of every row equal those of the portable code, so that encode writes byte-for-byte the same stream whether or not AVX2 is used.",
 ["inputs", "configurations"], "for every block of 8-bit samples, every row content and width, every pixel format and mode",
 "The suite runs the same fixed images in both builds but never compares the outputs with each other.",
 [A1, A2, F, I, "src/avx2.rs"], [("fdct_avx2 vs fdct", A1), ("fill_buffers_avx2 vs fill_buffers", A2), ("dispatch in encode/encode_image", E)], ["transform outputs", "bytes written"], hook=INJ)
prop("C16", "Unsafe SIMD code stays inside its buffers",
 "The AVX2 code paths read only the pixel bytes the caller supplied and write only memory the encoder allocated for the row and block buffers, and never expose uninitialised memory, for every image the API accepts; an implementation of ImageBuffer outside the crate that supplies wrong numbers of samples causes a panic or a wrong picture at worst.",
 ["inputs", "configurations"], "for every width and height, pixel format, sampling factor and mode, with the input slice exactly as long as required",
 "Out-of-bounds accesses by raw pointers usually go unnoticed in tests; the fixed width 258 exercises one tail length.",
 [A2, A1], [("fill_buffers_avx2: set_len and raw pointer loops", A2), ("init_rows capacity", E)], ["every load and store of the simd build"], [("buffer capacity", "rows * padded width allocated by init_rows", E)])
prop("C17", "Valid input is always encoded, without panic or overflow",
 "For every image with the required data and non-zero size and every configuration the setters accept, encoding to a working writer returns success: no panic, arithmetic overflow, out-of-range index or failed assertion, in any build profile.",
 ["inputs", "configurations"], "for all pixel contents, sizes, colour types, sampling factors, qualities, tables, restart intervals, scan counts and Huffman options in any combination",
 "The configuration space has millions of combinations, the tests run about 20.",
 [E, W, H, Q, I], [("all encoder paths; debug assertions in get_for_value, encode_blocks", E)], ["result of encode"], hook=INJ)
prop("C18", "Coding options change the coding, never the picture",
 "Optimized Huffman tables, progressive mode, the number of scans, restart intervals, extra segments and density do not change the quantized coefficients: decoding gives the same coefficient blocks and quantization tables as plain sequential encoding of the same picture with the same sampling and quality.",
 ["inputs", "configurations"], "for every picture and every pair of option settings",
 "Tests compare each mode with the source picture to within 20 levels, not the modes with each other.",
 [E, H], [("encode_image_interleaved vs encode_blocks", E), ("optimize_huffman_table", E)], ["decoded coefficient blocks of both streams"], hook=INJ)
prop("C19", "Custom image buffers are used as documented",
 "Encoding through a user ImageBuffer gives the same stream as encode on the same samples. Rows are only requested inside 0..height, each row block of the picture in ascending order, with buffers in which the implementation only appends, and only as many component buffers are used as the colour type has.",
 ["inputs", "configurations"], "for every size, sampling factor, mode, colour type and sample content",
 "No test implements ImageBuffer.",
 [E, I], [("fill_buffers calls in encode_image_interleaved and encode_blocks", E)], ["calls received by the ImageBuffer", "bytes written"], hook=INJ)
prop("C20", "Settings behave as documented",
 "Getters return what the setters stored; a restart interval of 0 means none; progressive mode defaults to 4 scans and scan counts outside 2..=64 panic while all others are accepted; qualities below 90 default to 4:2:0 and others to 4:4:4. Factors are available exactly for the pairs (1|2|4, 1|2|4) except (4,4), and every factor, including the aliases, selects the layout its name says.",
 ["inputs", "configurations"], "for every argument value of every setter",
 "The tests check sampling_factors and set_progressive at single values.",
 [E], [("setters and getters of Encoder, SamplingFactor::from_factors", E)], ["getter results", "frame header"])
prop("C21", "Encoders are independent of each other and of earlier encodings",
 "The stream an encoder writes depends only on its own settings, the segments added to it and its picture. Encodings done before in the same process or thread (whatever their settings, and whether they succeeded, failed in the writer or were refused), encoders that exist at the same time, and an encoder that runs inside an ImageBuffer or writer of another one do not change it: repeating an encoding gives the same bytes, and they are those a new process writes.",
 ["histories", "inputs", "configurations"], "for every pair of encodings, in any order, repeated, interleaved or nested, with any outcome of the first",
 "Each test encodes one picture with one encoder and the tests share nothing; caches, pools and counters that outlive an encoder would show only in sequences of different encodings.",
 [E, W, H, Q, I], [("Encoder::new, encode_image_internal: all state belongs to the encoder", E), ("JfifWriter", W), ("table construction", Q), ("default and optimized tables", H)], ["bytes written by several encoders in one process"], hook=INJ)
prop("C22", "Default tables are the standard's, optimized tables fit the image",
 "Unless optimized Huffman tables are requested, the Huffman tables of a stream are those of Annex K of the standard, whatever the picture, the mode, the colour type and the sampling factor. If they are requested, each table is made from what the scans of this picture really code: no symbol that does not occur has a code, and as long as no code has to be limited to 16 bits the codes are as short as those of an optimal prefix code (with the all-ones code left free) for the numbers of occurrences in the stream.",
 ["inputs", "configurations"], "for every block content, restart interval, scan count and component layout; statistics as far as the bounds say",
 "Tests with optimized tables decode the picture; they pass with statistics that miss or invent symbols as long as each coded symbol has some code, and with tables that are no better than the default ones.",
 [E, H], [("optimize_huffman_table: statistics of DC and AC symbols", E), ("HuffmanTable::new_optimized: code lengths", H), ("encode_image_sequential, encode_image_progressive: optimization only if requested", E)], ["DHT segments", "symbols in the entropy-coded segments"], hook=INJ)
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
