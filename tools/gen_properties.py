#!/usr/bin/env python3
"""Source of truth for /verif/properties.jsonl (run me after editing)."""
import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
I="crates/"
# ---------------------------------------------------------------- inflate
p("C01","Decompression returns exactly the original bytes",
"Decompressing any valid raw DEFLATE, zlib or gzip stream returns exactly the bytes that were compressed, whatever compressor, level, strategy, block types, match distances or data shape produced it. The result does not depend on the size hint, and an output limit at or above the true size never changes it.",
["inputs","configurations"],"all payloads, all valid encodings of them (stored/fixed/dynamic blocks, any window distance, gzip header options), all size hints and limits >= size",
"Two unit tests decode one fixed zlib file; code tables, match copies, refills and buffer growth depend on the bits of every stream.",
[I+"zune-inflate/src/decoder.rs",I+"zune-inflate/src/bitstream.rs",I+"zune-inflate/src/utils.rs"],
[("DeflateDecoder::decode_deflate / start_deflate_block","crates/zune-inflate/src/decoder.rs"),("build_decode_table","crates/zune-inflate/src/decoder.rs"),("copy_rep_matches, fixed_copy_within","crates/zune-inflate/src/utils.rs")],["return value of decode_zlib/decode_gzip/decode_deflate"])
p("C02","Damaged compressed streams are refused, and output limits are honoured",
"When checksum confirmation is on, a zlib or gzip stream whose decoded bytes do not match its stored checksum is reported as an error, and a stream that is truncated or uses invalid headers, block types, code tables or distances is always reported as an error, never as success with wrong bytes. When an output limit is set, decoding a stream that expands well past it ends in an error without producing much more than the limit.",
["inputs","configurations"],"all corruptions (bit flips, truncations, header/trailer edits) of valid streams, all limits",
"No test feeds a corrupt stream; error detection must hold for every damaged stream.",
[I+"zune-inflate/src/decoder.rs",I+"zune-inflate/src/crc.rs",I+"zune-inflate/src/utils.rs"],
[("adler/crc comparison","decode_zlib, decode_gzip in crates/zune-inflate/src/decoder.rs"),("limit checks","start_deflate_block"),("DecodeErrorStatus","crates/zune-inflate/src/errors.rs")],["Result of decode_*"])
p("C03","Compressed output decompresses back to the input",
"Whatever bytes are given to the zlib compressor, at whatever length, its output is a well-formed zlib stream with a correct checksum that independent decompressors and this library's own decompressor expand to exactly those bytes.",
["inputs"],"all byte strings, especially lengths around the 65535-byte stored-block boundary",
"Tests do not decode the encoder's output across block boundaries.",
[I+"zune-inflate/src/encoder.rs"],[("DeflateEncoder::encode_zlib","crates/zune-inflate/src/encoder.rs")],["Vec returned by encode_zlib"])
# ---------------------------------------------------------------- decoders
p("D01","PNG decoding reproduces every pixel exactly",
"For every valid PNG (all colour types, bit depths, filter types, Adam7 interlacing, palettes and transparency keys, any chunking of the data stream) the decoder returns exactly the pixels, colour space and depth the PNG specification defines. The options that strip 16-bit samples to 8, that add an alpha channel and that change 16-bit byte order transform exactly that result and nothing else.",
["inputs","configurations"],"all valid PNGs x decoder options",
"Tests hash a fixed set of sample files, mostly with default options, so filter/depth/interlace/width combinations are sampled once at best.",
[I+"zune-png/src/decoder.rs",I+"zune-png/src/filters.rs",I+"zune-png/src/filters/",I+"zune-png/src/utils.rs"],
[("create_png_data_raw / decode_interlaced","crates/zune-png/src/decoder.rs"),("handle_avg/handle_paeth/handle_sub/handle_up","crates/zune-png/src/filters.rs"),("expand_palette, expand_trns, expand_bits_to_byte, add_alpha","crates/zune-png/src/utils.rs")],["PngDecoder::decode"])
p("D02","PNG damage is detected",
"With checksum confirmation on, a PNG in which any byte of a critical chunk has been altered or in which the image data is cut short is never returned as a successfully decoded image that differs from the original. With checksum confirmation off, a PNG whose only damage is wrong stored chunk checksums decodes to the original image.",
["inputs","configurations"],"all single-byte and burst corruptions and truncations of valid PNGs, with confirm on/off",
"No test corrupts a PNG; detection must hold wherever the damage lands.",
[I+"zune-png/src/decoder.rs",I+"zune-png/src/headers/readers.rs"],[("chunk crc comparison","PngDecoder::read_chunk_header / decode_headers"),("inflate checksum","inflate in crates/zune-png/src/decoder.rs")],["PngDecoder::decode Result"])
p("D03","Animated PNG frames are decoded and composited exactly",
"For every valid animated PNG the decoder reports the stored frame count and per-frame size, offset, delay, dispose and blend values, and yields every frame's pixels exactly. Compositing the frames in order onto the canvas with the library's post-processing gives, for each frame, the canvas the APNG specification defines for that frame's offset, blend and preceding dispose operation.",
["inputs","histories"],"all frame sequences (sizes, offsets, blend and dispose operations, colour types)",
"Two sample animations are decoded without checking pixels.",
[I+"zune-png/src/apng.rs",I+"zune-png/src/decoder.rs",I+"zune-image/src/codecs/png.rs"],[("post_process_image, blend_buffer","crates/zune-png/src/apng.rs"),("fcTL/fdAT parsing","crates/zune-png/src/headers/readers.rs"),("frame loop","crates/zune-image/src/codecs/png.rs")],["PngDecoder::frame_info, decode_raw, post_process_image"])
p("D04","JPEG decoding matches the standard within rounding",
"For every valid baseline or progressive Huffman-coded JPEG (any quality, size, component count, restart interval, scan script or marker padding; first component sampled at the highest rate, horizontal factors 1, 2 or 4, chroma stored once per MCU row) the decoder returns an image of the coded size whose samples differ from those of independent reference decoders by no more than IDCT, upsampling and colour-conversion rounding.",
["inputs","configurations"],"all JPEGs emitted by independent encoders over sizes 1..N, subsamplings, qualities, restart intervals, progressive scripts",
"Hash tests pin a few dozen sample files; MCU edges, restarts, upsampling strips and scan scripts combine in far more ways.",
[I+"zune-jpeg/src/decoder.rs",I+"zune-jpeg/src/mcu.rs",I+"zune-jpeg/src/mcu_prog.rs",I+"zune-jpeg/src/bitstream.rs",I+"zune-jpeg/src/huffman.rs",I+"zune-jpeg/src/worker.rs",I+"zune-jpeg/src/upsampler.rs",I+"zune-jpeg/src/idct.rs",I+"zune-jpeg/src/color_convert.rs"],
[("decode_mcu_ycbcr_baseline","crates/zune-jpeg/src/mcu.rs"),("decode_mcu_ycbcr_progressive","crates/zune-jpeg/src/mcu_prog.rs"),("upsample, color_convert","crates/zune-jpeg/src/worker.rs")],["JpegDecoder::decode"])
p("D05","JPEG output layouts are views of the same image",
"Decoding the same JPEG into RGB, RGBA, BGR, BGRA or any other supported output colour space yields the same colours merely re-laid-out: alpha is fully opaque, BGR is RGB with channels swapped, and luma output equals the coded luma plane. An output colour space that is not supported for the input is reported as an error and never yields a wrong image.",
["inputs","configurations"],"all JPEGs x all output colour spaces",
"Tests compare a few files in one or two layouts.",
[I+"zune-jpeg/src/worker.rs",I+"zune-jpeg/src/color_convert.rs",I+"zune-jpeg/src/decoder.rs"],[("color_convert","crates/zune-jpeg/src/worker.rs"),("choose_ycbcr_to_rgb_convert_func","crates/zune-jpeg/src/color_convert.rs")],["JpegDecoder::decode with jpeg_set_out_colorspace"])
p("D06","Embedded metadata is reported bit for bit",
"Metadata embedded in a PNG or JPEG (EXIF, ICC profile including one split over several segments, XMP, IPTC, text entries, gamma, chromaticity, physical size, time, sRGB intent) is reported by the decoder exactly as stored. Absent metadata is reported as absent, and unknown or malformed optional metadata never changes the decoded pixels.",
["inputs"],"all metadata payloads, sizes, orders and multiplicities that fit the container",
"A handful of files with fixed metadata are tested.",
[I+"zune-jpeg/src/headers.rs",I+"zune-jpeg/src/decoder.rs",I+"zune-png/src/headers/readers.rs",I+"zune-png/src/decoder.rs"],[("parse_app1/parse_app2/parse_app13","crates/zune-jpeg/src/headers.rs"),("JpegDecoder::icc_profile","crates/zune-jpeg/src/decoder.rs"),("parse_exif/iccp/text/itxt/ztxt","crates/zune-png/src/headers/readers.rs")],["info(), icc_profile(), exif(), xmp()"])
p("D07","QOI decoding reproduces every pixel exactly",
"For every valid QOI stream the decoder returns exactly the pixels, channel count and colour-space tag the QOI specification defines, whichever mix of index, diff, luma, run and literal operations encodes them. A stream that ends before all pixels are coded, or that lacks the end marker in strict mode, is never returned as a correct image.",
["inputs","configurations"],"all operation sequences, 3 and 4 channels, all sizes",
"There is no pixel-level QOI test.",
[I+"zune-qoi/src/decoder.rs"],[("decode_inner / decode_into","crates/zune-qoi/src/decoder.rs")],["QoiDecoder::decode"])
p("D08","Netpbm decoding reproduces every sample exactly",
"For every valid binary PGM, PPM, PAM or PFM stream (any header whitespace and comments, 8- or 16-bit maxval, 1 to 4 channels, either PFM byte order) the decoder returns exactly the stored samples, size, depth and channel layout.",
["inputs"],"all header layouts, sizes and sample values",
"There is one probe test; sample bytes and header layouts are unconstrained.",
[I+"zune-ppm/src/decoder.rs"],[("decode_p5_and_p6_header, decode_p7_header, decode_pfm_header","crates/zune-ppm/src/decoder.rs"),("decode_into","crates/zune-ppm/src/decoder.rs")],["PPMDecoder::decode"])
p("D09","Farbfeld and Radiance HDR decoding is exact",
"For every valid farbfeld stream the decoder returns exactly the stored 16-bit RGBA samples, and for every valid Radiance HDR stream (flat, old run-length or new run-length encoded, any exponent) it returns the colour values the RGBE encoding defines, together with the header's size and key/value pairs.",
["inputs"],"all sizes, sample values, RGBE exponents and run-length packings",
"No pixel-level tests exist for either format.",
[I+"zune-farbfeld/src/decoder.rs",I+"zune-hdr/src/decoder.rs"],[("FarbFeldDecoder::decode_into","crates/zune-farbfeld/src/decoder.rs"),("HdrDecoder::decode_into, convert_scanline, ldexp","crates/zune-hdr/src/decoder.rs")],["decode()"])
p("D10","BMP decoding reproduces every pixel exactly",
"For every valid BMP (1/2/4/8-bit palettes, 16/24/32-bit, bit-field masks, RLE4/RLE8 with deltas and absolute runs, top-down or bottom-up, any width with row padding, any header version) the decoder returns exactly the pixels and colour layout the format defines (a channel whose mask is not eight bits wide is scaled to eight bits within one level).",
["inputs"],"all widths 1.., depths, masks, run-length programs, header versions",
"Tests hash a few sample files.",
[I+"zune-bmp/src/decoder.rs"],[("decode_into, decode_rle, expand_palette","crates/zune-bmp/src/decoder.rs")],["BmpDecoder::decode"])
p("D11","PSD merged image is decoded exactly",
"For every valid flattened PSD the decoder returns exactly the merged image's samples in the documented channel order, for uncompressed 8- and 16-bit and run-length coded 8-bit images, in grayscale, RGB, RGB with alpha (whose white matte is removed from partially transparent pixels) and CMYK, whatever resources and layers precede the image data and however many extra channels a grayscale file has.",
["inputs"],"all sizes, channel counts, depths, packings",
"Two sample files are hashed.",
[I+"zune-psd/src/decoder.rs"],[("decode_raw / psd_decode_rle","crates/zune-psd/src/decoder.rs")],["PSDDecoder::decode"])
p("D12","Strict mode only narrows what is accepted, and lenience keeps what is intact",
"For any bytes in any format, whatever a decoder accepts with set_strict_mode(true) the default decoder accepts too and returns the same image, and it never refuses a conforming file that the default accepts. Departures the decoders tolerate by default leave the image unchanged and are refused in strict mode: stray bytes between JPEG header segments, a missing JPEG end marker, an unknown QOI colour-space byte or wrong QOI end bytes, a BMP palette with an impossible colour count or run-length data without an end code, PNG gAMA/tIME/eXIf chunks of the wrong form and wrong PNG chunk checksums. A JPEG whose coded data is cut, ended early or overwritten after a finished MCU row (sequential, with restart markers) or scan (progressive, from the third scan on) still decodes by default, with every row, respectively scan, finished before the damage intact; cut files are refused in strict mode.",
["inputs"],"all files, damage positions and tolerated departures",
"The tests decode a few shipped damaged files without looking at the rows that were intact, and hardly run strict mode.",
[I+"zune-jpeg/src/mcu.rs",I+"zune-jpeg/src/mcu_prog.rs",I+"zune-core/src/options/decoder.rs"],[("decode_mcu_ycbcr_baseline, handle_stream","crates/zune-jpeg/src/mcu.rs"),("decode_mcu_ycbcr_progressive","crates/zune-jpeg/src/mcu_prog.rs"),("set_strict_mode","crates/zune-core/src/options/decoder.rs"),("decode_rle","crates/zune-bmp/src/decoder.rs"),("parse_gama, parse_time, parse_exif","crates/zune-png/src/headers/readers.rs")],["decode() in strict and default mode"])
# ---------------------------------------------------------------- encoders
p("E01","PNG encoding is lossless and standard-conforming",
"Encoding any image (any supported colour space, 8 or 16 bits, any size, with or without metadata) as PNG produces a file that independent PNG decoders and this library decode to exactly the same pixels, size, depth and colour type, with correct chunk structure and checksums. Unsupported inputs are reported as errors.",
["inputs","configurations"],"all images x encoder options",
"The encoder's tests do not decode what they write with another implementation.",
[I+"zune-png/src/encoder.rs",I+"zune-png/src/headers/writers.rs",I+"zune-image/src/codecs/png.rs"],[("PngEncoder::encode, write_chunk","crates/zune-png/src/encoder.rs"),("writers","crates/zune-png/src/headers/writers.rs")],["encoded bytes"])
p("E02","QOI, Netpbm, farbfeld and HDR encoders round-trip",
"Encoding any supported image as QOI, PPM/PGM/PAM/PFM or farbfeld produces a file that conforms to the format and that both an independent decoder and this library decode to exactly the same samples, size and layout; Radiance HDR reproduces every colour to the precision its shared exponent allows. Unsupported inputs and buffers of the wrong length are reported as errors, never written out as a bad file.",
["inputs","configurations"],"all images, depths and colour spaces the encoders accept",
"Only one or two tiny buffers are encoded in tests.",
[I+"zune-qoi/src/encoder.rs",I+"zune-ppm/src/encoder.rs",I+"zune-farbfeld/src/encoder.rs",I+"zune-hdr/src/encoder.rs"],[("QoiEncoder::encode","crates/zune-qoi/src/encoder.rs"),("PPMEncoder::encode","crates/zune-ppm/src/encoder.rs"),("HdrEncoder::encode, float2rgbe, rle","crates/zune-hdr/src/encoder.rs")],["encoded bytes"])
p("E03","JPEG XL encoding is lossless",
"Encoding any grayscale, grayscale-alpha, RGB or RGBA image of 8 or 16 bits as JPEG XL, at any supported effort and thread count, produces a bitstream that an independent JPEG XL decoder expands to exactly the same samples and size.",
["inputs","configurations","schedules"],"all images, sizes across the 256-pixel group boundary, efforts, thread counts",
"The encoder's tests never decode the output.",
[I+"zune-jpegxl/src/encoder.rs",I+"zune-jpegxl/src/bit_depth.rs",I+"zune-jpegxl/src/bit_writer.rs"],[("JxlSimpleEncoder::encode, prepare_frame, write_*","crates/zune-jpegxl/src/encoder.rs")],["encoded bytes"])
# ---------------------------------------------------------------- robustness
p("R01","Decoders never panic or hang on any input",
"Reading arbitrary bytes as any supported image or compressed format, with any documented decoder options, ends in a result or an error within time bounded by the input size and the image dimensions it is allowed to decode. It never panics, aborts, overflows the stack or loops forever, and this includes calling the header, metadata and size accessors in any order before or after decoding.",
["inputs","configurations"],"all byte strings (structure-aware mutations of valid files of every format) x options",
"A few fuzz regressions are replayed; the guarantee is about all inputs.",
[I+"zune-jpeg/src",I+"zune-png/src",I+"zune-bmp/src",I+"zune-psd/src",I+"zune-qoi/src",I+"zune-ppm/src",I+"zune-hdr/src",I+"zune-farbfeld/src",I+"zune-gif/src",I+"zune-inflate/src"],
[("bounds and header checks in every decoder","decode_headers / decode of each decoder"),("progress guarantees of entropy loops","crates/zune-jpeg/src/mcu.rs, crates/zune-inflate/src/decoder.rs")],["Result of every decoder entry point"])
p("R02","Decoding and processing are memory-safe",
"No input bytes, image dimensions, options or sequence of safe API calls ever make the library read or write outside its buffers, use freed or uninitialised memory, or otherwise commit undefined behaviour.",
["inputs","configurations","histories"],"all inputs and safe call sequences through decoders, encoders, conversions and image operations",
"Tests run without sanitizers on well-formed inputs.",
[I+"zune-jpeg/src/idct/avx2.rs",I+"zune-jpeg/src/color_convert/avx.rs",I+"zune-png/src/filters/sse4.rs",I+"zune-imageprocs/src",I+"zune-image/src/channel.rs",I+"zune-image/src/deinterleave"],
[("unsafe SIMD kernels","crates/zune-jpeg/src, crates/zune-png/src/filters, crates/zune-imageprocs/src"),("Channel raw allocation","crates/zune-image/src/channel.rs"),("unsafe reslices","crates/zune-image/src")],["AddressSanitizer and Miri reports"])
p("R03","Dimension limits are enforced before memory is committed",
"A file whose declared width or height exceeds the configured maximum is rejected with an error by every decoder, and no decoder allocates memory out of proportion to the file size plus the pixels those limits allow. A file within the limits is never rejected because of them.",
["inputs","configurations"],"all declared sizes x limits x formats",
"Limits are never exercised by tests.",
[I+"zune-core/src/options/decoder.rs",I+"zune-png/src/headers/readers.rs",I+"zune-jpeg/src/headers.rs",I+"zune-bmp/src/decoder.rs",I+"zune-psd/src/decoder.rs",I+"zune-qoi/src/decoder.rs",I+"zune-ppm/src/decoder.rs",I+"zune-hdr/src/decoder.rs",I+"zune-farbfeld/src/decoder.rs",I+"zune-gif/src/decoder.rs"],
[("max_width/max_height comparisons","decode_headers of each decoder")],["Result and allocator peak"])
p("R04","Decoding into a caller buffer equals plain decoding",
"For every format, decoding into a caller-supplied buffer of at least the reported output size writes exactly the bytes plain decoding returns, touches nothing beyond them, and fails with an error when the buffer is too small. The reported output size always equals the length of the plain decoding result.",
["inputs","configurations"],"all valid files x buffer lengths (short, exact, long)",
"No test uses undersized or oversized buffers.",
[I+"zune-jpeg/src/decoder.rs",I+"zune-png/src/decoder.rs",I+"zune-bmp/src/decoder.rs",I+"zune-qoi/src/decoder.rs",I+"zune-ppm/src/decoder.rs",I+"zune-hdr/src/decoder.rs",I+"zune-farbfeld/src/decoder.rs"],[("decode_into","each decoder"),("output_buffer_size","each decoder")],["buffer contents with canaries"])
p("R05","Header queries agree with the decoded image",
"For every valid file, reading only the headers reports the same width, height, colour space and depth that full decoding then delivers, calling the header reader repeatedly or before decoding changes nothing, and decoding with the same options twice gives identical results. Before the headers are read the size and colour-space queries report nothing.",
["inputs","histories"],"all valid files x call orders",
"Tests call decode once.",
[I+"zune-jpeg/src/decoder.rs",I+"zune-png/src/decoder.rs",I+"zune-bmp/src/decoder.rs",I+"zune-psd/src/decoder.rs",I+"zune-image/src/codecs"],[("decode_headers, dimensions, colorspace, depth accessors","each decoder"),("DecoderTrait::read_headers","crates/zune-image/src/codecs/*.rs")],["accessors"])
p("R06","Results do not depend on how the bytes are supplied",
"Decoding the same file from a slice, an owned cursor, a buffered or unbuffered reader, a file, or a reader that returns short or interrupted reads gives the same pixels, metadata and success or failure.",
["inputs","fault_sequences"],"all files x reader behaviours (chunk sizes, interrupted reads)",
"Tests almost always decode from in-memory slices.",
[I+"zune-core/src/bytestream/reader",I+"zune-core/src/bytestream/reader/std_readers.rs",I+"zune-core/src/bytestream/reader/no_std_readers.rs"],[("ZByteReaderTrait implementations","crates/zune-core/src/bytestream/reader/std_readers.rs"),("ZReader","crates/zune-core/src/bytestream/reader.rs")],["decode results per source"])
p("R07","Read faults and truncation surface as errors",
"If the byte source fails at any point, or the file ends early at any byte, decoding returns an error or, where the format's leniency documents it, a partial image of the full declared size; it never panics, never hangs, and never reports a strict-mode success for a file whose image data is incomplete.",
["inputs","fault_sequences","crash_points"],"every fault position in every file x strictness",
"No test injects read failures; truncation points are not enumerated.",
[I+"zune-core/src/bytestream/reader/std_readers.rs",I+"zune-png/src/decoder.rs",I+"zune-jpeg/src/decoder.rs"],[("error propagation from ZReader","every decoder"),("strict_mode handling","each decoder")],["Result per fault point"])
p("R08","Write faults and small output buffers surface as errors",
"If the output sink fails or runs out of room at any byte, every encoder returns an error rather than panicking or reporting success for an incomplete file. When an encoder reports success, the reported number of bytes equals the bytes delivered, and they are the same bytes for every kind of sink.",
["inputs","fault_sequences"],"every fault position for every encoder and sink type",
"No test injects write failures.",
[I+"zune-core/src/bytestream/writer.rs",I+"zune-png/src/encoder.rs",I+"zune-ppm/src/encoder.rs",I+"zune-qoi/src/encoder.rs",I+"zune-hdr/src/encoder.rs",I+"zune-farbfeld/src/encoder.rs",I+"zune-jpegxl/src/encoder.rs"],[("ZByteWriterTrait and ZWriter","crates/zune-core/src/bytestream/writer.rs"),("reserve / write_all error propagation","each encoder")],["Result per fault point"])
p("R09","SIMD and scalar paths agree",
"Turning platform-specific acceleration off or on, through options or build features, never changes the result of any decoder or image operation beyond the documented rounding of the transform stages; for lossless formats, layout conversions and geometric operations the results are identical.",
["inputs","configurations"],"all inputs x acceleration on/off",
"Tests run whichever path the host selects.",
[I+"zune-core/src/options/decoder.rs",I+"zune-jpeg/src/idct.rs",I+"zune-jpeg/src/color_convert.rs",I+"zune-png/src/filters.rs",I+"zune-imageprocs/src"],[("choose_idct_func, choose_ycbcr_to_rgb_convert_func","crates/zune-jpeg/src"),("DecoderOptions::use_avx2 etc.","crates/zune-core/src/options/decoder.rs"),("de_filter dispatch","crates/zune-png/src/filters.rs")],["pixels"])
p("R10","Byte readers and writers behave like the byte sequence they wrap",
"Every sequence of reads, peeks, skips, rewinds and seeks on a byte reader returns exactly what the same sequence on the underlying byte string would, with endian-correct integers and consistent positions and end-of-data reports; non-error reads past the end yield zeros. Every sequence of writes yields exactly the concatenation of the written bytes.",
["inputs","histories"],"all operation sequences on all reader and writer kinds",
"Unit tests cover single calls.",
[I+"zune-core/src/bytestream/reader.rs",I+"zune-core/src/bytestream/writer.rs",I+"zune-core/src/bytestream/reader/no_std_readers.rs",I+"zune-core/src/bytestream/reader/std_readers.rs"],[("ZReader","crates/zune-core/src/bytestream/reader.rs"),("ZWriter","crates/zune-core/src/bytestream/writer.rs")],["values and positions after each call"])
p("R11","Work finished leaves nothing behind",
"Once a decoding, encoding, conversion, image operation, pipeline or byte-stream call has finished, well or with an error, and its results are dropped, everything it took has been given back: repeating the same work, on the same or other images, does not make the process hold more memory, open files or threads, and never gives back memory it did not take.",
["inputs","histories"],"all library work, on valid and damaged input, repeated",
"A leak or an unbalanced release changes no result of any single test.",
[I+"zune-image/src/channel.rs",I+"zune-image/src/frame.rs",I+"zune-image/src/image.rs",I+"zune-jpegxl/src/encoder.rs",I+"zune-capi/src/image.rs"],[("Channel alloc/realloc/dealloc, Drop","crates/zune-image/src/channel.rs"),("Frame::clone","crates/zune-image/src/frame.rs"),("scoped threads of operations","crates/zune-imageprocs/src")],["bytes, open files and threads held by the process between repetitions"])
p("R12","Builds without the standard library behave the same",
"The decoders, encoders and byte streams built without the standard library (the no_std configuration the crates document) accept and refuse the same files, under the same options, as the ordinary build, with the same pixels, frames, facts and metadata, and write the same files; buffers too small are refused, and nothing panics.",
["inputs","configurations"],"all files and images x both builds",
"The test suite is built with the standard library only.",
[I+"zune-core/src/bytestream/reader/no_std_readers.rs",I+"zune-core/src/bytestream/reader/zcursor_no_std.rs",I+"zune-core/src/bytestream/writer/no_std_writer.rs",I+"zune-png/src",I+"zune-jpeg/src",I+"zune-jpegxl/src"],[("cfg(feature = std) alternatives","crates/*/src"),("ZCursor","crates/zune-core/src/bytestream/reader/no_std_readers.rs")],["samples","errors","files written"])
# ---------------------------------------------------------------- image
p("I01","Planar and interleaved images convert without loss",
"Building an image from interleaved pixels (or from a per-pixel function, or from flat typed buffers) and flattening it again returns exactly the same samples in the same order, for every channel count, depth and size, frame by frame. Per-pixel accessors and mutators address exactly the pixel and channel requested.",
["inputs"],"all pixel buffers, sizes, depths, colour spaces, frame counts",
"Tests use a few fixed sizes; vectorised loops have width-dependent tails.",
[I+"zune-image/src/image.rs",I+"zune-image/src/deinterleave",I+"zune-image/src/frame.rs",I+"zune-image/src/utils.rs"],[("deinterleave_u8/u16/f32","crates/zune-image/src/deinterleave.rs"),("Frame::flatten, Image::flatten_frames","crates/zune-image/src/frame.rs")],["flattened buffers"])
p("I02","Colour-space conversion follows its definition",
"Converting an image between colour spaces changes every pixel by that conversion's definition and nothing else: channel reorders and alpha addition or removal are exact, grayscale is the documented weighted sum, and colour models with an inverse return to the original within rounding. The result has the requested colour space and its channel count, the same size and depth, and alpha is preserved; conversions that are not supported are errors.",
["inputs","configurations"],"all source/target pairs x depths x pixel values",
"A few pairs are tested on constant images.",
[I+"zune-image/src/core_filters/colorspace.rs",I+"zune-image/src/core_filters/colorspace"],[("convert_colorspace / conversion_functions","crates/zune-image/src/core_filters/colorspace")],["image channels after convert_color"])
p("I03","Bit-depth conversion is order-preserving and full-range",
"Converting an image between 8-bit, 16-bit and floating-point depth maps black to black and full scale to full scale, preserves the order of values, and maps every value to within one quantisation step of its proportional equivalent. Widening and narrowing back returns every value unchanged, and size, colour space and frames are preserved.",
["inputs","configurations"],"all 256/65536 values x depth pairs",
"Tests check only a few values.",
[I+"zune-image/src/core_filters/depth.rs"],[("Depth operation and per-pair converters","crates/zune-image/src/core_filters/depth.rs")],["channel contents"])
p("I04","Formats are recognised and saved images reopen unchanged",
"Every file of a supported format is recognised as that format from its first bytes. Saving any image to any lossless format and opening it again returns the same pixels and size (of the first frame), after only the depth and colour-space conversions the format requires; JPEG returns a close approximation. Saving never modifies the image being saved, and a write that fails is reported.",
["inputs","configurations"],"all images x output formats x encoder options",
"Tests only save and load a few samples.",
[I+"zune-image/src/codecs.rs",I+"zune-image/src/codecs",I+"zune-image/src/traits.rs",I+"zune-image/src/image.rs"],[("guess_format","crates/zune-image/src/codecs.rs"),("EncoderTrait::encode conversions","crates/zune-image/src/traits.rs"),("Image::save/open/read","crates/zune-image/src/image.rs")],["reopened image"])
p("I05","Channels behave like growable typed buffers",
"Any sequence of creating, pushing, extending, cloning, comparing, converting and reinterpreting image channels through the safe API behaves like the same sequence on ordinary vectors of the channel's type: contents, lengths and equality agree, type-mismatched access is refused, and memory is never corrupted.",
["histories","inputs"],"all safe call sequences, sizes including zero, growth patterns",
"Unit tests exercise single calls.",
[I+"zune-image/src/channel.rs"],[("Channel alloc/realloc/push/extend/clone","crates/zune-image/src/channel.rs")],["channel contents; sanitizer reports"])
p("I06","Pipelines apply their steps in order and exactly once",
"A pipeline given decoders or images and operations applies each operation to every image exactly once, in the order they were added, and hands out the fully processed images; a failing decode or operation reports an error and later steps do not run.",
["histories","configurations","fault_sequences"],"all pipeline shapes and failing positions",
"One trivial pipeline is tested at most.",
[I+"zune-image/src/pipelines.rs",I+"zune-image/src/traits.rs"],[("Pipeline::advance, advance_to_end","crates/zune-image/src/pipelines.rs")],["event log of probe operations"])
p("I07","Metadata survives processing and saving",
"Opening a PNG, JPEG or BMP file reports the EXIF fields, ICC profile, gamma and format it holds. Operations that do not concern metadata leave an image's EXIF, ICC profile, gamma and other metadata untouched, while size, colour space and depth facts always describe the actual pixels. Saving to PNG or JPEG and reopening returns the EXIF fields unchanged, unless stripping metadata was asked for, which removes them.",
["inputs","configurations","histories"],"all metadata x operation sequences x formats",
"Not tested.",
[I+"zune-image/src/metadata.rs",I+"zune-image/src/image.rs",I+"zune-image/src/codecs/png.rs",I+"zune-image/src/codecs/jpeg.rs"],[("ImageMetadata","crates/zune-image/src/metadata.rs"),("codecs' metadata transfer","crates/zune-image/src/codecs")],["image.metadata()"])
# ---------------------------------------------------------------- concurrency
p("T01","Multithreaded processing is race-free and deterministic",
"Decoding, processing and encoding give identical results whether run on one thread or many, concurrently with other images or alone, and repeated any number of times; concurrent use of the library never races on shared memory.",
["schedules","configurations"],"thread schedules x operations x images",
"Tests run each operation once and compare nothing across schedules; races are invisible without a detector.",
[I+"zune-image/src/traits.rs",I+"zune-imageprocs/src",I+"zune-jpegxl/src/encoder.rs"],[("std::thread::scope workers","crates/zune-imageprocs/src/*.rs, crates/zune-image/src/traits.rs"),("JxlSimpleEncoder thread pool","crates/zune-jpegxl/src/encoder.rs")],["ThreadSanitizer reports; result equality"])
# ---------------------------------------------------------------- ops
p("O01","Every image operation yields a consistent image",
"Whatever operation is applied to whatever valid image (any size from one pixel up, depth, colour space, frame count), the result is an error or a valid image: every channel of every frame holds exactly width times height samples of the reported depth, and the colour space matches the channel count. Operations never panic, and operations on a multi-frame image act on every frame.",
["inputs","configurations"],"all operations x parameters x image shapes",
"Each operation is tested on one or two shapes.",
[I+"zune-imageprocs/src",I+"zune-image/src/traits.rs"],[("OperationsTrait::execute and execute_impl","crates/zune-image/src/traits.rs"),("per-operation execute_impl","crates/zune-imageprocs/src/*.rs")],["image after execute"])
p("O02","Geometric operations move pixels exactly",
"Flip, flop, mirror, transpose, crop, pad, quarter- and half-turn rotations and EXIF orientation correction place every source sample exactly where their definition says, without changing any sample value, for every depth, channel count and size.",
["inputs","configurations"],"all sizes, offsets, modes, depths",
"Tests use tiny or single fixed matrices; SIMD transposes have size-dependent tails.",
[I+"zune-imageprocs/src/flip.rs",I+"zune-imageprocs/src/mirror.rs",I+"zune-imageprocs/src/transpose.rs",I+"zune-imageprocs/src/crop.rs",I+"zune-imageprocs/src/pad.rs",I+"zune-imageprocs/src/rotate.rs",I+"zune-imageprocs/src/auto_orient.rs"],[("flip/flop/mirror/transpose/crop/pad/rotate","crates/zune-imageprocs/src")],["channels after execute"])
p("O03","Neighbourhood filters compute their kernel on every pixel",
"Box blur, Gaussian blur, median, minimum, maximum, mean and other window statistics, convolution, Sobel and Scharr edge filters and the bilateral filter give at every pixel, borders included, the value their kernel defines over the documented edge handling, to within rounding. Constant images stay constant under smoothing filters, and each output pixel depends only on its own window.",
["inputs","configurations"],"all sizes, radii, depths, contents",
"Tests are benchmarks or a single small image.",
[I+"zune-imageprocs/src/box_blur.rs",I+"zune-imageprocs/src/gaussian_blur.rs",I+"zune-imageprocs/src/median.rs",I+"zune-imageprocs/src/spatial.rs",I+"zune-imageprocs/src/spatial_ops.rs",I+"zune-imageprocs/src/convolve.rs",I+"zune-imageprocs/src/sobel.rs",I+"zune-imageprocs/src/scharr.rs",I+"zune-imageprocs/src/bilateral_filter.rs"],[("box_blur, gaussian_blur, median, spatial, convolve, sobel","crates/zune-imageprocs/src")],["channels after execute"])
p("O04","Per-pixel adjustments apply their formula and saturate",
"Brightness, contrast, exposure, gamma, invert, threshold, contrast stretching, HSV adjustment, colour matrix and profile transforms change each sample by exactly their documented formula, saturating at the depth's limits instead of wrapping, equally at every pixel position and without touching alpha unless documented. Neutral parameters leave the image unchanged and inverting twice restores it.",
["inputs","configurations"],"all sample values x parameters x depths",
"Tests check a few values.",
[I+"zune-imageprocs/src/brighten.rs",I+"zune-imageprocs/src/contrast.rs",I+"zune-imageprocs/src/exposure.rs",I+"zune-imageprocs/src/gamma.rs",I+"zune-imageprocs/src/invert.rs",I+"zune-imageprocs/src/threshold.rs",I+"zune-imageprocs/src/stretch_contrast.rs",I+"zune-imageprocs/src/hsv_adjust.rs",I+"zune-imageprocs/src/color_matrix.rs"],[("per-sample kernels","crates/zune-imageprocs/src")],["channels after execute"])
p("O05","Resampling keeps size, range and constants",
"Resizing, arbitrary-angle rotation and affine transforms produce an image of exactly the requested or documented size whose every sample is the named interpolation of the source around the mapped position: resizing in linear light with colour weighted by alpha, rotation and affine transforms bilinear with background outside. A constant image stays constant inside the covered area, and resizing to the same size and the identity transform leave the image unchanged. Composing and inverting transforms act as their names say, and degenerate sizes and matrices are refused.",
["inputs","configurations"],"all source/target sizes x methods x depths",
"One or two sizes are tested.",
[I+"zune-imageprocs/src/resize.rs",I+"zune-imageprocs/src/resize",I+"zune-imageprocs/src/affine.rs",I+"zune-imageprocs/src/rotate.rs"],[("Resize::execute_impl, resampling kernels","crates/zune-imageprocs/src/resize"),("affine_transform_channel","crates/zune-imageprocs/src/affine.rs"),("transfer curves","crates/zune-imageprocs/src/image_transfer/trc.rs")],["channels after execute"])
p("O06","Blending, compositing and alpha premultiplication are exact",
"Blending, compositing, adding and subtracting two images give at each pixel the value of the documented formula, saturating at the depth's limits, and change only the covered region (adding and subtracting leave alpha alone); premultiplying by alpha and undoing it follow their definition to within rounding, restore opaque pixels exactly, and never exceed the depth's range.",
["inputs","configurations"],"all pixel/alpha values, positions, sizes, methods, depths",
"A couple of fixed pixels are tested.",
[I+"zune-imageprocs/src/blend.rs",I+"zune-imageprocs/src/composite.rs",I+"zune-imageprocs/src/premul_alpha.rs",I+"zune-imageprocs/src/mathops.rs",I+"zune-image/src/ops.rs"],[("blend_single_channel","crates/zune-imageprocs/src/blend.rs"),("composite_over etc.","crates/zune-imageprocs/src/composite.rs"),("premultiply/unpremultiply, fastdiv","crates/zune-imageprocs/src/premul_alpha.rs, mathops.rs")],["channels after execute"])
p("O07","Option builders set exactly what they name",
"Setting any decoder or encoder option changes the value read back for that option to the one given and leaves every other option unchanged (strict mode also switches the CRC and Adler-32 confirmations, which it comprises), in any order and combination of calls, and the presets (default, fast, safe, strict) report the values they document.",
["histories","configurations"],"all setter sequences",
"No test reads options back.",
[I+"zune-core/src/options/decoder.rs",I+"zune-core/src/options/encoder.rs"],[("DecoderOptions, EncoderOptions setters and getters","crates/zune-core/src/options")],["getters"])
# ---------------------------------------------------------------- surfaces
p("A01","The C interface mirrors the library safely",
"Through the C interface, loading, querying, processing and saving images gives the same pixels and facts as the library itself; failures are reported through the status object and null results, and no documented call sequence crashes, leaks or corrupts memory.",
["histories","inputs"],"call sequences over valid and invalid images",
"The C interface has no tests.",
[I+"zune-capi/src/image.rs",I+"zune-capi/src/imread.rs",I+"zune-capi/src/improc.rs",I+"zune-capi/src/errno.rs"],[("zil_* functions","crates/zune-capi/src")],["returned values; AddressSanitizer"])
p("A02","The command line applies what it is told, or fails loudly",
"The command-line tool applies the requested operations in the order given to every input and writes outputs that decode to exactly what the library produces for the same operations; on any unreadable input, unknown option or failed write it reports the failure and never leaves a success message with a wrong or missing output, and never touches files it was not asked to write.",
["inputs","configurations","histories","fault_sequences"],"argument sequences x inputs x failures",
"The command line has no end-to-end tests.",
[I+"zune-bin/src",  "src/main.rs"],[("create_cmd_args, parse_options","crates/zune-bin/src/cmd_args.rs, cmd_parsers"),("create_and_exec_workflow_from_cmd","crates/zune-bin/src/workflow.rs")],["exit status, output files"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
