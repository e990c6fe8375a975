M = open('/verif/tools/bugs/mini.rs').read()
BUGS = [
dict(id="gzip-long-extra-field", property="C01", needs="a gzip member whose FEXTRA field is 256 bytes or longer",
 breaks="the extra field's length is taken from one byte, so decoding starts inside the extra field",
 edits=[("crates/zune-inflate/src/decoder.rs", "let xlen = usize::from(u16::from_le_bytes(len_bytes));", "let len_bytes: [u8; 2] = len_bytes;\n            let xlen = usize::from(len_bytes[0]);")],
 deps="zune-inflate", main=M + '''
fn main() {
    let payload = b"hello extra field world".to_vec();
    for xlen in [6usize, 255, 256, 300] {
        let mut g = vec![0x1f, 0x8b, 8, 4, 0, 0, 0, 0, 0, 255];
        g.extend((xlen as u16).to_le_bytes());
        g.extend((0..xlen).map(|i| (i * 7 + 3) as u8));
        g.extend(stored(&payload));
        g.extend(crc32(&payload).to_le_bytes());
        g.extend((payload.len() as u32).to_le_bytes());
        let r = zune_inflate::DeflateDecoder::new(&g).decode_gzip();
        match r { Ok(v) => assert_eq!(v, payload, "xlen {xlen}"), Err(e) => panic!("xlen {xlen}: {e:?}") }
    }
}
'''),
dict(id="stored-nlen-low-byte", property="C02", needs="a stored block whose NLEN is damaged only in its high byte",
 breaks="a damaged stored-block length complement is accepted",
 edits=[("crates/zune-inflate/src/decoder.rs", "if len != !nlen {", "if (len ^ !nlen) & 0xFF != 0 {")],
 deps="zune-inflate", main=M + '''
fn main() {
    let payload: Vec<u8> = (0..700u32).map(|x| (x * x % 251) as u8).collect();
    let good = stored(&payload);
    assert_eq!(zune_inflate::DeflateDecoder::new(&good).decode_deflate().unwrap(), payload);
    for bit in 0..16 {
        let mut bad = good.clone();
        bad[3 + bit / 8] ^= 1 << (bit % 8);
        assert!(zune_inflate::DeflateDecoder::new(&bad).decode_deflate().is_err(), "NLEN bit {bit}");
    }
}
'''),
dict(id="png-trns-rgb-partial-compare", property="D01", needs="an 8-bit RGB image with a tRNS colour and a pixel that equals it in red and green only",
 breaks="pixels whose blue differs from the transparent colour become transparent",
 edits=[("crates/zune-png/src/utils.rs", "let mask = &in_chunk[0..3] != &r_matrix;", "let mask = &in_chunk[0..2] != &r_matrix[0..2];")],
 deps="zune-png zune-core", main=M + '''
fn main() {
    let mut f = ihdr(3, 1, 8, 2, 0);
    chunk(&mut f, b"tRNS", &[0, 10, 0, 20, 0, 30]);
    chunk(&mut f, b"IDAT", &zlib(&[0, 10, 20, 30, 10, 20, 31, 1, 2, 3]));
    chunk(&mut f, b"IEND", &[]);
    let p = zune_png::PngDecoder::new(zune_core::bytestream::ZCursor::new(&f)).decode_raw().unwrap();
    assert_eq!(p, [10, 20, 30, 0, 10, 20, 31, 255, 1, 2, 3, 255]);
}
'''),
dict(id="apng-split-fdat", property="D03", needs="an animation frame whose data is split over several fdAT chunks",
 breaks="the sequence number of the second and later fdAT chunks of a frame becomes part of the compressed data",
 edits=[("crates/zune-png/src/headers/readers.rs", "                // skip the header\n                self.stream.skip(4)?;", "                // skip the header\n                let header = if prev_len == 0 { 4 } else { 0 };\n                self.stream.skip(header)?;"),
        ("crates/zune-png/src/headers/readers.rs", "chunk.resize(chunk.len() + next_header.length.saturating_sub(4), 0);", "chunk.resize(chunk.len() + next_header.length.saturating_sub(header), 0);")],
 deps="zune-png zune-core", main=M + '''
fn fctl(seq: u32) -> Vec<u8> { let mut d = vec![]; d.extend(seq.to_be_bytes()); d.extend(4u32.to_be_bytes()); d.extend(2u32.to_be_bytes()); d.extend([0; 8]); d.extend([0, 1, 0, 10, 0, 0]); d }
fn main() {
    let a = [0u8, 1, 2, 3, 4, 0, 5, 6, 7, 8];
    let b = [0u8, 11, 12, 13, 14, 0, 15, 16, 17, 18];
    let mut f = ihdr(4, 2, 8, 0, 0);
    chunk(&mut f, b"acTL", &[0, 0, 0, 2, 0, 0, 0, 0]);
    chunk(&mut f, b"fcTL", &fctl(0));
    chunk(&mut f, b"IDAT", &zlib(&a));
    chunk(&mut f, b"fcTL", &fctl(1));
    let z = zlib(&b);
    for (i, part) in z.chunks(9).enumerate() { let mut d = (2 + i as u32).to_be_bytes().to_vec(); d.extend(part); chunk(&mut f, b"fdAT", &d); }
    chunk(&mut f, b"IEND", &[]);
    let mut d = zune_png::PngDecoder::new(zune_core::bytestream::ZCursor::new(&f));
    d.decode_headers().unwrap();
    assert_eq!(d.decode_raw().unwrap(), [1, 2, 3, 4, 5, 6, 7, 8]);
    d.decode_headers().unwrap();
    assert_eq!(d.decode_raw().unwrap(), [11, 12, 13, 14, 15, 16, 17, 18]);
}
'''),
dict(id="png-encoder-u16-width", property="E01", needs="an image wider than 65535 pixels",
 breaks="the width in IHDR wraps, so the file does not describe the image",
 edits=[("crates/zune-png/src/headers/writers.rs", "output.write_u32_be(ctx.options.width() as u32);", "output.write_u32_be(u32::from(ctx.options.width() as u16));")],
 deps="zune-png zune-core", main='''
use zune_core::{bit_depth::BitDepth, colorspace::ColorSpace, options::EncoderOptions};
fn main() {
    for w in [9usize, 65535, 65536, 70001] {
        let px: Vec<u8> = (0..w).map(|i| (i % 253) as u8).collect();
        let mut out = vec![];
        zune_png::PngEncoder::new(&px, EncoderOptions::new(w, 1, ColorSpace::Luma, BitDepth::Eight)).encode(&mut out).unwrap();
        assert_eq!(u32::from_be_bytes(out[16..20].try_into().unwrap()) as usize, w);
    }
}
'''),
dict(id="inflate-encoder-zero-tail", property="C03", needs="a payload whose length is an exact multiple of 65535 bytes",
 breaks="the final block is not marked final",
 edits=[("crates/zune-inflate/src/encoder.rs", "if final_position - self.input_position <= usize::from(u16::MAX) {\n                bfinal = 1;", "if final_position - self.input_position <= usize::from(u16::MAX) {\n                bfinal = u64::from(final_position - self.input_position < usize::from(u16::MAX));")],
 deps="zune-inflate", main='''
fn main() {
    for n in [0usize, 1, 100, 65534, 65535, 65536, 131070] {
        let p: Vec<u8> = (0..n).map(|i| (i * 31 % 255) as u8).collect();
        let z = zune_inflate::DeflateEncoder::new(&p).encode_zlib();
        let d = zune_inflate::DeflateDecoder::new(&z).decode_zlib();
        assert!(d.is_ok() && d.unwrap() == p, "length {n}");
    }
}
'''),
]
