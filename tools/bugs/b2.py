M = open('/verif/tools/bugs/mini.rs').read()
BUGS = [
dict(id="psd-packbits-noop", property="D11", needs="a run-length coded PSD whose rows contain the PackBits no-op byte (0x80)",
 breaks="the no-op is taken for a run of 129 pixels, so files from writers that emit it are refused or wrong",
 edits=[("crates/zune-psd/src/decoder.rs", "                Ordering::Equal => (),\n                Ordering::Greater => {", "                _ => {")],
 deps="zune-psd zune-core", main='''
use zune_core::bytestream::ZCursor;
fn main() {
    for noop in [false, true] {
        let (w, h) = (5u32, 3u32);
        let mut f = b"8BPS".to_vec();
        f.extend(1u16.to_be_bytes()); f.extend([0; 6]); f.extend(3u16.to_be_bytes());
        f.extend(h.to_be_bytes()); f.extend(w.to_be_bytes()); f.extend(8u16.to_be_bytes()); f.extend(3u16.to_be_bytes());
        f.extend([0; 12]);
        f.extend(1u16.to_be_bytes());
        let mut rows = vec![]; let mut lens = vec![]; let mut want = vec![0u8; (w * h * 3) as usize];
        for c in 0..3u32 { for y in 0..h {
            let v: Vec<u8> = (0..w).map(|x| if x < 2 { (c * 50 + y) as u8 } else { (c * 60 + y * 9 + x) as u8 }).collect();
            for x in 0..w { want[((y * w + x) * 3 + c) as usize] = v[x as usize]; }
            let mut r = vec![255u8, v[0]];
            if noop { r.push(128); }
            r.push(2); r.extend(&v[2..]);
            lens.push(r.len() as u16); rows.extend(r);
        } }
        for l in lens { f.extend(l.to_be_bytes()); }
        f.extend(rows);
        let px = zune_psd::PSDDecoder::new(ZCursor::new(&f)).decode_raw().expect("valid file");
        assert_eq!(px, want, "noop {noop}");
    }
}
'''),
dict(id="hdr-old-rle-long-run", property="D09", needs="an old-style run-length HDR scanline with a run of 256 or more pixels, coded as two consecutive repeat markers",
 breaks="the second marker of a long run is not scaled, so the rest of the picture is shifted",
 edits=[("crates/zune-hdr/src/decoder.rs", "let mut i = i32::from(run) << shift;", "let mut i = i32::from(run) << (shift & 7);")],
 deps="zune-hdr zune-core", main='''
use zune_core::bytestream::ZCursor;
fn main() {
    for run in [10usize, 255, 256, 300, 515] {
        let w = run + 3;
        let mut f = format!("#?RADIANCE\\nFORMAT=32-bit_rle_rgbe\\n\\n-Y 1 +X {w}\\n").into_bytes();
        f.extend([10, 20, 30, 129]);
        f.extend([1, 1, 1, (run & 255) as u8]);
        if run > 255 { f.extend([1, 1, 1, (run >> 8) as u8]); }
        f.extend([40, 50, 60, 129]); f.extend([70, 80, 90, 129]);
        let px = zune_hdr::HdrDecoder::new(ZCursor::new(&f)).decode().expect("valid file");
        let s = 1.0 / 128.0;
        for x in 0..w {
            let e = if x <= run { [10., 20., 30.] } else if x == run + 1 { [40., 50., 60.] } else { [70., 80., 90.] };
            for c in 0..3 { assert_eq!(px[x * 3 + c], e[c] * s, "run {run} pixel {x}"); }
        }
    }
}
'''),
dict(id="pfm-fractional-scale", property="D08", needs="a little-endian PFM file whose scale is between -1 and 0",
 breaks="the byte order of the samples is taken wrongly",
 edits=[("crates/zune-ppm/src/decoder.rs", "if int_bytes < 0.0 {", "if (int_bytes as i32) < 0 {")],
 deps="zune-ppm zune-core", main='''
use zune_core::bytestream::ZCursor;
fn main() {
    for scale in ["-1.0", "-2", "-0.5", "-0.125"] {
        let mut f = format!("Pf\\n2 1\\n{scale}\\n").into_bytes();
        for v in [0.25f32, 0.75] { f.extend(v.to_le_bytes()); }
        let px = match zune_ppm::PPMDecoder::new(ZCursor::new(&f)).decode().unwrap() { zune_core::result::DecodingResult::F32(v) => v, _ => panic!() };
        assert_eq!(px, [0.25, 0.75], "scale {scale}");
    }
}
'''),
dict(id="jpeg-icc-file-order", property="D06", needs="a JPEG whose ICC profile is split over several APP2 segments that are not in sequence order",
 breaks="the profile's parts are put together in the order of the file instead of their sequence numbers",
 edits=[("crates/zune-jpeg/src/decoder.rs", "for chunk in marker_present.get(1..=num_markers).unwrap() {\n            if let Some(ch) = chunk {", "for chunk in &self.icc_data {\n            if let Some(ch) = marker_present[usize::from(chunk.seq_no)].map(|_| chunk) {")],
 deps="zune-jpeg zune-core", main='''
use zune_core::bytestream::ZCursor;
fn main() {
    let src = include_bytes!("../g.bin");
    let parts: [Vec<u8>; 3] = [vec![1; 40], vec![2; 50], vec![3; 60]];
    for order in [[0usize, 1, 2], [2, 0, 1], [1, 0, 2]] {
        let mut f = src[..2].to_vec();
        for i in order {
            f.extend([0xFF, 0xE2]); f.extend(((parts[i].len() + 16) as u16).to_be_bytes());
            f.extend(b"ICC_PROFILE\\0"); f.extend([i as u8 + 1, 3]); f.extend(&parts[i]);
        }
        f.extend(&src[2..]);
        let mut d = zune_jpeg::JpegDecoder::new(ZCursor::new(&f));
        d.decode_headers().unwrap();
        assert_eq!(d.icc_profile().unwrap(), parts.concat(), "{order:?}");
    }
}
''', files={"g.bin": open('/verif/work/g.jpg','rb').read()}),
dict(id="qoi-encode-trailing-run", property="E02", needs="an image that ends in a run with exactly one pixel left over (its last two pixels equal, or 1 more than a multiple of 62)",
 breaks="the last pixel is missing from the file",
 edits=[("crates/zune-qoi/src/encoder.rs", "        if run > 0 {\n            stream.write_u8_err(QOI_OP_RUN | (run - 1))?;\n        }\n        // write trailing bytes", "        if run > 1 {\n            stream.write_u8_err(QOI_OP_RUN | (run - 1))?;\n        }\n        // write trailing bytes")],
 deps="zune-qoi zune-core", main='''
use zune_core::{bytestream::ZCursor, bit_depth::BitDepth, colorspace::ColorSpace, options::{DecoderOptions, EncoderOptions}};
fn main() {
    for tail in [2usize, 3, 62, 63, 64, 1] {
        let mut px = vec![];
        for i in 0..20u8 { px.extend([i * 7, i * 3, 200 - i]); }
        let last = px[57..60].to_vec();
        for _ in 0..tail { px.extend(&last); }
        let o = EncoderOptions::new(px.len() / 3, 1, ColorSpace::RGB, BitDepth::Eight);
        let mut out = vec![];
        zune_qoi::QoiEncoder::new(&px, o).encode(&mut out).unwrap();
        let back = zune_qoi::QoiDecoder::new_with_options(ZCursor::new(&out), DecoderOptions::default().set_strict_mode(true)).decode().expect("decodes");
        assert_eq!(back, px, "tail {tail}");
    }
}
'''),
dict(id="channel-eq-whole-words", property="I05", needs="two channels whose length is not a multiple of eight bytes and which differ in their last bytes only",
 breaks="channels that differ in their trailing bytes compare equal",
 edits=[("crates/zune-image/src/channel.rs", "for (a, b) in us.iter().zip(them) {", "for (a, b) in us.chunks_exact(8.min(us.len().max(1))).zip(them.chunks_exact(8.min(us.len().max(1)))) {")],
 deps="zune-image zune-core", main='''
use zune_image::channel::Channel;
fn main() {
    for n in 1..40usize { for k in 0..n {
        let mut a = Channel::new::<u16>(); let mut b = Channel::new::<u16>();
        for i in 0..n { a.push(i as u16); b.push(if i == k { 999u16 } else { i as u16 }); }
        assert!(a == a.clone());
        assert!(a != b, "length {n}, element {k}");
    } }
}
'''),
dict(id="composite-alpha-narrow-dst", property="O06", needs="compositing an image with alpha at an x offset that leaves only part of it on the canvas",
 breaks="the alpha of a source that hangs over the right edge is taken from its right part instead of its left",
 edits=[("crates/zune-imageprocs/src/composite.rs", "                // get the minimum width to remove out of bounds panics\n                let min_width = slice.len().min(src_width.len());\n\n                for (src_p, dst) in src_width[..min_width].iter().zip(slice.iter_mut()) {\n                    // formula : a_o = a_x + a_y(1-a_x)",
  "                // get the minimum width to remove out of bounds panics\n                let min_width = slice.len().min(src_width.len());\n\n                for (src_p, dst) in src_width[src_width.len() - min_width..].iter().zip(slice.iter_mut()) {\n                    // formula : a_o = a_x + a_y(1-a_x)")],
 deps="zune-image zune-imageprocs zune-core", main='''
use zune_core::colorspace::ColorSpace; use zune_image::image::Image; use zune_image::traits::OperationsTrait;
use zune_imageprocs::composite::{Composite, CompositeMethod};
fn main() {
    for x0 in [0usize, 1, 2, 3] {
        let src: Vec<u8> = (0..3 * 2).flat_map(|i| [i as u8 * 20, 10, 5, if i % 3 == 0 { 255 } else { 0 }]).collect();
        let dst: Vec<u8> = (0..4 * 4).flat_map(|i| [i as u8, 100, 50, 0]).collect();
        let s = Image::from_u8(&src, 3, 2, ColorSpace::RGBA);
        let mut d = Image::from_u8(&dst, 4, 4, ColorSpace::RGBA);
        Composite::new(&s, CompositeMethod::Over, (x0, 1)).execute(&mut d).unwrap();
        let out = d.flatten_to_u8();
        for y in 0..4usize { for x in 0..4usize {
            let a = out[0][(y * 4 + x) * 4 + 3];
            let want = if y >= 1 && y < 3 && x == x0 { 255 } else { 0 };
            assert_eq!(a, want, "offset {x0} at {x},{y}");
        } }
    }
}
'''),
dict(id="rotate-270-wide", property="O02", needs="rotating an image that is wider than high by 270 degrees",
 breaks="the quarter turn goes through the interpolating path and loses pixels",
 edits=[("crates/zune-imageprocs/src/rotate.rs", "    } else if (angle - 270.0).abs() < f32::EPSILON {", "    } else if (angle - 270.0).abs() < f32::EPSILON && width <= height {")],
 deps="zune-image zune-imageprocs zune-core", main='''
use zune_core::colorspace::ColorSpace; use zune_image::image::Image; use zune_image::traits::OperationsTrait;
use zune_imageprocs::rotate::Rotate;
fn main() {
    for (w, h) in [(3usize, 3usize), (2, 5), (5, 2)] {
        let src: Vec<u8> = (0..w * h).map(|i| i as u8 * 11).collect();
        let mut i = Image::from_u8(&src, w, h, ColorSpace::Luma);
        Rotate::new(270.0).execute(&mut i).unwrap();
        assert_eq!(i.dimensions(), (h, w));
        let out = &i.flatten_to_u8()[0];
        for y in 0..h { for x in 0..w { assert_eq!(out[(w - 1 - x) * h + y], src[y * w + x], "{w}x{h} at {x},{y}"); } }
    }
}
'''),
dict(id="pipeline-skips-early-images", property="I06", needs="a pipeline holding three or more images",
 breaks="the operations are applied to the last two images only",
 edits=[("crates/zune-image/src/pipelines.rs", "                    for image in self.image.iter_mut() {", "                    let skip = self.image.len().saturating_sub(2);\n                    for image in self.image.iter_mut().skip(skip) {")],
 deps="zune-image zune-imageprocs zune-core", main='''
use zune_core::colorspace::ColorSpace; use zune_image::image::Image; use zune_image::pipelines::Pipeline;
use zune_imageprocs::invert::Invert;
fn main() {
    for n in 1..=4usize {
        let mut p = Pipeline::new();
        for k in 0..n { p.chain_image(Image::from_u8(&[k as u8, 10, 20, 30], 4, 1, ColorSpace::Luma)); }
        p.chain_operations(Box::new(Invert::new()));
        p.advance_to_end().unwrap();
        for (k, i) in p.images().iter().enumerate() { assert_eq!(i.flatten_to_u8()[0], [255 - k as u8, 245, 235, 225], "image {k} of {n}"); }
    }
}
'''),
dict(id="bmp-row-short-read", property="R06", needs="a bitmap read from a source that hands out its bytes in pieces that end within a row",
 breaks="a row is read with a single read call, so the bytes a short read did not deliver are left from the row before",
 edits=[("crates/zune-bmp/src/decoder.rs", "self.bytes.read_exact_bytes(&mut in_width_buf)?;", "if self.bytes.read_bytes(&mut in_width_buf)? == 0 {\n                            return Err(BmpDecoderErrors::GenericStatic(\"Not enough bytes\"));\n                        }")],
 deps="zune-bmp=std zune-core=std", main='''
use std::io::{BufRead, Cursor, Read, Result, Seek, SeekFrom};
struct Small(Cursor<Vec<u8>>, usize);
impl Read for Small { fn read(&mut self, b: &mut [u8]) -> Result<usize> { let n = b.len().min(self.1); self.0.read(&mut b[..n]) } }
impl BufRead for Small { fn fill_buf(&mut self) -> Result<&[u8]> { self.0.fill_buf() } fn consume(&mut self, n: usize) { self.0.consume(n) } }
impl Seek for Small { fn seek(&mut self, p: SeekFrom) -> Result<u64> { self.0.seek(p) } }
fn main() {
    for bits in [1u32, 4, 8] {
        let (w, h) = (37usize, 6usize);
        let stride = (w * bits as usize + 31) / 32 * 4; let n = 1usize << bits;
        let off = 54 + n * 4;
        let mut f = b"BM".to_vec();
        f.extend(((off + stride * h) as u32).to_le_bytes()); f.extend([0; 4]); f.extend((off as u32).to_le_bytes());
        f.extend(40u32.to_le_bytes()); f.extend((w as u32).to_le_bytes()); f.extend((h as u32).to_le_bytes());
        f.extend(1u16.to_le_bytes()); f.extend((bits as u16).to_le_bytes()); f.extend([0; 16]); f.extend((n as u32).to_le_bytes()); f.extend([0; 4]);
        for i in 0..n { f.extend([i as u8, 255 - i as u8, 7, 0]); }
        f.extend((0..stride * h).map(|i| (i * 37 + i / 11) as u8));
        let want = zune_bmp::BmpDecoder::new(Cursor::new(f.clone())).decode().expect("valid file");
        for piece in [1000usize, 13, 3] {
            let got = zune_bmp::BmpDecoder::new(Small(Cursor::new(f.clone()), piece)).decode().expect("valid file");
            assert!(got == want, "{bits} bits in pieces of {piece}");
        }
    }
}
'''),
dict(id="options-max-height-width", property="O07", needs="setting a height limit after a width limit",
 breaks="setting the height limit changes the width limit when it is the smaller of the two",
 edits=[("crates/zune-core/src/options/decoder.rs", "        self.max_height = height;", "        self.max_height = height;\n        self.max_width = self.max_width.max(height.min(1 << 14));")],
 deps="zune-core", main='''
use zune_core::options::DecoderOptions;
fn main() {
    for (w, h) in [(100usize, 100usize), (500, 100), (100, 500), (1 << 15, 3)] {
        let o = DecoderOptions::default().set_max_width(w).set_max_height(h);
        assert_eq!((o.max_width(), o.max_height()), (w, h));
    }
}
'''),
dict(id="ppm-height-limit", property="R03", needs="a PAM file higher than the height limit, with a width limit that is larger",
 breaks="the height of a PAM file is checked against the width limit",
 edits=[("crates/zune-ppm/src/decoder.rs", "                    self.height = self.get_integer()?;\n\n                    if self.height > self.options.max_height() {\n                        return", "                    self.height = self.get_integer()?;\n\n                    if self.height > self.options.max_width().max(self.options.max_height()) {\n                        return")],
 deps="zune-ppm zune-core", main='''
use zune_core::{bytestream::ZCursor, options::DecoderOptions};
fn main() {
    for (mw, mh, ok) in [(100usize, 100usize, true), (100, 9, false), (3, 100, true), (2, 100, false)] {
        let mut f = b"P7\\nWIDTH 3\\nHEIGHT 10\\nDEPTH 1\\nMAXVAL 255\\nTUPLTYPE GRAYSCALE\\nENDHDR\\n".to_vec();
        f.extend([7; 30]);
        let o = DecoderOptions::default().set_max_width(mw).set_max_height(mh);
        let r = zune_ppm::PPMDecoder::new_with_options(ZCursor::new(&f), o).decode();
        assert_eq!(r.is_ok(), ok, "limits {mw} {mh}");
    }
}
'''),
]
