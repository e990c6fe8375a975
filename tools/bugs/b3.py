M = open('/verif/tools/bugs/mini.rs').read()
IMG = "use zune_core::colorspace::ColorSpace; use zune_image::image::Image; use zune_image::traits::OperationsTrait;\n"
BUGS = [
dict(id="writer-partial-write", property="R08", needs="a writer that takes fewer bytes than it is given, without failing",
 breaks="what the writer did not take at first is never written and success is reported",
 edits=[("crates/zune-core/src/bytestream/writer/std_writer.rs", "self.write_all(buf).map_err(ZByteIoError::StdIoError)", "self.write(buf).map(|_| ()).map_err(ZByteIoError::StdIoError)")],
 deps="zune-core=std zune-farbfeld", main='''
use std::io::{Result, Write}; use zune_core::{bit_depth::BitDepth, colorspace::ColorSpace, options::EncoderOptions};
struct Some3(Vec<u8>, usize);
impl Write for Some3 { fn write(&mut self, b: &[u8]) -> Result<usize> { let n = b.len().min(self.1); self.0.extend(&b[..n]); Ok(n) } fn flush(&mut self) -> Result<()> { Ok(()) } }
fn main() {
    let px: Vec<u8> = (0..6 * 4 * 8).map(|i| i as u8).collect();
    let o = EncoderOptions::new(6, 4, ColorSpace::RGBA, BitDepth::Sixteen);
    let mut want = vec![];
    zune_farbfeld::FarbFeldEncoder::new(&px, o).encode(&mut want).unwrap();
    for k in [1000usize, 7, 1] {
        let mut s = Some3(vec![], k);
        zune_farbfeld::FarbFeldEncoder::new(&px, o).encode(&mut s).unwrap();
        assert!(s.0 == want, "{} of {} bytes written by {k}", s.0.len(), want.len());
    }
}
'''),
dict(id="crop-keeps-alpha", property="O02", needs="cropping an image that has an alpha channel",
 breaks="the alpha channel is left at the size and place it had",
 edits=[("crates/zune-imageprocs/src/crop.rs", "execute_on(crop_fn, image, false)?;", "let ignore_alpha = self.x == 0 && self.width == old_width;\n        execute_on(crop_fn, image, ignore_alpha)?;")],
 deps="zune-image zune-imageprocs zune-core", main=IMG + '''
use zune_imageprocs::crop::Crop;
fn main() {
    for (x, y, cw, ch) in [(1usize, 1usize, 2usize, 2usize), (0, 1, 3, 2), (0, 2, 4, 2)] {
        let (w, h) = (4usize, 5usize);
        let src: Vec<u8> = (0..w * h * 2).map(|i| i as u8 * 3).collect();
        let mut i = Image::from_u8(&src, w, h, ColorSpace::LumaA);
        Crop::new(cw, ch, x, y).execute(&mut i).unwrap();
        let want: Vec<u8> = (0..ch).flat_map(|r| src[((y + r) * w + x) * 2..((y + r) * w + x + cw) * 2].to_vec()).collect();
        assert_eq!(i.flatten_to_u8()[0], want, "{cw}x{ch} at {x},{y}");
    }
}
'''),
dict(id="bilinear-right-edge", property="O05", needs="bilinear enlargement of an image whose last column differs from its first",
 breaks="the right edge is blended with the first pixel of the next row",
 edits=[("crates/zune-imageprocs/src/resize/bilinear.rs", "let x1 = (x0 + 1).min(in_width - 1);", "let x1 = if y0 + 1 < in_height { x0 + 1 } else { (x0 + 1).min(in_width - 1) };"),],
 deps="zune-image zune-imageprocs zune-core", main=IMG + '''
use zune_imageprocs::resize::{Resize, ResizeMethod};
fn main() {
    // nothing in a row of one value can become another
    for (w, h, ow, oh) in [(4usize, 4usize, 4usize, 4usize), (4, 4, 9, 9), (5, 3, 20, 6)] {
        let src: Vec<u8> = (0..w * h).map(|i| if i % w == 0 { 0 } else { 200 }).collect();
        let mut i = Image::from_u8(&src, w, h, ColorSpace::Luma);
        Resize::new(ow, oh, ResizeMethod::Bilinear).execute(&mut i).unwrap();
        let out = &i.flatten_to_u8()[0];
        for y in 0..oh { assert_eq!(out[y * ow + ow - 1], 200, "{w}x{h} to {ow}x{oh} row {y}"); }
    }
}
'''),
dict(id="median-u16-white", property="O03", needs="a 16 bit image with areas of the largest sample value, 65535",
 breaks="the last bin of the histogram is never reached, so the median of a white area is 0",
 edits=[("crates/zune-imageprocs/src/median.rs", "        if (counter % width) == 0 {\n            // when we are starting a new row\n\n            // zero out histogram\n            histogram.fill(0);\n            // add everything\n            for c in array {\n                histogram[usize::from(*c)] += 1;\n            }\n        } else {\n            // drop items that fell off from previous run\n            for x in &to_be_dropped {\n                histogram[usize::from(*x)] -= 1;\n            }\n            // add the new window values added to the histogram\n            // these are the rightmost values\n            array.chunks_exact(radius_size).for_each(|v| {\n                let to_add = usize::from(*v.last().unwrap());\n                histogram[to_add] += 1;\n            });\n        }\n\n        // iterate through our histogram to find the median\n        let mut accum = 0;\n        let mut median = 0;\n\n        for (pos, v) in histogram.iter().enumerate() {\n            accum += *v;\n            if accum > median_pos as u32 {\n                // we found the median\n                median = pos as u16;",
  "        if (counter % width) == 0 {\n            // when we are starting a new row\n\n            // zero out histogram\n            histogram.fill(0);\n            // add everything\n            for c in array {\n                histogram[usize::from(*c)] += 1;\n            }\n        } else {\n            // drop items that fell off from previous run\n            for x in &to_be_dropped {\n                histogram[usize::from(*x)] -= 1;\n            }\n            // add the new window values added to the histogram\n            // these are the rightmost values\n            array.chunks_exact(radius_size).for_each(|v| {\n                let to_add = usize::from(*v.last().unwrap());\n                histogram[to_add] += 1;\n            });\n        }\n\n        // iterate through our histogram to find the median\n        let mut accum = 0;\n        let mut median = 0;\n\n        for (pos, v) in histogram.iter().enumerate().take(65535) {\n            accum += *v;\n            if accum > median_pos as u32 {\n                // we found the median\n                median = pos as u16;")],
 deps="zune-image zune-imageprocs zune-core", main=IMG + '''
use zune_imageprocs::median::Median;
fn main() {
    for v in [0u16, 4095, 65534, 65535] {
        let src: Vec<u16> = (0..30).map(|i| if i == 7 { 100 } else { v }).collect();
        let mut i = Image::from_u16(&src, 6, 5, ColorSpace::Luma);
        Median::new(1).execute(&mut i).unwrap();
        assert!(i.flatten_frames::<u16>()[0].iter().all(|x| *x == v), "a field of {v}");
    }
}
'''),
dict(id="stretch-contrast-wide-range", property="O04", needs="stretching the contrast of 16 bit samples over a range wider than 32768",
 breaks="the division by the width of the range is done with too few bits",
 edits=[("crates/zune-imageprocs/src/stretch_contrast.rs", "            let numerator = maximum * u32::from(*pixel - lower);", "            let numerator = maximum * (u32::from(*pixel - lower) & 0x7FFF);")],
 deps="zune-image zune-imageprocs zune-core", main=IMG + '''
use zune_imageprocs::stretch_contrast::StretchContrast;
fn main() {
    for (lo, hi) in [(100u32, 200u32), (1000, 20000), (500, 60000), (0, 65535)] {
        let src: Vec<u16> = (0..200u32).map(|i| (i * 329 % 65536) as u16).collect();
        let mut im = Image::from_u16(&src, 20, 10, ColorSpace::Luma);
        StretchContrast::new(lo as f32, hi as f32).execute(&mut im).unwrap();
        for (a, b) in src.iter().zip(&im.flatten_frames::<u16>()[0]) {
            let a = *a as u64; let (l, h) = (lo as u64, hi as u64);
            let want = if a >= h { 65535 } else if a <= l { 0 } else { (a - l) * 65535 / (h - l) };
            assert!((*b as i64 - want as i64).abs() <= 1, "{lo}..{hi}: {a} became {b}, not {want}");
        }
    }
}
'''),
dict(id="jxl-tall-dc-groups", property="E03", needs="a JPEG XL image higher than 2048 pixels and less wide than that",
 breaks="the number of DC groups is computed from the wrong side, so the table of contents does not match",
 edits=[("crates/zune-jpegxl/src/encoder.rs", "        let num_dc_groups_x = (width + 2047) / 2048;", "        let num_dc_groups_x = (width.max(height) + 2047) / 2048;")],
 deps="zune-jpegxl=std zune-core=std jxl-oxide", main='''
use zune_core::{bit_depth::BitDepth, colorspace::ColorSpace, options::EncoderOptions};
fn main() {
    for (w, h) in [(40usize, 30usize), (300, 20), (20, 300), (2100, 4), (4, 2100)] {
        let px: Vec<u8> = (0..w * h).map(|i| (i * 31 + i / w * 7) as u8).collect();
        let mut out = vec![];
        zune_jpegxl::JxlSimpleEncoder::new(&px, EncoderOptions::new(w, h, ColorSpace::Luma, BitDepth::Eight)).encode(&mut out).unwrap();
        let im = jxl_oxide::JxlImage::builder().read(&out[..]).expect("a JPEG XL file");
        let r = im.render_frame(0).expect("decodes");
        let fb = r.image_all_channels();
        assert_eq!((fb.width(), fb.height()), (w, h));
        for (i, v) in fb.buf().iter().enumerate() { assert_eq!((v * 255.0).round() as u8, px[i], "{w}x{h} sample {i}"); }
    }
}
'''),
dict(id="ppm-hash-in-comment", property="D08", needs="a netpbm header with a comment that holds a second number sign",
 breaks="the comment ends at the second sign, so the file is refused or its size read from the comment",
 edits=[("crates/zune-ppm/src/decoder.rs", "            while byte != b'\\n' && !byte_stream.eof()? {\n                byte = byte_stream.read_u8();\n            }", "            byte = b' ';\n            while !matches!(byte, b'\\n' | b'#') && !byte_stream.eof()? {\n                byte = byte_stream.read_u8();\n            }")],
 deps="zune-ppm zune-core", main='''
use zune_core::bytestream::ZCursor;
fn main() {
    for com in ["", "# made by hand\\n", "# 1 # 2\\n", "## \\n#\\n"] {
        let mut f = format!("P5\\n{com}3 2\\n255\\n").into_bytes();
        f.extend([1, 2, 3, 4, 5, 6]);
        let px = zune_ppm::PPMDecoder::new(ZCursor::new(&f)).decode().expect("valid file");
        match px { zune_core::result::DecodingResult::U8(v) => assert_eq!(v, [1, 2, 3, 4, 5, 6], "{com:?}"), _ => panic!("not 8 bit") }
    }
}
'''),
dict(id="hsl-negative-hue", property="I02", needs="converting to HSL a colour whose red is largest and whose blue exceeds its green",
 breaks="the hue comes out negative",
 edits=[("crates/zune-image/src/core_filters/colorspace/rgb_to_hsl.rs", "    h = python_mod(h / 6.0, 1.0);", "    h = (h / 6.0) % 1.0;")],
 deps="zune-image zune-core", main=IMG + '''
use zune_image::core_filters::colorspace::ColorspaceConv;
fn main() {
    for (px, hue) in [([1.0f32, 0.5, 0.0], 1.0 / 12.0), ([0.0, 1.0, 0.0], 1.0 / 3.0), ([0.5, 0.0, 1.0], 0.75), ([1.0, 0.0, 0.5], 11.0 / 12.0)] {
        let mut i = Image::from_f32(&px, 1, 1, ColorSpace::RGB);
        ColorspaceConv::new(ColorSpace::HSL).execute(&mut i).unwrap();
        let h = i.flatten_frames::<f32>()[0][0];
        assert!((h - hue).abs() < 1e-3, "{px:?}: hue {h}, not {hue}");
    }
}
'''),
dict(id="png-icc-or-exif", property="I07", needs="a PNG that carries both an Exif block and a colour profile",
 breaks="the profile is not passed on to the image when there is Exif data",
 edits=[("crates/zune-image/src/codecs/png.rs", "        if let Some(icc) = &self.info().unwrap().icc_profile {", "        if let (Some(icc), None) = (&self.info().unwrap().icc_profile, metadata.exif()) {")],
 deps="zune-image=png,metadata zune-core", main=M + '''
use zune_core::{bytestream::ZCursor, options::DecoderOptions}; use zune_image::image::Image;
fn main() {
    let icc: Vec<u8> = (0..200u8).collect();
    let exif = [b'M', b'M', 0, 42, 0, 0, 0, 8, 0, 1, 1, 18, 0, 3, 0, 0, 0, 1, 0, 6, 0, 0, 0, 0, 0, 0];
    for with in [false, true] {
        let mut f = ihdr(2, 1, 8, 0, 0);
        let mut d = b"name\\0\\0".to_vec(); d.extend(zlib(&icc));
        chunk(&mut f, b"iCCP", &d);
        if with { chunk(&mut f, b"eXIf", &exif); }
        chunk(&mut f, b"IDAT", &zlib(&[0, 7, 9])); chunk(&mut f, b"IEND", &[]);
        let i = Image::read(ZCursor::new(&f), DecoderOptions::default()).expect("valid file");
        assert_eq!(i.metadata().icc_chunk().map(|x| x.len()), Some(200), "with Exif: {with}");
        assert_eq!(i.metadata().exif().is_some(), with);
    }
}
'''),
dict(id="bmp-rle-fault-is-end", property="R07", needs="a read that fails between two codes of a run-length coded bitmap",
 breaks="the failure is taken for the end of the file and the picture so far is returned as complete",
 edits=[("crates/zune-bmp/src/decoder.rs", "while !self.bytes.eof()? {", "while !self.bytes.eof().unwrap_or(true) {")],
 deps="zune-bmp=std zune-core=std", main='''
use std::io::{BufRead, Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom};
struct Bad(Cursor<Vec<u8>>, u64);
impl Bad { fn ok(&self, n: u64) -> Result<()> { if self.0.position() + n > self.1 { Err(Error::new(ErrorKind::Other, "disk")) } else { Ok(()) } } }
impl Read for Bad { fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.ok(b.len().min(1) as u64)?; let n = b.len().min((self.1 - self.0.position()) as usize); self.0.read(&mut b[..n]) } }
impl BufRead for Bad { fn fill_buf(&mut self) -> Result<&[u8]> { self.ok(1)?; self.0.fill_buf() } fn consume(&mut self, n: usize) { self.0.consume(n) } }
impl Seek for Bad { fn seek(&mut self, p: SeekFrom) -> Result<u64> { self.0.seek(p) } }
fn main() {
    let (w, h) = (12usize, 4usize);
    let mut data = vec![];
    for y in 0..h as u8 { for x in 0..4u8 { data.extend([3, x * 10 + y]); } data.extend([0, if y == 3 { 1 } else { 0 }]); }
    let off = 54 + 1024;
    let mut f = b"BM".to_vec();
    f.extend(((off + data.len()) as u32).to_le_bytes()); f.extend([0; 4]); f.extend((off as u32).to_le_bytes());
    f.extend(40u32.to_le_bytes()); f.extend((w as u32).to_le_bytes()); f.extend((h as u32).to_le_bytes());
    f.extend(1u16.to_le_bytes()); f.extend(8u16.to_le_bytes()); f.extend(1u32.to_le_bytes()); f.extend((data.len() as u32).to_le_bytes());
    f.extend([0; 8]); f.extend(256u32.to_le_bytes()); f.extend([0; 4]);
    for i in 0..=255u8 { f.extend([i, i, i, 0]); }
    f.extend(&data);
    let n = f.len() as u64;
    zune_bmp::BmpDecoder::new(Bad(Cursor::new(f.clone()), n)).decode().expect("valid file");
    for at in [off as u64 + 2, off as u64 + 8, n - 2] {
        assert!(zune_bmp::BmpDecoder::new(Bad(Cursor::new(f.clone()), at)).decode().is_err(), "fault at {at} of {n} went unnoticed");
    }
}
'''),
dict(id="png-strip-into-rounds", property="R04", needs="a 16 bit PNG reduced to 8 bits, decoded into a caller's buffer, with samples whose low byte is larger than their high byte",
 breaks="decode_into rounds the samples where decode takes their upper half",
 edits=[("crates/zune-png/src/decoder.rs", "                *output = input[0];", "                *output = ((u32::from(input[0]) * 256 + u32::from(input[1]) + 128) / 257) as u8;")],
 deps="zune-png zune-core", main=M + '''
use zune_core::{bytestream::ZCursor, options::DecoderOptions};
fn main() {
    for row in [[0u8, 18, 1, 52, 12, 120, 100], [0, 18, 250, 0, 255, 100, 240]] {
        let mut f = ihdr(3, 1, 16, 0, 0);
        chunk(&mut f, b"IDAT", &zlib(&row)); chunk(&mut f, b"IEND", &[]);
        let o = DecoderOptions::default().png_set_strip_to_8bit(true);
        let want = zune_png::PngDecoder::new_with_options(ZCursor::new(&f), o).decode_raw().unwrap();
        let mut got = vec![0; want.len()];
        zune_png::PngDecoder::new_with_options(ZCursor::new(&f), o).decode_into(&mut got).unwrap();
        assert_eq!(got, want, "{row:?}");
    }
}
'''),
dict(id="inflate-distance-15", property="C01", needs="a match of distance 15 longer than its distance, away from the end of the data",
 breaks="the overlapping match is copied in 16 byte steps, so a byte in each is stale",
 edits=[("crates/zune-inflate/src/decoder.rs", "                        } else if offset <= FASTCOPY_BYTES\n                            && current_position + offset < dest_offset", "                        } else if offset < FASTCOPY_BYTES - 1\n                            && current_position + offset < dest_offset")],
 deps="zune-inflate zune-core flate2", main='''
use std::io::Write;
fn main() {
    for d in [3usize, 14, 15, 16, 17] {
        let mut v = vec![];
        for k in 0..300usize {
            let unit: Vec<u8> = (0..d).map(|i| (k * 31 + i * 7 + k * k) as u8 ^ (i * i) as u8).collect();
            for _ in 0..4 { v.extend(&unit); }
            v.extend([(k * 13) as u8, (k * 7 + 1) as u8]);
        }
        let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(9));
        e.write_all(&v).unwrap();
        let z = e.finish().unwrap();
        assert!(zune_inflate::DeflateDecoder::new(&z).decode_zlib().expect("valid stream") == v, "distance {d}");
    }
}
'''),
dict(id="channel-extend-exact", property="R02", needs="extending a channel past its capacity by less than eleven bytes more than it was given room for",
 breaks="the buffer is grown by fewer bytes than are then copied into it",
 edits=[("crates/zune-image/src/channel.rs", "            self.realloc(self.capacity.saturating_add(items).saturating_add(10));", "            let missing = (self.length + items - self.capacity) & 0xFFF0;\n            self.realloc(self.capacity.saturating_add(missing).saturating_add(10));")],
 deps="zune-image zune-core", main='''
use zune_image::channel::Channel;
fn main() {
    for n in [5usize, 8, 16, 27, 31, 63, 4000] {
        for cap in 0..24usize {
            let mut c = Channel::new_with_capacity::<u8>(cap);
            let v: Vec<u8> = (0..n).map(|i| i as u8).collect();
            c.extend(&v);
            assert!(c.capacity() >= c.len(), "room for {} holds {} bytes", c.capacity(), c.len());
            std::mem::forget(c);
        }
    }
}
'''),
]
