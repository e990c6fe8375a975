//! I04: recognising files, and saving and reopening images.
use std::io::{Cursor, Write};
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_image::codecs::{self, ImageFormat};
use zune_image::errors::ImageErrors;
use zune_image::image::Image;
use zvcore::{hash_bytes, Case, Rng};
use zvimg::{full, Model};

pub const WRITERS: [ImageFormat; 7] = [ImageFormat::PNG, ImageFormat::PPM, ImageFormat::QOI, ImageFormat::Farbfeld, ImageFormat::JPEG_XL, ImageFormat::HDR, ImageFormat::JPEG];
pub fn name(f: ImageFormat) -> &'static str {
    match f {
        ImageFormat::PNG => "png",
        ImageFormat::PPM => "ppm",
        ImageFormat::QOI => "qoi",
        ImageFormat::Farbfeld => "farbfeld",
        ImageFormat::JPEG_XL => "jxl",
        ImageFormat::HDR => "hdr",
        ImageFormat::JPEG => "jpeg",
        ImageFormat::BMP => "bmp",
        ImageFormat::PSD => "psd",
        _ => "other"
    }
}
fn exts(f: ImageFormat) -> &'static [&'static str] {
    match f {
        ImageFormat::PNG => &["png"],
        ImageFormat::PPM => &["ppm", "pam", "pgm"],
        ImageFormat::QOI => &["qoi"],
        ImageFormat::Farbfeld => &["ff"],
        ImageFormat::JPEG_XL => &["jxl"],
        ImageFormat::HDR => &["hdr"],
        _ => &["jpg", "jpeg"]
    }
}
/// red, green, blue and alpha of a pixel of one of the basic spaces
pub fn rgba(m: &Model, f: usize, i: usize) -> ([f64; 3], Option<f64>) {
    let p = |c: usize| m.frames[f][c][i];
    match m.cs {
        ColorSpace::Luma => ([p(0); 3], None),
        ColorSpace::LumaA => ([p(0); 3], Some(p(1))),
        ColorSpace::RGB => ([p(0), p(1), p(2)], None),
        ColorSpace::RGBA => ([p(0), p(1), p(2)], Some(p(3))),
        ColorSpace::BGR => ([p(2), p(1), p(0)], None),
        ColorSpace::BGRA => ([p(2), p(1), p(0)], Some(p(3))),
        ColorSpace::ARGB => ([p(1), p(2), p(3)], Some(p(0))),
        s => panic!("not basic: {s:?}")
    }
}
/// What a format can hold of an image: space, depth; samples as real numbers in the new depth.
fn expected(m: &Model, fmt: ImageFormat) -> (Model, bool) {
    let luma_ok = matches!(fmt, ImageFormat::PNG | ImageFormat::PPM | ImageFormat::JPEG_XL);
    let cs = match fmt {
        ImageFormat::Farbfeld => ColorSpace::RGBA,
        ImageFormat::HDR => ColorSpace::RGB,
        ImageFormat::JPEG if m.cs == ColorSpace::Luma => ColorSpace::Luma,
        ImageFormat::JPEG => ColorSpace::RGB,
        _ if luma_ok && matches!(m.cs, ColorSpace::Luma | ColorSpace::LumaA) => m.cs,
        _ if m.cs.has_alpha() => ColorSpace::RGBA,
        _ => ColorSpace::RGB
    };
    let depth = match fmt {
        ImageFormat::Farbfeld => BitDepth::Sixteen,
        ImageFormat::HDR => BitDepth::Float32,
        ImageFormat::QOI | ImageFormat::JPEG => BitDepth::Eight,
        _ if m.depth == BitDepth::Float32 => BitDepth::Sixteen,
        _ => m.depth
    };
    let k = full(depth) / m.full();
    let mut ch: Vec<Vec<f64>> = vec![vec![]; cs.num_components()];
    for i in 0..m.w * m.h {
        let (c, a) = rgba(m, 0, i);
        let a = a.unwrap_or(m.full());
        let v: &[f64] = match cs {
            ColorSpace::Luma => &c[..1],
            ColorSpace::LumaA => &[c[0], a],
            ColorSpace::RGB => &c,
            _ => &[c[0], c[1], c[2], a]
        };
        for (o, v) in ch.iter_mut().zip(v) {
            o.push(v * k);
        }
    }
    (Model { w: m.w, h: m.h, cs, depth, frames: vec![ch], times: vec![(1, 1)] }, depth != m.depth)
}
pub fn options(r: &mut Rng) -> EncoderOptions {
    EncoderOptions::default()
        .set_effort(r.below(12) as u8)
        .set_num_threads(r.below(9) as u8)
        .set_quality(100)
        .set_strip_metadata(r.bool())
        .set_jpeg_encode_progressive(r.bool())
        // the encoder replaces these by the image's own
        .set_width(r.below(50))
        .set_height(r.below(50))
        .set_depth(*r.pick(&zvimg::DEPTHS))
        .set_colorspace(*r.pick(&zvimg::BASIC))
}
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new(tag: u64) -> Scratch {
        let p = std::env::temp_dir().join(format!("zv-image-{}-{tag}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// a fresh scratch folder and a way to write the image to it or to memory
fn write(c: &mut Case, im: &Image, fmt: ImageFormat) -> Option<Vec<u8>> {
    let way = c.rng.below(8);
    let opt = options(&mut c.rng);
    let ext = *c.rng.pick(exts(fmt));
    let tag = c.rng.u64();
    c.tag(&format!("write/{way}"));
    let what = format!("write-{}", name(fmt));
    let r: Result<Vec<u8>, String> = c.lib(&what, || {
        let e = |e: ImageErrors| format!("{e:?}");
        match way {
            0 | 1 => im.write_to_vec(fmt).map_err(e),
            2 => {
                let mut v = vec![];
                let n = im.encode(fmt, &mut v).map_err(e)?;
                if n != v.len() {
                    return Err(format!("count: {n} reported, {} written", v.len()));
                }
                Ok(v)
            }
            3 | 4 => {
                let mut v = vec![];
                let n = fmt.encode(im, opt, &mut v).map_err(e)?;
                if n != v.len() {
                    return Err(format!("count: {n} reported, {} written", v.len()));
                }
                Ok(v)
            }
            5 => {
                let mut v = vec![];
                match fmt {
                    ImageFormat::PNG => im.write_with_encoder(codecs::png::PngEncoder::new(), &mut v),
                    ImageFormat::PPM => im.write_with_encoder(codecs::ppm::PPMEncoder::new(), &mut v),
                    ImageFormat::QOI => im.write_with_encoder(codecs::qoi::QoiEncoder::new(), &mut v),
                    ImageFormat::Farbfeld => im.write_with_encoder(codecs::farbfeld::FarbFeldEncoder::new(), &mut v),
                    ImageFormat::JPEG_XL => im.write_with_encoder(codecs::jpeg_xl::JxlEncoder::new(), &mut v),
                    ImageFormat::HDR => im.write_with_encoder(codecs::hdr::HdrEncoder::new(), &mut v),
                    _ => im.write_with_encoder(codecs::jpeg::JpegEncoder::new(), &mut v)
                }
                .map_err(e)?;
                Ok(v)
            }
            6 => {
                let d = Scratch::new(tag);
                let p = d.0.join("picture.unrelated");
                // an older, longer file must be replaced
                std::fs::write(&p, vec![7; 300_000]).map_err(|e| e.to_string())?;
                im.save_to(&p, fmt).map_err(e)?;
                std::fs::read(&p).map_err(|e| e.to_string())
            }
            _ => {
                let d = Scratch::new(tag);
                let p = d.0.join(format!("picture.{ext}"));
                im.save(&p).map_err(e)?;
                std::fs::read(&p).map_err(|e| e.to_string())
            }
        }
    })?;
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            c.fail(format!("{}-refused", name(fmt)), e);
            None
        }
    }
}
fn read(c: &mut Case, f: &[u8], fmt: ImageFormat) -> Option<Image> {
    let way = c.rng.below(5);
    let tag = c.rng.u64();
    c.tag(&format!("read/{way}"));
    let what = format!("read-{}", name(fmt));
    let o = DecoderOptions::default();
    let r: Result<Image, String> = c.lib(&what, || {
        let e = |e: ImageErrors| format!("{e:?}");
        match way {
            0 => Image::read(ZCursor::new(f), o).map_err(e),
            1 => Image::read(Cursor::new(f), o).map_err(e),
            2 => Image::read(std::io::BufReader::with_capacity(37, Cursor::new(f)), o).map_err(e),
            3 => fmt.decoder(Cursor::new(f)).and_then(|mut d| d.decode()).map_err(e),
            _ => {
                let d = Scratch::new(tag);
                let p = d.0.join("picture");
                std::fs::write(&p, f).map_err(|e| e.to_string())?;
                Image::open(&p).map_err(e)
            }
        }
    })?;
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            c.fail(format!("{}-unreadable", name(fmt)), e);
            None
        }
    }
}
fn guessed(c: &mut Case, f: &[u8], fmt: ImageFormat) {
    let g = c.lib("guess", || ImageFormat::guess_format(Cursor::new(f)).map(|(f, mut back)| (f, { let mut v = vec![]; std::io::Read::read_to_end(&mut back, &mut v).map(|_| v).ok() })));
    let Some(g) = g else { return };
    match g {
        Some((g, rest)) => {
            c.check(g == fmt, &format!("guess-{}", name(fmt)), || format!("taken for {g:?}"));
            // the source given back still holds the whole file
            c.check(rest.as_deref() == Some(f), "guess-source", || "the source handed back does not deliver the file".into());
        }
        None => c.fail(format!("guess-{}", name(fmt)), format!("{} bytes not recognised, start {:02x?}", f.len(), &f[..f.len().min(16)]))
    }
}
/// Any image to any lossless format and back.
pub fn save(c: &mut Case) {
    let fmt = WRITERS[c.rng.below(6)];
    let max = if c.rng.one_in(8) { 200 } else { 24 };
    let m = Model::random(&mut c.rng, max, &zvimg::BASIC, &zvimg::DEPTHS);
    let im = m.build();
    c.sample(|| format!("{} as {}", m.fmt(), name(fmt)));
    c.tag(&format!("{}/{:?}/{:?}", name(fmt), m.cs, m.depth));
    let Some(f) = write(c, &im, fmt) else { return };
    c.blob(&f);
    match Model::read(&im) {
        Ok(a) => {
            let d = a.diff(&m, 0.0);
            c.check(d.is_none(), "saved-image-modified", || d.unwrap_or_default());
        }
        Err(e) => c.fail("saved-image-modified", e)
    }
    guessed(c, &f, fmt);
    c.saw(hash_bytes(&f));
    let (want, conv) = expected(&m, fmt);
    let Some(im2) = read(c, &f, fmt) else { return };
    c.check(im2.metadata().image_format() == Some(fmt), "format-unset", || format!("{:?} for {fmt:?}", im2.metadata().image_format()));
    let got = match Model::read(&im2) {
        Ok(g) => g,
        Err(e) => return c.fail(format!("{}-inconsistent", name(fmt)), e)
    };
    let sig = format!("{}-differs", name(fmt));
    match fmt {
        ImageFormat::JPEG_XL => {
            // read back as floats
            let k = want.full();
            let mut w = want.clone();
            w.depth = BitDepth::Float32;
            for p in &mut w.frames[0] {
                for v in p {
                    *v /= k;
                }
            }
            let d = got.diff(&w, if conv { 1.01 / k } else { 0.1 / k });
            c.check(d.is_none(), &sig, || d.unwrap_or_default());
        }
        ImageFormat::HDR => {
            if got.cs != want.cs || got.depth != want.depth || (got.w, got.h) != (want.w, want.h) || got.frames.len() != 1 {
                return c.fail(sig, format!("{} for {}", got.fmt(), want.fmt()));
            }
            for i in 0..want.w * want.h {
                let w = [0, 1, 2].map(|k| want.frames[0][k][i]);
                let g = [0, 1, 2].map(|k| got.frames[0][k][i]);
                let m = w[0].max(w[1]).max(w[2]);
                if (0..3).any(|k| !((w[k] - g[k]).abs() <= m / 127.0 + 1e-9)) {
                    return c.fail(sig, format!("pixel {i}: {g:?} for {w:?}"));
                }
            }
        }
        _ => {
            let d = got.diff(&want, if conv { 1.01 } else { 0.0 });
            c.check(d.is_none(), &sig, || d.unwrap_or_default());
        }
    }
}
/// Smooth images through JPEG come back close, in every space it takes.
pub fn jpeg(c: &mut Case) {
    let r = &mut c.rng;
    let (w, h) = (r.range(1, 90), r.range(1, 90));
    let cs = *r.pick(&[ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::BGR, ColorSpace::BGRA, ColorSpace::ARGB, ColorSpace::CMYK, ColorSpace::HSV, ColorSpace::HSL]);
    let base = match cs {
        ColorSpace::CMYK | ColorSpace::HSV | ColorSpace::HSL => ColorSpace::RGB,
        s => s
    };
    let depth = *r.pick(&zvimg::DEPTHS);
    // slow slopes, also against each other
    let n = base.num_components();
    let k = full(depth) / 255.0;
    let planes: Vec<Vec<f64>> = (0..n)
        .map(|_| {
            let (a, b, o) = (r.irange(-100, 100) as f64 / 100.0, r.irange(-100, 100) as f64 / 100.0, r.irange(60, 195) as f64);
            (0..w * h)
                .map(|i| {
                    let v = (o + a * (i % w) as f64 + b * (i / w) as f64).clamp(0.0, 255.0).round() * k;
                    if depth == BitDepth::Float32 {
                        v as f32 as f64
                    } else {
                        v
                    }
                })
                .collect()
        })
        .collect();
    let m = Model { w, h, cs: base, depth, frames: vec![planes], times: vec![(1, 1)] };
    let mut im = m.build();
    if base != cs {
        let Some(Ok(())) = c.lib("convert", || im.convert_color(cs)) else { return };
    }
    c.tag(&format!("{cs:?}/{depth:?}"));
    c.sample(|| format!("{w}x{h} {cs:?} {depth:?}"));
    let Some(f) = write(c, &im, ImageFormat::JPEG) else { return };
    c.blob(&f);
    guessed(c, &f, ImageFormat::JPEG);
    c.saw(hash_bytes(&f));
    let (want, _) = expected(&m, ImageFormat::JPEG);
    let Some(im2) = read(c, &f, ImageFormat::JPEG) else { return };
    let got = match Model::read(&im2) {
        Ok(g) => g,
        Err(e) => return c.fail("jpeg-inconsistent", e)
    };
    // the decoder shows RGB unless asked otherwise
    let (got_rgb, want_rgb): (Vec<_>, Vec<_>) = (0..w * h).map(|i| (rgba(&got, 0, i).0, rgba(&want, 0, i).0)).unzip();
    if (got.w, got.h, got.frames.len(), got.depth) != (w, h, 1, BitDepth::Eight) {
        return c.fail("jpeg-shape", format!("{} for {}", got.fmt(), want.fmt()));
    }
    let mut sum = 0.0;
    for (g, w) in got_rgb.iter().zip(&want_rgb) {
        for k in 0..3 {
            sum += (g[k] - w[k]).abs();
        }
    }
    let mean = sum / (3 * w * h) as f64;
    let tol = match cs {
        ColorSpace::HSV | ColorSpace::HSL => 8.0,
        _ => 5.0
    };
    c.check(mean <= tol, &format!("jpeg-far/{cs:?}"), || format!("mean difference {mean:.2} for {w}x{h} {cs:?} {depth:?}"));
}
/// Files of every format written by independent generators.
pub fn guess(c: &mut Case) {
    let r = &mut c.rng;
    let (f, fmt) = match r.below(8) {
        0 => (zvgen::raster::Qoi::random(r, 20).file, ImageFormat::QOI),
        1 => (zvgen::raster::Pnm::random(r, 20).file, ImageFormat::PPM),
        2 => (zvgen::raster::farbfeld(r, 20).3, ImageFormat::Farbfeld),
        3 => (zvgen::raster::Hdr::random(r, 20).file, ImageFormat::HDR),
        4 => (zvgen::raster::Bmp::random(r, 20).file, ImageFormat::BMP),
        5 => (zvgen::raster::Psd::random(r, 20).file, ImageFormat::PSD),
        _ => {
            let m = Model::random(r, 20, &[ColorSpace::RGB, ColorSpace::Luma], &[BitDepth::Eight]);
            let fmt = WRITERS[r.below(7)];
            match m.build().write_to_vec(fmt) {
                Ok(f) => (f, fmt),
                Err(_) => return
            }
        }
    };
    c.blob(&f);
    c.tag(name(fmt));
    c.saw(hash_bytes(&f));
    guessed(c, &f, fmt);
}
/// Accepts `left` bytes, then fails every write.
struct Bad {
    left: usize,
    flush_only: bool
}
impl Write for Bad {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.left);
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "disk full"));
        }
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.flush_only {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "disk full"));
        }
        Ok(())
    }
}
/// Writes that fail are reported, wherever they fail.
pub fn full_disk(c: &mut Case) {
    let fmt = *c.rng.pick(&WRITERS);
    let max = if c.rng.one_in(5) { 150 } else { 20 };
    let m = Model::random(&mut c.rng, max, &zvimg::BASIC, &zvimg::DEPTHS);
    let im = m.build();
    let Some(Ok(f)) = c.lib("write", || im.write_to_vec(fmt)) else { return };
    c.tag(name(fmt));
    c.saw(hash_bytes(&f));
    let left = match c.rng.below(4) {
        0 => 0,
        1 => f.len() - 1,
        _ => c.rng.below(f.len())
    };
    let r = c.lib("encode", || im.encode(fmt, &mut Bad { left, flush_only: false }).map_err(|e| format!("{e:?}")));
    if let Some(r) = r {
        c.check(r.is_err(), &format!("lost-error-{}", name(fmt)), || format!("{r:?} after {left} of {} bytes", f.len()));
    }
    // the device that accepts nothing
    let r = c.lib("save_to", || im.save_to("/dev/full", fmt).map_err(|e| format!("{e:?}")));
    if let Some(r) = r {
        c.check(r.is_err(), &format!("lost-error-file-{}", name(fmt)), || format!("{} bytes saved to a full disk", f.len()));
    }
    let d = Scratch::new(c.rng.u64());
    let p = d.0.join("missing").join(format!("a.{}", exts(fmt)[0]));
    let r = c.lib("save", || im.save(&p).map_err(|e| format!("{e:?}")));
    if let Some(r) = r {
        c.check(r.is_err(), "saved-nowhere", || "saving into a folder that is not there".into());
    }
    // no encoder for the name: refused, and nothing written
    let bad = *c.rng.pick(&["picture", "picture.xyz", "picture.png.bak"]);
    let p = d.0.join(bad);
    let r = c.lib("save", || im.save(&p).map_err(|e| format!("{e:?}")));
    if let Some(r) = r {
        c.check(r.is_err() && !p.exists(), "saved-unknown", || format!("{bad}: {r:?}, exists {}", p.exists()));
    }
}
