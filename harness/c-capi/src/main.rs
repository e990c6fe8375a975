//! A01: the C interface against the library, call by call.
extern crate zil_c;
mod ffi;
use ffi::*;
use std::ffi::{CStr, CString};
use std::fmt::Write as _;
use std::ptr::{null, null_mut};
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_image::codecs::ImageFormat;
use zune_image::core_filters::colorspace::ColorspaceConv;
use zune_image::core_filters::depth::Depth;
use zune_image::image::Image;
use zune_image::traits::OperationsTrait;
use zune_imageprocs as ip;
use zvcore::{catch, hash_bytes, Case, Family, Rng};
use zvgen::corpus::{damage, magic_noise, valid, Fmt, FMTS};
use zvimg::*;

const SPACES: [ColorSpace; 13] = [
    ColorSpace::Unknown, ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::YCbCr, ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::YCCK, ColorSpace::CMYK,
    ColorSpace::BGR, ColorSpace::BGRA, ColorSpace::ARGB, ColorSpace::HSL, ColorSpace::HSV
];
fn space_no(c: ColorSpace) -> u32 {
    SPACES.iter().position(|x| *x == c).unwrap_or(0) as u32
}
fn depth_no(d: BitDepth) -> u32 {
    match d {
        BitDepth::Eight => 1,
        BitDepth::Sixteen => 2,
        BitDepth::Float32 => 4,
        _ => 0
    }
}
const FORMATS: [ImageFormat; 10] = [
    ImageFormat::Unknown, ImageFormat::JPEG, ImageFormat::PNG, ImageFormat::PPM, ImageFormat::PSD, ImageFormat::Farbfeld, ImageFormat::QOI, ImageFormat::JPEG_XL,
    ImageFormat::HDR, ImageFormat::BMP
];
fn format_no(f: ImageFormat) -> u32 {
    FORMATS.iter().position(|x| *x == f).unwrap_or(0) as u32
}
/// interleaved native-endian bytes of the first frame
fn bytes_of(m: &Model) -> Vec<u8> {
    let mut o = vec![];
    for v in m.interleaved(0) {
        match m.depth {
            BitDepth::Eight => o.push(v as u8),
            BitDepth::Sixteen => o.extend_from_slice(&(v as u16).to_ne_bytes()),
            _ => o.extend_from_slice(&(v as f32).to_ne_bytes())
        }
    }
    o
}
fn same_pixels(a: &[u8], b: &[u8], d: BitDepth) -> bool {
    a == b
        || (d == BitDepth::Float32
            && a.len() == b.len()
            && a.chunks_exact(4).zip(b.chunks_exact(4)).all(|(x, y)| {
                let (x, y) = (f32::from_ne_bytes(x.try_into().unwrap()), f32::from_ne_bytes(y.try_into().unwrap()));
                x == y || x.is_nan() && y.is_nan()
            }))
}
struct Status(*mut ZStatus);
impl Status {
    fn new() -> Status {
        let s = unsafe { zil_status_new() };
        assert!(!s.is_null());
        Status(s)
    }
    fn ok(&self) -> bool {
        unsafe { zil_status_ok(self.0) }
    }
    fn text(&self) -> String {
        let m = unsafe { zil_status_message(self.0) };
        if m.is_null() {
            return "(null)".into();
        }
        format!("{}: {}", unsafe { zil_status_code(self.0) }, unsafe { CStr::from_ptr(m) }.to_string_lossy())
    }
}
impl Drop for Status {
    fn drop(&mut self) {
        unsafe { zil_status_free(self.0) }
    }
}
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new(c: &mut Case) -> Scratch {
        let p = std::env::temp_dir().join(format!("zv-capi-{}-{:x}", std::process::id(), c.rng.u64()));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
    fn at(&self, n: &str) -> (std::path::PathBuf, CString) {
        let p = self.0.join(n);
        let c = CString::new(p.to_str().unwrap()).unwrap();
        (p, c)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn jxl(r: &mut Rng) -> Vec<u8> {
    let m = Model::random_at(r, 1 + r.clone().below(20), 1 + r.clone().below(20), *r.clone().pick(&[ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA]), *r.clone().pick(&[BitDepth::Eight, BitDepth::Sixteen]), 1);
    m.build().write_to_vec(ImageFormat::JPEG_XL).unwrap_or_default()
}
fn file(c: &mut Case) -> (Vec<u8>, String, bool) {
    if c.rng.one_in(10) {
        let b = jxl(&mut c.rng);
        return (b, "jxl".into(), false);
    }
    let fmt = *c.rng.pick(&FMTS);
    let f = valid(&mut c.rng, fmt, 24);
    (f.bytes, f.what, fmt == Fmt::Apng)
}
/// What the library makes of a file: the format, its facts and its first frame.
fn library(b: &[u8]) -> Result<Option<(Image, Model)>, String> {
    // a panic in the library is R01's business
    match catch(|| Image::read(ZCursor::new(b), DecoderOptions::default())) {
        Err(_) => Err("panic".into()),
        Ok(Err(_)) => Ok(None),
        Ok(Ok(im)) => match Model::read(&im) {
            Ok(m) => Ok(Some((im, m))),
            Err(e) => Err(e)
        }
    }
}
struct Got {
    w: usize,
    h: usize,
    d: u32,
    ch: usize
}
impl Got {
    fn new() -> Got {
        Got { w: 77_777, h: 77_777, d: 0, ch: 77_777 }
    }
    fn untouched(&self) -> bool {
        (self.w, self.h, self.ch) == (77_777, 77_777, 77_777)
    }
    fn size(&self) -> usize {
        self.w * self.h * self.ch * self.d as usize
    }
    fn fmt(&self) -> String {
        format!("{}x{} {} channels of {} bytes", self.w, self.h, self.ch, self.d)
    }
}
fn judge(c: &mut Case, way: &str, what: &str, lib: &Option<(Image, Model)>, anim: bool, st: &Status, g: &Got, px: Option<&[u8]>) {
    c.saw(hash_bytes(format!("{what}{way}{}", c.idx).as_bytes()));
    c.tag(&format!("{way} {}", if st.ok() { "ok" } else { "failed" }));
    match lib {
        None => {
            // an animation whose later frames are damaged still has a first frame
            if st.ok() && !anim {
                c.fail(format!("{way}:accepted"), format!("{what}: the library refuses the file, {way} reports success ({})", g.fmt()));
            }
            if !st.ok() && !g.untouched() && way != "imread" && way != "imdecode" {
                c.tag("facts-after-failure");
            }
        }
        Some((_, m)) => {
            if !st.ok() {
                c.fail(format!("{way}:refused"), format!("{what}: the library reads it as {}, {way} says {}", m.fmt(), st.text()));
                return;
            }
            let want = (m.w, m.h, depth_no(m.depth), m.cs.num_components());
            if (g.w, g.h, g.d, g.ch) != want && !anim {
                c.fail(format!("{way}:facts"), format!("{what}: {} for {}", g.fmt(), m.fmt()));
                return;
            }
            if anim {
                return;
            }
            if let Some(px) = px {
                let b = bytes_of(m);
                if !same_pixels(px, &b, m.depth) {
                    let at = px.iter().zip(&b).position(|(x, y)| x != y);
                    c.fail(format!("{way}:pixels"), format!("{what}: {} byte {:?} of {}", m.fmt(), at, b.len()));
                }
            }
        }
    }
}
fn decode_all(c: &mut Case, b: &[u8], what: &str, anim: bool) {
    c.blob(b);
    let Ok(lib) = library(b) else {
        c.tag("library-trouble");
        return;
    };
    let info = catch(|| zune_image::utils::decode_info(ZCursor::new(b)));
    let Ok(info) = info else {
        c.tag("library-trouble");
        return;
    };
    // sizes nobody has memory for are only asked about
    let claims = info.as_ref().map(|i| i.dimensions().0.saturating_mul(i.dimensions().1)).unwrap_or(0);
    let scratch = if c.rng.one_in(4) { Some(Scratch::new(c)) } else { None };
    let st = Status::new();
    // guess
    let guess = zune_image::codecs::guess_format(ZCursor::new(b)).map(|x| x.0).unwrap_or(ImageFormat::Unknown);
    let g = unsafe { zil_guess_format(b.as_ptr(), b.len()) };
    c.check(g == format_no(guess), "guess", || format!("{what}: {g} for {guess:?}"));
    // headers
    let path = scratch.as_ref().map(|s| {
        let (p, n) = s.at("file.bin");
        std::fs::write(p, b).unwrap();
        n
    });
    for from_file in [false, true] {
        let m = match (&path, from_file) {
            (Some(p), true) => unsafe { zil_read_headers_from_file(p.as_ptr(), st.0) },
            (None, true) => continue,
            _ => unsafe { zil_read_headers_from_memory(b.as_ptr(), b.len(), st.0) }
        };
        match &info {
            None => {
                c.check(!st.ok(), "headers:accepted", || format!("{what}: {m:?}"));
            }
            Some(i) => {
                let want = (i.dimensions().0 as u32, i.dimensions().1 as u32, depth_no(i.depth()), space_no(i.colorspace()), format_no(i.image_format().unwrap_or(ImageFormat::Unknown)));
                c.check(st.ok(), "headers:refused", || format!("{what}: {}", st.text()));
                c.check((m.width, m.height, m.depth, m.colorspace, m.format) == want, "headers:facts", || format!("{what}: {m:?} for {want:?}"));
            }
        }
    }
    if claims > 4_000_000 {
        c.tag("huge-claim");
        return;
    }
    // whole decoding
    let mut g = Got::new();
    let p = unsafe { zil_imdecode(b.as_ptr(), b.len(), &mut g.w, &mut g.h, &mut g.d, &mut g.ch, st.0) };
    c.check(p.is_null() != st.ok(), "imdecode:null", || format!("{what}: null {} with status {}", p.is_null(), st.text()));
    let px = if p.is_null() { None } else { Some(unsafe { std::slice::from_raw_parts(p as *const u8, g.size()) }) };
    judge(c, "imdecode", what, &lib, anim, &st, &g, px);
    if !p.is_null() {
        unsafe { zil_free(p.cast()) }
    }
    if c.failed() {
        return;
    }
    let mut g = Got::new();
    if let Some(path) = &path {
        let p = unsafe { zil_imread(path.as_ptr(), &mut g.w, &mut g.h, &mut g.d, &mut g.ch, st.0) };
        c.check(p.is_null() != st.ok(), "imread:null", || format!("{what}: null {} with status {}", p.is_null(), st.text()));
        let px = if p.is_null() { None } else { Some(unsafe { std::slice::from_raw_parts(p as *const u8, g.size()) }) };
        judge(c, "imread", what, &lib, anim, &st, &g, px);
        let mut q = p.cast();
        if !p.is_null() {
            unsafe { zil_free_and_null(&mut q) }
            c.check(q.is_null(), "free-and-null", String::new);
        }
    }
    if c.failed() {
        return;
    }
    // into buffers of the caller's
    let need = lib.as_ref().map(|l| bytes_of(&l.1).len()).unwrap_or_else(|| c.rng.below(9000));
    for over in [0usize, 1 + c.rng.below(40), usize::MAX] {
        let len = if over == usize::MAX {
            if need == 0 {
                continue;
            }
            need - 1 - c.rng.below(need.min(20))
        } else {
            need + over
        };
        let words = len / 4 + 9;
        let mut buf = vec![0xA5A5_A5A5u32; words];
        let base = buf.as_mut_ptr().cast::<u8>();
        let by_file = path.is_some() && c.rng.bool();
        let mut g = Got::new();
        unsafe {
            let (w, h, d, n): (*mut usize, *mut usize, *mut u32, *mut usize) = if c.rng.one_in(6) { (null_mut(), null_mut(), null_mut(), null_mut()) } else { (&mut g.w, &mut g.h, &mut g.d, &mut g.ch) };
            if by_file {
                zil_imread_into(path.as_ref().unwrap().as_ptr(), base, len, w, h, d, n, st.0)
            } else {
                zil_imdecode_into(b.as_ptr(), b.len(), base, len, w, h, d, n, st.0)
            }
            if w.is_null() {
                if let Some((_, m)) = &lib {
                    g = Got { w: m.w, h: m.h, d: depth_no(m.depth), ch: m.cs.num_components() };
                }
            }
        }
        let all = unsafe { std::slice::from_raw_parts(base, words * 4) };
        if all[len..].iter().any(|x| *x != 0xA5) {
            c.fail("into:beyond", format!("{what}: bytes past a buffer of {len} were written"));
            return;
        }
        if over == usize::MAX {
            if lib.is_some() && !anim {
                c.check(!st.ok(), "into:short-accepted", || format!("{what}: needs {need}, buffer {len}"));
                c.check(unsafe { zil_status_code(st.0) } == 1, "into:short-code", || format!("{what}: {}", st.text()));
            }
        } else {
            judge(c, "into", what, &lib, anim, &st, &g, Some(&all[..need]));
            if lib.is_some() && !anim && over > 0 && all[need..len].iter().any(|x| *x != 0xA5) {
                // samples are delivered in whole pixels; what follows is the caller's
                c.fail("into:after", format!("{what}: bytes past the image were written, {need} of {len}"));
            }
        }
        if c.failed() {
            return;
        }
    }
}
fn decode(c: &mut Case) {
    let (b, what, anim) = file(c);
    c.sample(|| what.clone());
    c.tag(what.split(' ').find(|x| !x.starts_with(|d: char| d.is_ascii_digit())).unwrap_or(""));
    decode_all(c, &b, &what, anim);
}
fn damaged(c: &mut Case) {
    let (b, what, anim) = match c.rng.below(6) {
        0 => {
            let f = *c.rng.pick(&FMTS);
            (magic_noise(&mut c.rng, f), format!("noise {}", f.name()), f == Fmt::Apng || f == Fmt::Png)
        }
        1 => {
            let n = c.rng.below(200);
            (c.rng.bytes(n), "noise".into(), false)
        }
        2 => {
            let mut b = jxl(&mut c.rng);
            let i = c.rng.below(b.len());
            b[i] ^= 1 << c.rng.below(8);
            (b, "jxl".into(), false)
        }
        _ => {
            let f = *c.rng.pick(&FMTS);
            let mut b = valid(&mut c.rng, f, 20).bytes;
            damage(&mut c.rng, f, &mut b);
            (b, format!("damaged {}", f.name()), f == Fmt::Apng || f == Fmt::Png)
        }
    };
    decode_all(c, &b, &what, anim);
}

/// An image on both sides.
struct Pair {
    p: *mut ZI,
    im: Image
}
impl Drop for Pair {
    fn drop(&mut self) {
        unsafe { zil_zimg_free(self.p) }
    }
}
fn compare(c: &mut Case, p: *mut ZI, im: &Image, st: &Status, log: &str) {
    let Ok(m) = Model::read(im) else {
        c.tag(&format!("library-incoherent {:?}", Model::read(im).err()));
        return;
    };
    unsafe {
        let got = (zil_zimg_width(p, st.0), zil_zimg_height(p, st.0), zil_zimg_depth(p, st.0), zil_zimg_colorspace(p, st.0));
        let want = (m.w, m.h, depth_no(m.depth), space_no(m.cs));
        c.check(got == want, "image:facts", || format!("{log}: {got:?} for {want:?}"));
        let n = zil_zimg_get_out_buffer_size(p, st.0);
        let b = bytes_of(&m);
        if !c.check(n == b.len(), "image:size", || format!("{log}: {n} for {}", b.len())) {
            return;
        }
        for len in [n, n + 1 + c.rng.below(30) / 4 * 4 + 3, n.saturating_sub(1 + c.rng.below(4))] {
            let mut buf = vec![0x5A5A_5A5Au32; len / 4 + 8];
            let base = buf.as_mut_ptr().cast::<u8>();
            let k = zil_zimg_write_to_output(p, base, len, st.0);
            let all = std::slice::from_raw_parts(base, buf.len() * 4);
            c.check(all[len..].iter().all(|x| *x == 0x5A), "image:beyond", || format!("{log}: past {len}"));
            c.saw(hash_bytes(format!("{log}{len}").as_bytes()));
            if len < n {
                // as many whole samples as fit, or nothing
                c.check(k <= len && same_pixels(&all[..k], &b[..k], m.depth), "image:short", || format!("{log}: {n} bytes into {len}: {k}, {}", st.text()));
            } else if len == n || len % m.depth.size_of() == 0 {
                if c.check(k == n && st.ok(), "image:not-written", || format!("{log}: {n} bytes into {len}: {k}, {}", st.text())) {
                    c.check(same_pixels(&all[..n], &b, m.depth), "image:pixels", || format!("{log}: {}", m.fmt()));
                }
            }
        }
    }
}
const OPS: usize = 19;
fn op(c: &mut Case, k: usize, pair: &mut Pair, other: Option<&Pair>, st: &Status, log: &mut String) -> bool {
    let r = &mut c.rng;
    let (w, h) = pair.im.dimensions();
    let f = if r.one_in(6) { *r.pick(&[0.0, -1.0, 1e9, f32::NAN, 255.0, 1.0]) } else { r.f32() * 4.0 };
    let f2 = if r.one_in(6) { *r.pick(&[0.0, -1.0, 300.0, f32::INFINITY, 1.0]) } else { r.f32() * 4.0 };
    let (p, s) = (pair.p, st.0);
    let o: Box<dyn OperationsTrait> = unsafe {
        match k {
            0 => {
                let _ = write!(log, "contrast {f}; ");
                zil_imgproc_adjust_contrast(p, f, s);
                Box::new(ip::contrast::Contrast::new(f))
            }
            1 => {
                let _ = write!(log, "orient; ");
                zil_imgproc_auto_orient(p, s);
                Box::new(ip::auto_orient::AutoOrient)
            }
            2 => {
                let d = 1 + r.below(5) as i32;
                let _ = write!(log, "bilateral {d} {f} {f2}; ");
                zil_imgproc_bilateral_filter(p, d, f, f2, s);
                Box::new(ip::bilateral_filter::BilateralFilter::new(d, f, f2))
            }
            3 => {
                let Some(o) = other else { return true };
                let _ = write!(log, "blend {f}; ");
                zil_imgproc_blend(p, o.p, f, s);
                let want = ip::blend::Blend::new(&o.im, f).execute(&mut pair.im);
                return settled(c, want.map_err(|e| e.to_string()), st, log);
            }
            4 => {
                let _ = write!(log, "exposure {f} {f2}; ");
                zil_imgproc_exposure(p, f, f2, s);
                Box::new(ip::exposure::Exposure::new(f, f2))
            }
            5 => {
                let d = *r.pick(&[BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32, BitDepth::Unknown]);
                let _ = write!(log, "depth {d:?}; ");
                zil_imgproc_change_depth(p, depth_no(d), s);
                Box::new(Depth::new(d))
            }
            6 => {
                let cs = *r.pick(&SPACES);
                let _ = write!(log, "space {cs:?}; ");
                zil_imgproc_convert_colorspace(p, space_no(cs), s);
                Box::new(ColorspaceConv::new(cs))
            }
            7 => {
                let v = (r.below(w + 2), r.below(h + 2), r.below(w + 1), r.below(h + 1));
                let _ = write!(log, "crop {v:?}; ");
                zil_imgproc_crop(p, v.0, v.1, v.2, v.3, s);
                Box::new(ip::crop::Crop::new(v.0, v.1, v.2, v.3))
            }
            8 => {
                let _ = write!(log, "mirror; ");
                zil_imgproc_flip_mirror_x_axis(p, s);
                Box::new(ip::flip::Flip::new(ip::flip::FlipDirection::MirrorXAxis))
            }
            9 => {
                let _ = write!(log, "flop; ");
                zil_imgproc_flip_horizontal(p, s);
                Box::new(ip::flip::Flip::new(ip::flip::FlipDirection::Horizontal))
            }
            10 => {
                let _ = write!(log, "gamma {f}; ");
                zil_imgproc_gamma(p, f, s);
                Box::new(ip::gamma::Gamma::new(f))
            }
            11 => {
                let _ = write!(log, "invert; ");
                zil_imgproc_invert(p, s);
                Box::new(ip::invert::Invert::new())
            }
            12 => {
                let _ = write!(log, "brighten {f}; ");
                zil_imgproc_brighten(p, f, s);
                Box::new(ip::brighten::Brighten::new(f))
            }
            13 => {
                let f = if f.is_nan() || f > 50.0 { 3.0 } else { f };
                let _ = write!(log, "blur {f}; ");
                zil_imgproc_gaussian_blur(p, f, s);
                Box::new(ip::gaussian_blur::GaussianBlur::new(f))
            }
            14 => {
                let _ = write!(log, "stretch {f} {f2}; ");
                zil_imgproc_stretch_contrast(p, f, f2, s);
                Box::new(ip::stretch_contrast::StretchContrast::new(f, f2))
            }
            15 => {
                let _ = write!(log, "transpose; ");
                zil_imgproc_transpose(p, s);
                Box::new(ip::transpose::Transpose::new())
            }
            16 => {
                let _ = write!(log, "sobel; ");
                zil_imgproc_sobel(p, s);
                Box::new(ip::sobel::Sobel::new())
            }
            17 => {
                let _ = write!(log, "scharr; ");
                zil_imgproc_scharr(p, s);
                Box::new(ip::scharr::Scharr::new())
            }
            _ => {
                let n = r.below(4);
                let _ = write!(log, "median {n}; ");
                zil_imgproc_median_blur(p, n, s);
                Box::new(ip::median::Median::new(n))
            }
        }
    };
    let want = o.execute(&mut pair.im).map_err(|e| e.to_string());
    settled(c, want, st, log)
}
fn settled(c: &mut Case, want: Result<(), String>, st: &Status, log: &str) -> bool {
    c.tag(if want.is_ok() { "op ok" } else { "op refused" });
    c.check(want.is_ok() == st.ok(), "image:status", || format!("{log}: the library says {want:?}, the status {}", st.text()))
}
/// make an image by one of the constructors
fn make(c: &mut Case, log: &mut String) -> Option<Pair> {
    let m = {
        let (w, h) = size(&mut c.rng, 24);
        let (cs, d) = (*c.rng.pick(&SPACES[1..]), *c.rng.pick(&DEPTHS));
        Model::random_at(&mut c.rng, w, h, cs, d, 1)
    };
    let n = m.w * m.h * m.cs.num_components();
    let way = c.rng.below(12);
    let (mut w, mut h, mut cs, mut len) = (m.w, m.h, m.cs, n);
    let good = match way {
        0 => {
            len = c.rng.below(n);
            false
        }
        1 => {
            if c.rng.bool() {
                w = 0
            } else {
                h = 0
            }
            false
        }
        2 => {
            (w, h) = *c.rng.pick(&[(usize::MAX, 2), (1 << 40, 1 << 40), (usize::MAX, usize::MAX), (1 << 62, 1 << 1)]);
            false
        }
        3 => {
            cs = ColorSpace::Unknown;
            false
        }
        4..=6 => {
            len = n + 1 + c.rng.below(9);
            true
        }
        _ => true
    };
    let _ = write!(log, "from {} with {len} samples as {w}x{h} {cs:?}; ", m.fmt());
    let inter = m.interleaved(0);
    let at = |i: usize| inter[i % n];
    let p = unsafe {
        match m.depth {
            BitDepth::Eight => {
                let v: Vec<u8> = (0..len).map(|i| at(i) as u8).collect();
                zil_zimg_from_u8(v.as_ptr(), len, w, h, space_no(cs))
            }
            BitDepth::Sixteen => {
                let v: Vec<u16> = (0..len).map(|i| at(i) as u16).collect();
                zil_zimg_from_u16(v.as_ptr(), len, w, h, space_no(cs))
            }
            _ => {
                let v: Vec<f32> = (0..len).map(|i| at(i) as f32).collect();
                zil_zimg_from_f32(v.as_ptr(), len, w, h, space_no(cs))
            }
        }
    };
    c.tag(if good { "made" } else { "not made" });
    if !good {
        c.check(p.is_null(), "from:accepted", || log.clone());
        if !p.is_null() {
            unsafe { zil_zimg_free(p) }
        }
        return None;
    }
    if !c.check(!p.is_null(), "from:refused", || log.clone()) {
        return None;
    }
    Some(Pair { p, im: m.build() })
}
fn load(c: &mut Case, log: &mut String, st: &Status, sc: &Scratch, into: Option<Pair>) -> Option<Pair> {
    let (mut b, what, _) = file(c);
    if c.rng.one_in(4) {
        let at = c.rng.below(b.len());
        b.truncate(at);
    }
    let (p, n) = sc.at("in");
    let by_file = c.rng.bool();
    let missing = by_file && c.rng.one_in(6);
    let _ = write!(log, "load {what} {} bytes file {by_file}; ", b.len());
    let want = if missing {
        let _ = std::fs::remove_file(&p);
        Err("missing".to_string())
    } else if by_file {
        std::fs::write(&p, &b).unwrap();
        catch(|| Image::open(&p)).ok()?.map_err(|e| e.to_string())
    } else {
        catch(|| Image::read(ZCursor::new(&b), DecoderOptions::new_fast())).ok()?.map_err(|e| e.to_string())
    };
    let mut pair = into.unwrap_or_else(|| {
        let p = unsafe { zil_zimg_new() };
        assert!(!p.is_null());
        Pair { p, im: Image::new(vec![], BitDepth::Unknown, 1, 1, ColorSpace::Unknown) }
    });
    unsafe {
        if by_file {
            zil_zimg_open(n.as_ptr(), pair.p, st.0)
        } else {
            zil_zimg_read_from_memory(b.as_ptr(), b.len(), pair.p, st.0)
        }
    }
    c.tag(if want.is_ok() { "loaded" } else { "load failed" });
    c.check(want.is_ok() == st.ok(), "load:status", || format!("{log}: the library says {:?}, the status {}", want.as_ref().map(|_| ()).map_err(|e| e.clone()), st.text()));
    match want {
        Ok(im) => pair.im = im,
        // an image without channels holds nothing to compare or process
        Err(_) if pair.im.channels_ref(false).is_empty() => return None,
        Err(_) => {}
    }
    Some(pair)
}
fn history(c: &mut Case) {
    let st = Status::new();
    let sc = Scratch::new(c);
    let mut log = String::new();
    let mut pairs: Vec<Pair> = vec![];
    let steps = 3 + c.rng.below(10);
    for _ in 0..steps {
        if c.failed() {
            break;
        }
        match c.rng.below(10) {
            0 | 1 => {
                if let Some(p) = make(c, &mut log) {
                    pairs.push(p)
                }
            }
            2 => {
                let into = if c.rng.one_in(3) { pairs.pop() } else { None };
                if let Some(p) = load(c, &mut log, &st, &sc, into) {
                    pairs.push(p)
                }
            }
            3 if !pairs.is_empty() => {
                let i = c.rng.below(pairs.len());
                let q = unsafe { zil_zimg_clone(pairs[i].p) };
                log.push_str("clone; ");
                if c.check(!q.is_null(), "clone:null", || log.clone()) {
                    let im = pairs[i].im.clone();
                    if c.rng.bool() {
                        // the original may go first
                        pairs.remove(i);
                    }
                    pairs.push(Pair { p: q, im });
                }
            }
            4 if !pairs.is_empty() => {
                let i = c.rng.below(pairs.len());
                let ext = *c.rng.pick(&["png", "ppm", "qoi", "ff", "jxl", "hdr", "jpg", "bmp", "psd", "xyz", "pam"]);
                let fmt = *c.rng.pick(&FORMATS);
                let by_ext = c.rng.bool();
                let bad = c.rng.one_in(8);
                let dir = if bad { "nowhere/" } else { "" };
                let (a, _) = sc.at(&format!("{dir}lib.{ext}"));
                let (b, bn) = sc.at(&format!("{dir}c.{ext}"));
                let _ = write!(log, "save .{ext} {fmt:?} by ext {by_ext} bad {bad}; ");
                let want = catch(|| if by_ext { pairs[i].im.save(&a) } else { pairs[i].im.save_to(&a, fmt) });
                let want = match want {
                    Ok(w) => w,
                    Err(e) => {
                        c.tag(&format!("library-trouble {}", e.sig()));
                        continue;
                    }
                };
                unsafe {
                    if by_ext {
                        zil_zimg_write_to_disk(bn.as_ptr(), pairs[i].p, st.0)
                    } else {
                        zil_zimg_write_to_disk_with_format(bn.as_ptr(), pairs[i].p, format_no(fmt), st.0)
                    }
                }
                c.tag(if want.is_ok() { "saved" } else { "save refused" });
                c.check(want.is_ok() == st.ok(), "save:status", || format!("{log}: the library says {want:?}, the status {}", st.text()));
                if want.is_ok() && st.ok() {
                    let (x, y) = (std::fs::read(&a).ok(), std::fs::read(&b).ok());
                    c.check(x == y && x.is_some(), "save:bytes", || format!("{log}: {:?} and {:?} bytes", x.as_ref().map(|v| v.len()), y.as_ref().map(|v| v.len())));
                }
                let _ = std::fs::remove_file(&a);
                let _ = std::fs::remove_file(&b);
            }
            5 => nulls(c),
            _ if !pairs.is_empty() => {
                let i = c.rng.below(pairs.len());
                let mut p = pairs.swap_remove(i);
                let k = c.rng.below(OPS);
                let other = pairs.first();
                let before = log.len();
                let whole = catch(|| op(c, k, &mut p, other, &st, &mut log));
                if let Err(e) = whole {
                    // the library's own operation panicked: O01's business
                    c.tag(&format!("library-trouble {}", e.sig()));
                    log.truncate(before);
                    continue;
                }
                pairs.push(p);
            }
            _ => {}
        }
        if c.failed() {
            break;
        }
        if let Some(p) = pairs.last() {
            compare(c, p.p, &p.im, &st, &log);
        }
    }
    c.sample(|| log.clone());
}
/// images and statuses that are not there
fn nulls(c: &mut Case) {
    let st = Status::new();
    unsafe {
        let n: *mut ZI = null_mut();
        let which = c.rng.below(12);
        let f = CString::new("/nonexistent/zv-capi.png").unwrap();
        match which {
            0 => {
                c.check(zil_zimg_width(n, st.0) == 0, "null:width", String::new);
            }
            1 => {
                c.check(zil_zimg_height(n, st.0) == 0, "null:height", String::new);
            }
            2 => {
                c.check(zil_zimg_depth(n, st.0) == 0, "null:depth", String::new);
            }
            3 => {
                c.check(zil_zimg_colorspace(n, st.0) == 0, "null:space", String::new);
            }
            4 => {
                c.check(zil_zimg_get_out_buffer_size(n, st.0) == 0, "null:size", String::new);
            }
            5 => {
                let mut b = [7u8; 16];
                c.check(zil_zimg_write_to_output(n, b.as_mut_ptr(), 16, st.0) == 0 && b == [7; 16], "null:output", String::new);
            }
            6 => zil_zimg_open(f.as_ptr(), n, st.0),
            7 => zil_zimg_write_to_disk(f.as_ptr(), n, st.0),
            8 => zil_imgproc_invert(n, st.0),
            9 => zil_imgproc_blend(n, n, 0.5, st.0),
            10 => {
                zil_zimg_free(n);
                zil_status_free(null_mut());
                c.check(zil_zimg_clone(null()).is_null(), "null:clone", String::new);
                c.check(!zil_status_ok(null()) && zil_status_code(null()) == 6 && zil_status_message(null()).is_null(), "null:status", String::new);
                zil_imgproc_invert(n, null_mut());
                c.check(zil_zimg_width(n, null_mut()) == 0, "null:width", String::new);
                return;
            }
            _ => {
                let b = [0u8; 4];
                c.check(zil_imdecode(b.as_ptr(), 4, null_mut(), null_mut(), null_mut(), null_mut(), null_mut()).is_null(), "null:decode", String::new);
                c.check(zil_read_headers_from_memory(b.as_ptr(), 4, null_mut()).width == 0, "null:headers", String::new);
                return;
            }
        }
        c.check(!st.ok() && zil_status_code(st.0) == 7, "null:code", || format!("call {which}: {}", st.text()));
    }
}
/// the same calls again and again: what is in use may not grow
fn leaks(c: &mut Case) {
    let (mut b, what, _) = file(c);
    if c.rng.one_in(2) {
        let at = c.rng.below(b.len());
        if c.rng.bool() {
            b.truncate(at);
        } else {
            b[at] ^= 1 << c.rng.below(8);
        }
    }
    let claims = catch(|| zune_image::utils::decode_info(ZCursor::new(&b)).map(|i| i.dimensions().0.saturating_mul(i.dimensions().1)).unwrap_or(0)).unwrap_or(usize::MAX);
    if claims > 1_000_000 || library(&b).is_err() {
        c.tag("skipped");
        return;
    }
    let sc = Scratch::new(c);
    let (p, n) = sc.at("in");
    std::fs::write(p, &b).unwrap();
    let (_, out) = sc.at("out.ppm");
    let way = c.rng.below(4);
    let round = || unsafe {
        let s = zil_status_new();
        let mut g = Got::new();
        let q = match way {
            0 => zil_imdecode(b.as_ptr(), b.len(), &mut g.w, &mut g.h, &mut g.d, &mut g.ch, s),
            1 => zil_imread(n.as_ptr(), &mut g.w, &mut g.h, &mut g.d, &mut g.ch, s),
            2 => {
                zil_read_headers_from_file(n.as_ptr(), s);
                null_mut()
            }
            _ => {
                let i = zil_zimg_new();
                zil_zimg_read_from_memory(b.as_ptr(), b.len(), i, s);
                if zil_status_ok(s) {
                    let j = zil_zimg_clone(i);
                    zil_imgproc_invert(j, s);
                    zil_imgproc_crop(j, 1, 1, 50, 50, s);
                    zil_zimg_write_to_disk(out.as_ptr(), j, s);
                    zil_zimg_open(out.as_ptr(), i, s);
                    zil_zimg_free(j);
                }
                zil_zimg_free(i);
                null_mut()
            }
        };
        if !q.is_null() {
            zil_free(q.cast());
        }
        zil_status_free(s);
    };
    let used = || {
        let m = unsafe { libc::mallinfo2() };
        m.uordblks + m.hblkhd
    };
    for _ in 0..6 {
        round();
    }
    // a leak shows in every block of rounds, however often they are repeated; caches and arenas settle,
    // and the allocator's own bookkeeping wavers
    let mut least = i64::MAX;
    for _ in 0..25 {
        let a = used() as i64;
        for _ in 0..20 {
            round();
        }
        least = least.min(used() as i64 - a);
        if least < 20 * 16 {
            break;
        }
    }
    c.saw(hash_bytes(&b));
    c.tag(&format!("way {way}"));
    c.check(least < 20 * 16, "leak", || format!("{what} way {way}: every 20 rounds leave at least {least} more bytes in use"));
}
static FAMILIES: &[Family] = &[
    Family { property: "R11", name: "capi", n: (1500, 40_000), rule: "cases of this program's other families run again and again; bytes, files and threads held must not grow", f: zvcore::balanced },
    Family { property: "A01", name: "decode", n: (3000, 60_000), rule: "valid files of every format through every decoding call, against the library", f: decode },
    Family { property: "A01", name: "damaged", n: (3000, 60_000), rule: "damaged files and noise through every decoding call, against the library", f: damaged },
    Family { property: "A01", name: "history", n: (2500, 60_000), rule: "random histories of image calls, each image with a twin in the library", f: history },
    Family { property: "A01-leaks", name: "leaks", n: (400, 6000), rule: "the same calls forty times: memory in use may not grow", f: leaks }
];
fn main() {
    zvcore::main(FAMILIES)
}
