//! O01, I07, T01: any operation on any image.
use crate::geo::MOVES;
use crate::resample::METHODS;
use exif::experimental::Writer;
use exif::{Field, In, Tag, Value};
use std::fmt::Write as _;
use std::io::Cursor;
use zune_core::bit_depth::{BitDepth, BitType};
use zune_core::colorspace::{ColorCharacteristics, ColorSpace};
use zune_image::core_filters::colorspace::ColorspaceConv;
use zune_image::core_filters::depth::Depth;
use zune_image::errors::ImageErrors;
use zune_image::image::Image;
use zune_image::metadata::{AlphaState, ImageMetadata};
use zune_image::traits::OperationsTrait;
use zune_imageprocs as ip;
use zvcore::{hash_bytes, Case, Rng};
use zvimg::*;

/// operations which borrow their other image
struct OwnBlend(Image, f32);
impl OperationsTrait for OwnBlend {
    fn name(&self) -> &'static str {
        "own blend"
    }
    fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
        ip::blend::Blend::new(&self.0, self.1).execute(image)
    }
    fn supported_types(&self) -> &'static [BitType] {
        &[BitType::U8, BitType::U16, BitType::F32]
    }
}
struct OwnComposite(Image, ip::composite::CompositeMethod, (usize, usize));
impl OperationsTrait for OwnComposite {
    fn name(&self) -> &'static str {
        "own composite"
    }
    fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
        ip::composite::Composite::new(&self.0, self.1, self.2).execute(image)
    }
    fn supported_types(&self) -> &'static [BitType] {
        &[BitType::U8, BitType::U16, BitType::F32]
    }
}
fn wild(r: &mut Rng, k: f32) -> f32 {
    match r.below(12) {
        0 => 0.0,
        1 => 1.0,
        2 => *r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]),
        3 => *r.pick(&[f32::MAX, f32::MIN, 1e9, -1e9, f32::MIN_POSITIVE, 1e-40]),
        4 => -r.f32() * k,
        _ => r.f32() * k
    }
}
pub struct Any {
    pub name: &'static str,
    pub detail: String,
    pub op: Box<dyn OperationsTrait + Send + Sync>,
    /// each frame is treated by itself, alike
    pub per_frame: bool
}
/// Any operation for an image like `m`.
pub fn any(r: &mut Rng, m: &Model) -> Any {
    let mut per_frame = true;
    let mut d = String::new();
    macro_rules! op {
        ($n:expr, $o:expr $(, $p:expr)*) => {{
            $(let _ = write!(d, "{:?} ", $p);)*
            ($n, Box::new($o) as Box<dyn OperationsTrait + Send + Sync>)
        }};
    }
    let (name, op) = match r.below(33) {
        0 => {
            let (a, b, cc) = (r.irange(-1, 12) as i32, wild(r, 100.0).min(1e3), r.f32() * 6.0);
            op!("bilateral", ip::bilateral_filter::BilateralFilter::new(a, b, cc), (a, b, cc))
        }
        1 => {
            let n = if r.one_in(4) { r.below(2000) } else { r.below(12) };
            op!("box blur", ip::box_blur::BoxBlur::new(n), n)
        }
        2 => {
            let v = wild(r, 2.0);
            op!("brighten", ip::brighten::Brighten::new(v), v)
        }
        3 => {
            let mut k = [[0f32; 5]; 4];
            k.iter_mut().flatten().for_each(|v| *v = wild(r, 1.5));
            op!("colour matrix", ip::color_matrix::ColorMatrix::new(k), k)
        }
        4 => {
            let v = wild(r, 200.0);
            op!("contrast", ip::contrast::Contrast::new(v), v)
        }
        5 => {
            let n = *r.pick(&[9usize, 25, 49, 8, 1, 0, 81]);
            let s = wild(r, 2.0);
            let k: Vec<f32> = (0..n).map(|_| wild(r, 2.0)).collect();
            op!("convolve", ip::convolve::Convolve::new(k, s), (n, s))
        }
        6 => {
            let q = (r.below(2 * m.w + 2), r.below(2 * m.h + 2), r.below(2 * m.w + 2), r.below(2 * m.h + 2));
            let q = if r.one_in(10) { (usize::MAX, q.1 + 2, q.2, usize::MAX) } else { q };
            op!("crop", ip::crop::Crop::new(q.0, q.1, q.2, q.3), q)
        }
        7 => {
            let (a, b) = (wild(r, 3.0), wild(r, 1.0));
            op!("exposure", ip::exposure::Exposure::new(a, b), (a, b))
        }
        8 | 9 => {
            let mv = *r.pick(&MOVES);
            let n: &'static str = "move";
            let _ = write!(d, "{mv:?}");
            (n, mv.op())
        }
        10 => {
            let v = wild(r, 3.0);
            op!("gamma", ip::gamma::Gamma::new(v), v)
        }
        11 => {
            let v = wild(r, 20.0);
            op!("gaussian blur", ip::gaussian_blur::GaussianBlur::new(v), v)
        }
        12 => {
            let (a, b, cc) = (wild(r, 360.0), wild(r, 2.0), wild(r, 2.0));
            op!("hsv adjust", ip::hsv_adjust::HsvAdjust::new(a, b, cc), (a, b, cc))
        }
        13 => op!("invert", ip::invert::Invert::new()),
        14 => {
            let n = r.below(6);
            op!("median", ip::median::Median::new(n), n)
        }
        15 => {
            let to = if r.bool() { AlphaState::PreMultiplied } else { AlphaState::NonPreMultiplied };
            op!("premultiply", ip::premul_alpha::PremultiplyAlpha::new(to), to)
        }
        16..=18 => {
            let (w, h) = (r.below(60), r.below(60));
            let k = *r.pick(&METHODS);
            op!("resize", ip::resize::Resize::new(w, h, k), (w, h, k))
        }
        19 => {
            let v = wild(r, 360.0);
            op!("rotate", ip::rotate::Rotate::new(v), v)
        }
        20 => op!("scharr", ip::scharr::Scharr::new()),
        21 => op!("sobel", ip::sobel::Sobel::new()),
        22 => {
            use ip::spatial_ops::SpatialOperations as S;
            let n = r.below(6);
            let k = *r.pick(&[S::Contrast, S::Maximum, S::Gradient, S::Minimum, S::Mean]);
            op!("statistics", ip::spatial::SpatialOps::new(n, k), n)
        }
        23 => {
            let (a, b) = (wild(r, m.full() as f32), wild(r, m.full() as f32));
            op!("stretch contrast", ip::stretch_contrast::StretchContrast::new(a, b), (a, b))
        }
        24 => {
            use ip::threshold::ThresholdMethod as S;
            let v = wild(r, m.full() as f32);
            let k = *r.pick(&[S::Binary, S::BinaryInv, S::ThreshTrunc, S::ThreshToZero]);
            op!("threshold", ip::threshold::Threshold::new(v, k), (v, k))
        }
        25 => {
            let (s, t, p) = (wild(r, 10.0), r.u16(), r.u8());
            op!("unsharpen", ip::unsharpen::Unsharpen::new(s, t, p), (s, t, p))
        }
        26 => {
            let k: Vec<f32> = (0..6).map(|_| (r.f32() - 0.5) * 4.0).collect();
            let k = if r.one_in(8) { vec![f32::NAN; 6] } else { k };
            op!("affine", ip::affine::AffineTransform::new(k[0], k[1], k[2], k[3], k[4] * 20.0, k[5] * 20.0), k)
        }
        27 => op!("auto orient", ip::auto_orient::AutoOrient),
        28 => {
            let n = m.frames.len();
            let cs = any_space(r);
            let o = if r.one_in(4) { Model::random_at(r, m.w + 1, m.h, cs, m.depth, n) } else { Model::random_at(r, m.w, m.h, m.cs, m.depth, n) };
            let a = wild(r, 1.0);
            per_frame = false;
            op!("blend", OwnBlend(o.build(), a), a)
        }
        29 => {
            use ip::composite::CompositeMethod as S;
            let n = m.frames.len();
            let (w, h) = size(r, 40);
            let cs = if r.one_in(6) { any_space(r) } else { m.cs };
            let o = Model::random_at(r, w, h, cs, m.depth, n);
            let k = *r.pick(&[S::Over, S::Src, S::Dst, S::DstIn]);
            let p = (r.below(50), r.below(50));
            per_frame = false;
            op!("composite", OwnComposite(o.build(), k, p), (w, h, k, p))
        }
        30 => {
            use ip::color_transform::ColorProfiles as P;
            let k = *r.pick(&[P::sRGB, P::AdobeRgb, P::DisplayP3, P::Bt2020, P::DciP3]);
            op!("colour transform", ip::color_transform::ColorTransform::new(k), k)
        }
        31 => {
            let to = any_space(r);
            op!("convert colour", ColorspaceConv::new(to), to)
        }
        _ => {
            let to = *r.pick(&DEPTHS);
            op!("convert depth", Depth::new(to), to)
        }
    };
    Any { name, detail: d, op, per_frame }
}
fn model(r: &mut Rng) -> Model {
    let (w, h) = size(r, if cfg!(miri) { 8 } else { 40 });
    let cs = any_space(r);
    let d = *r.pick(&DEPTHS);
    let n = if r.one_in(3) { 2 + r.below(2) } else { 1 };
    let mut m = Model::random_at(r, w, h, cs, d, n);
    // floats may be anything
    if d == BitDepth::Float32 && r.one_in(3) {
        for f in m.frames.iter_mut() {
            for p in f.iter_mut() {
                for v in p.iter_mut() {
                    if r.one_in(6) {
                        *v = *r.pick(&[f64::NAN, f64::INFINITY, -1.0, 2.0, 1e30, -1e30, 1e-40]) as f32 as f64;
                    }
                }
            }
        }
    }
    m
}
fn fields(r: &mut Rng) -> Vec<u8> {
    let mut f = vec![];
    let s = |r: &mut Rng| {
        let n = 1 + r.below(30);
        Value::Ascii(vec![(0..n).map(|_| r.range(32, 126) as u8).collect()])
    };
    for t in [Tag::Make, Tag::Model, Tag::Artist, Tag::ImageDescription] {
        if r.bool() {
            f.push(Field { tag: t, ifd_num: In::PRIMARY, value: s(r) });
        }
    }
    f.push(Field { tag: Tag::Orientation, ifd_num: In::PRIMARY, value: Value::Short(vec![1 + r.below(8) as u16]) });
    let mut b = Cursor::new(vec![]);
    let mut w = Writer::new();
    f.iter().for_each(|x| w.push_field(x));
    w.write(&mut b, r.bool()).expect("exif writer");
    b.into_inner()
}
fn decorate(r: &mut Rng, im: &mut Image) {
    let blob = fields(r);
    let icc = if r.bool() {
        let p = match r.below(3) {
            0 => moxcms::ColorProfile::new_display_p3(),
            1 => moxcms::ColorProfile::new_srgb(),
            _ => moxcms::ColorProfile::new_adobe_rgb()
        };
        if r.one_in(4) { Some(r.bytes(200)) } else { p.encode().ok() }
    } else {
        None
    };
    let m = im.metadata_mut();
    m.parse_raw_exif(&blob);
    if let Some(icc) = icc {
        m.set_icc_chunk(icc);
    }
    if r.bool() {
        m.set_default_gamma(r.f32() * 3.0);
    }
    if r.one_in(3) {
        m.set_linear(true);
    }
    if r.one_in(3) {
        m.set_alpha(AlphaState::PreMultiplied);
    }
    if r.bool() {
        m.set_color_trc(*r.pick(&crate::trc::CURVES));
    }
}
/// The metadata as text, without the facts operations have to change.
fn masked(m: &ImageMetadata, op: &str) -> String {
    let mut m = m.clone();
    m.set_colorspace(ColorSpace::Unknown);
    m.set_depth(BitDepth::Unknown);
    m.set_dimensions(0, 0);
    if op == "premultiply" {
        m.set_alpha(AlphaState::NonPreMultiplied);
    }
    if op == "auto orient" {
        m.set_color_trc(ColorCharacteristics::sRGB);
        // it may say the turn has been made
        return format!("{:?} {:?}", m.icc_chunk().map(Vec::len), m.alpha());
    }
    if op == "colour transform" {
        // the profile is its business
        m.set_icc_chunk(vec![]);
    }
    format!("{m:?}")
}
fn facts(c: &mut Case, im: &Image, what: &str, detail: &str) -> Option<Model> {
    match Model::read(im) {
        Err(e) => {
            c.fail(format!("inconsistent:{what}"), format!("{detail}: {e}"));
            None
        }
        Ok(m) => {
            let md = im.metadata();
            c.check(md.dimensions() == im.dimensions() && md.colorspace() == im.colorspace() && md.depth() == im.depth(), &format!("facts:{what}"), || {
                format!("{detail}: metadata says {:?} {:?} {:?}, image {:?} {:?} {:?}", md.dimensions(), md.colorspace(), md.depth(), im.dimensions(), im.colorspace(), im.depth())
            });
            Some(m)
        }
    }
}
fn run(c: &mut Case, what: &str, im: Image, op: &dyn OperationsTrait) -> Option<(Result<(), String>, Image)> {
    c.lib(what, || {
        let mut im = im;
        let r = op.execute(&mut im).map_err(|e| {
            let mut e = format!("{e:?}");
            e.truncate(200);
            e
        });
        (r, im)
    })
}
/// Chains of any operations: an error, or a valid image; every frame as if it were alone.
pub fn any_op(c: &mut Case) {
    let mut m = model(&mut c.rng);
    let mut im = m.build();
    decorate(&mut c.rng, &mut im);
    let first = m.fmt();
    c.saw(m.hash());
    for _ in 0..1 + c.rng.below(3) {
        let a = any(&mut c.rng, &m);
        let detail = format!("{} {}on {} (from {first})", a.name, a.detail, m.fmt());
        c.log(&detail);
        c.tag(a.name);
        let before = im.clone();
        let Some((r, after)) = run(c, a.name, im, a.op.as_ref()) else { return };
        let Some(o) = (if r.is_ok() { facts(c, &after, a.name, &detail) } else { None }) else {
            if r.is_err() {
                c.tag("refused");
            }
            return;
        };
        if !c.check(o.frames.len() == m.frames.len() && o.times == m.times, &format!("frames:{}", a.name), || {
            format!("{detail}: {} frames {:?}, had {} {:?}", o.frames.len(), o.times, m.frames.len(), m.times)
        }) {
            return;
        }
        // one frame at a time
        if a.per_frame && m.frames.len() > 1 {
            c.tag("frames apart");
            for i in 0..m.frames.len() {
                let mut one = Image::new_frames(vec![before.frames_ref()[i].clone()], m.depth, m.w, m.h, m.cs);
                *one.metadata_mut() = before.metadata().clone();
                let Some((r1, one)) = run(c, a.name, one, a.op.as_ref()) else { return };
                if let Err(e) = r1 {
                    c.fail(format!("frames:{}", a.name), format!("{detail}: frame {i} alone is refused: {e}"));
                    return;
                }
                let Some(want) = facts(c, &one, a.name, &detail) else { return };
                let mut got = o.clone();
                got.frames = vec![o.frames[i].clone()];
                if let Some(d) = got.diff(&want, 0.0) {
                    c.fail(format!("frames:{}", a.name), format!("{detail}: frame {i} of {} differs from the frame alone: {d}", m.frames.len()));
                    return;
                }
            }
        }
        m = o;
        im = after;
    }
}
/// I07: what an operation does not concern stays.
pub fn keeps_meta(c: &mut Case) {
    let m = model(&mut c.rng);
    let mut im = m.build();
    decorate(&mut c.rng, &mut im);
    let a = any(&mut c.rng, &m);
    let want = masked(im.metadata(), a.name);
    let detail = format!("{} {}on {}", a.name, a.detail, m.fmt());
    let src = im.clone();
    let clone_way = c.rng.bool();
    let Some((r, after)) = (if clone_way {
        c.lib(a.name, || (Ok::<(), String>(()), im.clone()))
            .and_then(|_| run(c, a.name, im, a.op.as_ref()))
    } else {
        run(c, a.name, im, a.op.as_ref())
    }) else { return };
    c.saw(m.hash() ^ hash_bytes(want.as_bytes()));
    c.tag(a.name);
    if r.is_err() {
        c.tag("refused");
        return;
    }
    if facts(c, &after, a.name, &detail).is_none() {
        return;
    }
    let now = masked(after.metadata(), a.name);
    c.check(now == want, &format!("metadata:{}", a.name), || format!("{detail}: {now} for {want}"));
    // the other image is nobody's business
    let s = masked(src.metadata(), a.name);
    c.check(s == want, "metadata-of-clone", || format!("{detail}: {s} for {want}"));
}
fn bits(im: &Image) -> u64 {
    let mut h = hash_bytes(format!("{:?} {:?} {:?} {}", im.dimensions(), im.colorspace(), im.depth(), im.frames_ref().len()).as_bytes());
    for f in im.frames_ref() {
        for ch in f.channels_vec_ref() {
            let b: Vec<u8> = match im.depth() {
                BitDepth::Eight => ch.reinterpret_as::<u8>().map(|v| v.to_vec()).unwrap_or_default(),
                BitDepth::Sixteen => ch.reinterpret_as::<u16>().map(|v| v.iter().flat_map(|x| x.to_le_bytes()).collect()).unwrap_or_default(),
                _ => ch.reinterpret_as::<f32>().map(|v| v.iter().flat_map(|x| if x.is_nan() { f32::NAN } else { *x }.to_le_bytes()).collect()).unwrap_or_default()
            };
            h = h.rotate_left(7) ^ hash_bytes(&b);
        }
    }
    h
}
/// T01: the same operation again, on other threads at once, and shared between them.
pub fn again(c: &mut Case) {
    let m = model(&mut c.rng);
    let mut im = m.build();
    decorate(&mut c.rng, &mut im);
    let a = any(&mut c.rng, &m);
    let detail = format!("{} {}on {}", a.name, a.detail, m.fmt());
    c.saw(m.hash() ^ hash_bytes(a.detail.as_bytes()));
    c.tag(a.name);
    let go = |im: &Image| {
        let mut i = im.clone();
        let r = a.op.execute(&mut i).map_err(|e| format!("{e:?}"));
        r.map(|_| bits(&i))
    };
    let threads = 2 + c.rng.below(4);
    let rounds = 1 + c.rng.below(3);
    let Some(first) = c.lib(a.name, || go(&im)) else { return };
    let Some(rest) = c.lib(a.name, || {
        let barrier = std::sync::Barrier::new(threads);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|_| {
                    s.spawn(|| {
                        barrier.wait();
                        (0..rounds).map(|_| go(&im)).collect::<Vec<_>>()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join()).collect::<Result<Vec<_>, _>>()
        })
    }) else { return };
    let Ok(rest) = rest else {
        c.fail(format!("thread-panic:{}", a.name), format!("{detail}: a thread panicked where the first run did not"));
        return;
    };
    let n = rest.iter().flatten().count();
    c.tag_n("concurrent runs", n as u64);
    for r in rest.into_iter().flatten() {
        if r != first {
            c.fail(format!("differs:{}", a.name), format!("{detail}: {r:?} on another thread, {first:?} at first"));
            return;
        }
    }
    let Some(src) = facts(c, &im, "source", &detail) else { return };
    if let Some(d) = src.diff(&m, 0.0) {
        c.fail("source-changed", format!("{detail}: {d}"));
    }
}
/// R09: the same operation in a build with other features.
pub fn builds(c: &mut Case) {
    let m = model(&mut c.rng);
    let im = m.build();
    let a = any(&mut c.rng, &m);
    let detail = format!("{} {}on {}", a.name, a.detail, m.fmt());
    c.saw(m.hash() ^ hash_bytes(a.detail.as_bytes()));
    c.tag(a.name);
    c.sample(|| detail.clone());
    let r = c.lib(a.name, || {
        let mut i = im.clone();
        a.op.execute(&mut i).map(|_| bits(&i)).map_err(|e| format!("{e:?}"))
    });
    c.digest(a.name, match r {
        Some(Ok(h)) => h,
        Some(Err(e)) => hash_bytes(e.as_bytes()),
        None => 1
    });
}
