//! I07: metadata through opening, processing and saving.
use exif::experimental::Writer;
use exif::{Field, In, Rational, SRational, Tag, Value};
use std::io::Cursor;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::{ColorCharacteristics, ColorSpace};
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_image::codecs::ImageFormat;
use zune_image::image::Image;
use zune_image::metadata::{AlphaState, ImageMetadata};
use zvcore::{hash_bytes, Case, Rng};
use zvimg::Model;

/// A random set of fields and the TIFF block which holds them.
pub fn exif_fields(r: &mut Rng) -> (Vec<Field>, Vec<u8>) {
    let ascii = |r: &mut Rng| {
        let m = if r.one_in(8) { 1500 } else { 40 };
        let n = 1 + r.below(m);
        Value::Ascii(vec![(0..n).map(|_| r.range(32, 126) as u8).collect()])
    };
    let rat = |r: &mut Rng, n: usize| Value::Rational((0..n).map(|_| Rational { num: r.u32(), denom: 1 + r.u32() / 2 }).collect());
    let mut f: Vec<Field> = vec![];
    let mut add = |tag: Tag, value: Value| f.push(Field { tag, ifd_num: In::PRIMARY, value });
    // one field is always there: a block without fields cannot be written
    let (o, w) = (1 + r.below(8) as u16, r.u32());
    add(Tag::Orientation, Value::Short(vec![o]));
    for t in [Tag::ImageDescription, Tag::Make, Tag::Model, Tag::Software, Tag::Artist, Tag::Copyright, Tag::DateTimeOriginal] {
        if r.one_in(3) {
            let v = ascii(r);
            add(t, v);
        }
    }
    if r.bool() {
        let v = rat(r, 1);
        add(Tag::XResolution, v);
        let v = rat(r, 1);
        add(Tag::YResolution, v);
    }
    if r.bool() {
        let v = rat(r, 1);
        add(Tag::ExposureTime, v);
    }
    if r.bool() {
        add(Tag::PixelXDimension, Value::Long(vec![w]));
    }
    if r.bool() {
        let v = Value::SRational(vec![SRational { num: r.u32() as i32, denom: 1 + (r.u32() / 4) as i32 }]);
        add(Tag::ExposureBiasValue, v);
    }
    if r.bool() {
        let n = r.below(300);
        let v = Value::Undefined(r.bytes(n + 5), 0);
        add(Tag::UserComment, v);
    }
    if r.one_in(3) {
        add(Tag::GPSLatitudeRef, Value::Ascii(vec![b"N".to_vec()]));
        let v = rat(r, 3);
        add(Tag::GPSLatitude, v);
    }
    if r.one_in(3) {
        add(Tag::GPSVersionID, Value::Byte(vec![2, 3, 0, 0]));
    }
    if r.one_in(3) {
        add(Tag::SubjectArea, Value::Short(vec![1, 2, 3, 60000]));
    }
    let mut b = Cursor::new(vec![]);
    let mut wr = Writer::new();
    for x in &f {
        wr.push_field(x);
    }
    wr.write(&mut b, r.bool()).expect("exif writer");
    (f, b.into_inner())
}
/// fields as sorted text, without the positions they had in some file
pub fn sorted(f: &[Field]) -> Vec<String> {
    let mut v: Vec<String> = f
        .iter()
        .map(|x| {
            let v = match &x.value {
                Value::Undefined(d, _) => format!("undefined {d:?}"),
                v => format!("{v:?}")
            };
            format!("{:?} {:?} {v}", x.ifd_num, x.tag)
        })
        .collect();
    v.sort();
    v
}
fn of(m: &ImageMetadata) -> Option<Vec<String>> {
    m.exif().map(|f| sorted(f))
}
/// The metadata as text without the facts a conversion has to change.
pub fn masked(m: &ImageMetadata) -> String {
    let mut m = m.clone();
    m.set_colorspace(ColorSpace::Unknown);
    m.set_depth(BitDepth::Unknown);
    m.set_dimensions(0, 0);
    format!("{m:?}")
}
/// The facts describe the samples.
fn facts(c: &mut Case, im: &Image, what: &str) {
    match Model::read(im) {
        Err(e) => c.fail("facts", format!("{what}: {e}")),
        Ok(_) => {
            c.check(im.metadata().dimensions() == im.dimensions() && im.metadata().colorspace() == im.colorspace() && im.metadata().depth() == im.depth(), "facts", || {
                format!("{what}: metadata says {:?} {:?} {:?}", im.metadata().dimensions(), im.metadata().colorspace(), im.metadata().depth())
            });
        }
    }
}
pub fn decorate(r: &mut Rng, im: &mut Image) -> Vec<Field> {
    let (f, blob) = exif_fields(r);
    let m = im.metadata_mut();
    m.parse_raw_exif(&blob);
    if r.bool() {
        let n = 1 + r.below(500);
        m.set_icc_chunk(r.bytes(n));
    }
    if r.bool() {
        m.set_default_gamma(r.f32() * 3.0);
    }
    if r.bool() {
        m.set_linear(true);
    }
    if r.one_in(3) {
        m.set_alpha(AlphaState::PreMultiplied);
    }
    if r.bool() {
        m.set_color_trc(if r.bool() { ColorCharacteristics::sRGB } else { ColorCharacteristics::Linear });
    }
    f
}
/// Files which carry metadata, from independent writers.
pub fn open(c: &mut Case) {
    let r = &mut c.rng;
    let (_, blob) = exif_fields(r);
    let n = if r.one_in(10) { 150_000 } else { 800 };
    let n = 1 + r.below(n);
    let icc = r.texture(n);
    let (has_exif, has_icc) = (r.bool(), r.bool());
    let mut gamma = None;
    let kind = r.below(3);
    let (file, fmt, exif, icc) = match kind {
        0 => {
            let mut s = zvgen::png::Spec::random(r, zvgen::png::Opt { max_dim: 20, interlace: None, meta: false });
            if r.bool() {
                s.meta.gamma = Some(*r.pick(&[45455, 100000, 1, 220000, 4_000_000]));
            }
            gamma = Some(s.meta.gamma);
            s.meta.exif = has_exif.then(|| blob.clone());
            s.meta.icc = has_icc.then(|| icc.clone());
            (s.write(r), ImageFormat::PNG, s.meta.exif.clone(), s.meta.icc.clone())
        }
        1 => {
            let mut j = zvgen::jpeg::Jpeg::random(r, zvgen::jpeg::Opt { odd_sampling: false, ncomp: 0, mode: 0, max_dim: 24, wide: false });
            let mut segs = vec![];
            if has_exif {
                segs.push((0xE1, [b"Exif\0\0", &blob[..]].concat()));
            }
            if has_icc {
                let per = 1 + r.below(65519);
                let per = per.max(icc.len().div_ceil(200));
                let parts: Vec<&[u8]> = icc.chunks(per).collect();
                for (i, p) in parts.iter().enumerate() {
                    segs.push((0xE2, [b"ICC_PROFILE\0", &[i as u8 + 1, parts.len() as u8][..], p].concat()));
                }
            }
            j.segments = segs;
            (j.write(r), ImageFormat::JPEG, has_exif.then(|| blob.clone()), has_icc.then(|| icc.clone()))
        }
        _ => {
            let b = zvgen::raster::Bmp::random(r, 20);
            (b.file.clone(), ImageFormat::BMP, None, b.icc.clone())
        }
    };
    c.blob(&file);
    c.tag(&format!("{fmt:?} exif {} icc {}", exif.is_some(), icc.is_some()));
    c.saw(hash_bytes(&file));
    let strip = kind == 0 && c.rng.one_in(4);
    let opt = DecoderOptions::default().png_set_strip_to_8bit(strip);
    let Some(got) = c.lib("read", || Image::read(ZCursor::new(&file), opt)) else { return };
    // whether the file has to decode is the decoders' own check
    let Ok(im) = got else {
        c.tag("refused");
        c.saw_trivial();
        return;
    };
    facts(c, &im, "opened");
    let m = im.metadata();
    c.check(m.image_format() == Some(fmt), "open-format", || format!("{:?} for {fmt:?}", m.image_format()));
    let want = exif.as_ref().map(|b| sorted(&exif::parse_exif(b).expect("own block").0));
    c.check(of(m) == want, &format!("open-exif-{fmt:?}"), || format!("{:?} for {want:?}", of(m)));
    c.check(m.icc_chunk() == icc.as_ref(), &format!("open-icc-{fmt:?}"), || format!("{:?} bytes for {:?}", m.icc_chunk().map(Vec::len), icc.as_ref().map(Vec::len)));
    if let Some(g) = gamma {
        let text = format!("{m:?}");
        // the only way the gamma shows
        let got = text.split("default_gamma: ").nth(1).and_then(|t| t.split([',', ' ']).next().map(|_| t.split(", ").next().unwrap_or("").to_string()));
        let want = match g {
            None => "None".to_string(),
            Some(g) => format!("Some({:?})", g as f32 / 100000.0)
        };
        let num = |s: &str| s.trim_start_matches("Some(").trim_end_matches(')').parse::<f32>().ok();
        let same = match (&got, g) {
            (Some(t), None) => t == "None",
            (Some(t), Some(_)) => match (num(t), num(&want)) {
                (Some(a), Some(b)) => (a - b).abs() <= b * 1e-5,
                _ => false
            },
            // the text has another shape: nothing to compare
            (None, _) => true
        };
        c.check(same, "open-gamma", || format!("{got:?} for {want}"));
    }
}
/// Conversions and clones leave metadata alone.
pub fn ops(c: &mut Case) {
    let mut m = Model::random(&mut c.rng, 12, &zvimg::BASIC, &zvimg::DEPTHS);
    if c.rng.bool() {
        m.frames.truncate(1);
        m.times.truncate(1);
    }
    let mut im = m.build();
    decorate(&mut c.rng, &mut im);
    let want = masked(im.metadata());
    c.saw(m.hash() ^ hash_bytes(want.as_bytes()));
    for _ in 0..1 + c.rng.below(5) {
        let (what, ok) = match c.rng.below(5) {
            0 | 1 => {
                let to = *c.rng.pick(&zvimg::COLOUR);
                (format!("convert_color {to:?}"), c.lib("convert_color", || im.convert_color(to).is_ok()))
            }
            2 | 3 => {
                let to = *c.rng.pick(&zvimg::DEPTHS);
                (format!("convert_depth {to:?}"), c.lib("convert_depth", || im.convert_depth(to).is_ok()))
            }
            _ => {
                im = im.clone();
                ("clone".into(), Some(true))
            }
        };
        let Some(ok) = ok else { return };
        c.log(&what);
        if !ok {
            c.tag("refused");
            // the operation says no: the image may not lie about itself either
        }
        facts(c, &im, &what);
        let now = masked(im.metadata());
        c.check(now == want, "ops-metadata", || format!("after {what}: {now} for {want}"));
    }
    let d = c.rng.pick(&zvimg::DEPTHS).to_owned();
    if let Some(Ok(o)) = c.lib("clone_and_execute", || zune_image::core_filters::depth::Depth::new(d).clone_and_execute_of(&im)) {
        facts(c, &o, "clone_and_execute");
        c.check(masked(o.metadata()) == want, "ops-metadata", || "after clone_and_execute".into());
        c.check(masked(im.metadata()) == want, "ops-metadata", || "source of clone_and_execute".into());
    }
}
trait Cae {
    fn clone_and_execute_of(&self, im: &Image) -> Result<Image, zune_image::errors::ImageErrors>;
}
impl<T: zune_image::traits::OperationsTrait> Cae for T {
    fn clone_and_execute_of(&self, im: &Image) -> Result<Image, zune_image::errors::ImageErrors> {
        self.clone_and_execute(im)
    }
}
/// EXIF through the formats whose writers carry it.
pub fn save(c: &mut Case) {
    let fmt = if c.rng.bool() { ImageFormat::PNG } else { ImageFormat::JPEG };
    let mut m = Model::random(&mut c.rng, 16, &zvimg::BASIC, &zvimg::DEPTHS);
    m.frames.truncate(1);
    m.times.truncate(1);
    let mut im = m.build();
    let with = !c.rng.one_in(5);
    let fields = if with { Some(decorate(&mut c.rng, &mut im)) } else { None };
    let strip = c.rng.one_in(4);
    let explicit = strip || c.rng.bool();
    let before = format!("{:?}", im.metadata());
    c.saw(m.hash() ^ hash_bytes(before.as_bytes()));
    c.tag(&format!("{fmt:?} exif {with} strip {strip} progressive"));
    let opt = EncoderOptions::default().set_strip_metadata(strip).set_jpeg_encode_progressive(c.rng.bool()).set_effort(c.rng.below(10) as u8);
    let way = c.rng.below(3);
    let out = c.lib("save", || -> Result<Vec<u8>, String> {
        if explicit {
            let mut v = vec![];
            fmt.encode(&im, opt, &mut v).map_err(|e| format!("{e:?}"))?;
            Ok(v)
        } else if way == 0 {
            let mut v = vec![];
            im.encode(fmt, &mut v).map_err(|e| format!("{e:?}"))?;
            Ok(v)
        } else {
            im.write_to_vec(fmt).map_err(|e| format!("{e:?}"))
        }
    });
    let Some(out) = out else { return };
    let out = match out {
        Ok(o) => o,
        Err(e) => return c.fail("save-refused", format!("{} {fmt:?}: {e}", m.fmt()))
    };
    c.blob(&out);
    c.check(format!("{:?}", im.metadata()) == before, "save-changed-metadata", || "the image's metadata changed while it was saved".into());
    let Some(back) = c.lib("read", || Image::read(ZCursor::new(&out), DecoderOptions::default())) else { return };
    let back = match back {
        Ok(b) => b,
        Err(e) => return c.fail("save-unreadable", format!("{} {fmt:?}: {e:?}", m.fmt()))
    };
    let want = if strip { None } else { fields.as_ref().map(|f| sorted(f)) };
    let got = of(back.metadata());
    let sig = if strip { "strip-exif" } else { "save-exif" };
    c.check(got == want, sig, || format!("{fmt:?}: {got:?} for {want:?}"));
    // an independent reader sees the same block
    let mut cur = Cursor::new(&out);
    let indep = exif::Reader::new().read_from_container(&mut cur).ok().map(|e| sorted(&e.fields().cloned().collect::<Vec<_>>()));
    c.check(indep == want, &format!("{sig}-container"), || format!("{fmt:?}: {indep:?} for {want:?}"));
    c.tag_n("fields", want.map_or(0, |w| w.len()) as u64);
    facts(c, &back, "reopened");
}
