//! R09: vector code on and off, at run time and at build time.
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_core::result::DecodingResult;
use zune_image::core_filters::colorspace::ColorspaceConv;
use zune_image::core_filters::depth::Depth;
use zune_image::image::Image;
use zune_image::traits::OperationsTrait;
use zune_jpeg::JpegDecoder;
use zune_png::PngDecoder;
use zvcore::{hash_bytes, Case, Family, Rng};
use zvgen::corpus::{self, Fmt};
use zvgen::{jpeg, png};
use zvimg::Model;

fn plain(r: DecodingResult) -> Vec<u8> {
    match r {
        DecodingResult::U8(v) => v,
        DecodingResult::U16(v) => v.iter().flat_map(|x| x.to_ne_bytes()).collect(),
        DecodingResult::F32(v) => v.iter().flat_map(|x| x.to_ne_bytes()).collect(),
        _ => unreachable!()
    }
}
type Frames = Result<Vec<Vec<u8>>, String>;
fn png_all(b: &[u8], o: DecoderOptions) -> Frames {
    let mut d = PngDecoder::new_with_options(ZCursor::new(b), o);
    let mut v = vec![];
    loop {
        v.push(plain(d.decode().map_err(|e| format!("{e:?}"))?));
        if !o.png_decode_animated() || v.len() > 6 || !d.more_frames() {
            return Ok(v);
        }
    }
}
fn jpeg_all(b: &[u8], o: DecoderOptions) -> Frames {
    JpegDecoder::new_with_options(ZCursor::new(b), o).decode().map(|v| vec![v]).map_err(|e| format!("{e:?}"))
}
fn first_diff(a: &[Vec<u8>], b: &[Vec<u8>]) -> String {
    for (f, (x, y)) in a.iter().zip(b).enumerate() {
        if let Some(i) = x.iter().zip(y).position(|(p, q)| p != q) {
            return format!("frame {f} byte {i}: {} and {}", x[i], y[i]);
        }
        if x.len() != y.len() {
            return format!("frame {f}: {} and {} bytes", x.len(), y.len());
        }
    }
    format!("{} and {} frames", a.len(), b.len())
}
/// the accelerations a caller can choose
fn modes(o: DecoderOptions) -> [(&'static str, DecoderOptions); 3] {
    [("default", o), ("scalar", o.set_use_unsafe(false)), ("fast", o.set_use_unsafe(true))]
}
fn compare(c: &mut Case, kind: &str, what: &str, b: &[u8], o: DecoderOptions, f: fn(&[u8], DecoderOptions) -> Frames) {
    c.blob(b);
    let mut base: Option<Frames> = None;
    for (m, o) in modes(o) {
        let Some(r) = c.lib(kind, || f(b, o)) else { return };
        if let Some(p) = &base {
            let ok = match (p, &r) {
                (Ok(a), Ok(b)) if a == b => true,
                (Ok(a), Ok(b)) => {
                    c.fail(format!("modes-differ:{kind}"), format!("{what}: {m} and default: {}", first_diff(b, a)));
                    false
                }
                (Err(_), Err(_)) => true,
                _ => {
                    c.fail(format!("modes-refuse:{kind}"), format!("{what}: default {:?}, {m} {:?}", p.as_ref().map(|_| "decoded"), r.as_ref().map(|_| "decoded")));
                    false
                }
            };
            if !ok {
                return;
            }
        } else {
            c.tag(if r.is_ok() { "decoded" } else { "refused" });
            base = Some(r);
        }
    }
    let base = base.unwrap();
    c.digest(kind, base.map(|v| v.iter().fold(7, |h: u64, f| h.rotate_left(9) ^ hash_bytes(f))).unwrap_or(1));
}
fn png_opts(r: &mut Rng) -> DecoderOptions {
    DecoderOptions::default()
        .png_set_add_alpha_channel(r.one_in(3))
        .png_set_strip_to_8bit(r.one_in(4))
        .png_set_decode_animated(true)
        .set_byte_endian(if r.bool() { zune_core::bit_depth::ByteEndian::LE } else { zune_core::bit_depth::ByteEndian::BE })
}
fn png(c: &mut Case) {
    let kind = if c.rng.one_in(5) { Fmt::Apng } else { Fmt::Png };
    let mut f = corpus::valid(&mut c.rng, kind, if cfg!(miri) { 20 } else { 80 });
    if c.rng.one_in(6) {
        corpus::damage(&mut c.rng, Fmt::Png, &mut f.bytes);
    }
    c.saw(hash_bytes(&f.bytes));
    c.sample(|| f.what.clone());
    let o = png_opts(&mut c.rng);
    compare(c, "png", &f.what, &f.bytes, o, png_all);
}
/// every colour type and depth at every width around the vector sizes, every filter
fn png_widths(c: &mut Case) {
    let mut i = c.idx as usize;
    if cfg!(miri) {
        i = c.rng.below(700);
    }
    let (ct, depth) = png::KINDS[i % png::KINDS.len()];
    let w = 1 + i / png::KINDS.len() % 140;
    let h = 1 + c.rng.below(if cfg!(miri) { 2 } else { 12 });
    let s = png::Spec::random_of(&mut c.rng, ct, depth, w, h, png::Opt { max_dim: 140, interlace: None, meta: false });
    let b = s.write(&mut c.rng);
    let what = format!("{w}x{h} ct {ct} depth {depth} interlace {}", s.interlace);
    c.saw(hash_bytes(&b));
    c.tag(&format!("ct{ct} depth{depth}"));
    let o = png_opts(&mut c.rng);
    compare(c, "png", &what, &b, o, png_all);
}
fn jpeg_one(c: &mut Case, o: jpeg::Opt) {
    let j = jpeg::Jpeg::random(&mut c.rng, o);
    let mut b = j.write(&mut c.rng);
    if c.rng.one_in(8) {
        corpus::damage(&mut c.rng, Fmt::Jpeg, &mut b);
    }
    c.saw(hash_bytes(&b));
    let out = *c.rng.pick(&[ColorSpace::RGB, ColorSpace::RGB, ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::BGR, ColorSpace::BGRA, ColorSpace::Luma, ColorSpace::YCbCr, ColorSpace::CMYK]);
    let what = format!("{} as {out:?}", j.describe());
    c.sample(|| what.clone());
    let o = DecoderOptions::default().jpeg_set_out_colorspace(out).set_strict_mode(c.rng.one_in(5));
    compare(c, "jpeg", &what, &b, o, jpeg_all);
}
fn jpeg_small(c: &mut Case) {
    jpeg_one(c, jpeg::Opt { max_dim: if cfg!(miri) { 24 } else { 120 }, odd_sampling: false, ..Default::default() });
}
fn jpeg_odd(c: &mut Case) {
    jpeg_one(c, jpeg::Opt { max_dim: if cfg!(miri) { 20 } else { 90 }, odd_sampling: true, ..Default::default() });
}
fn jpeg_wide(c: &mut Case) {
    jpeg_one(c, jpeg::Opt { wide: true, max_dim: 64, ..Default::default() });
}
/// blocks at the edges of what coefficients may be
fn jpeg_extreme(c: &mut Case) {
    let mut j = jpeg::Jpeg::random(&mut c.rng, jpeg::Opt { max_dim: if cfg!(miri) { 16 } else { 48 }, ..Default::default() });
    for v in j.comps.iter_mut() {
        for b in v.coefs.iter_mut() {
            if c.rng.one_in(3) {
                for k in b.iter_mut() {
                    if c.rng.one_in(6) {
                        *k = *c.rng.pick(&[-1023, 1023, -512, 511, -1, 1, 0]);
                    }
                }
            }
        }
    }
    let b = j.write(&mut c.rng);
    c.saw(hash_bytes(&b));
    let o = DecoderOptions::default().jpeg_set_out_colorspace(*c.rng.pick(&[ColorSpace::RGB, ColorSpace::YCbCr, ColorSpace::Luma]));
    compare(c, "jpeg", &j.describe(), &b, o, jpeg_all);
}
fn bits(im: &Image) -> u64 {
    let mut h = hash_bytes(format!("{:?} {:?} {:?}", im.dimensions(), im.colorspace(), im.depth()).as_bytes());
    for f in im.frames_ref() {
        for ch in f.channels_vec_ref() {
            let b: Vec<u8> = match im.depth() {
                BitDepth::Eight => ch.reinterpret_as::<u8>().map(|v| v.to_vec()).unwrap_or_default(),
                BitDepth::Sixteen => ch.reinterpret_as::<u16>().map(|v| v.iter().flat_map(|x| x.to_le_bytes()).collect()).unwrap_or_default(),
                _ => ch.reinterpret_as::<f32>().map(|v| v.iter().flat_map(|x| if x.is_nan() { f32::NAN } else { *x }.to_le_bytes()).collect()).unwrap_or_default()
            };
            h = h.rotate_left(7) ^ hash_bytes(&b);
        }
    }
    h
}
fn image(c: &mut Case) {
    let (w, h) = if c.rng.bool() { if cfg!(miri) { (1 + c.rng.below(80), 1) } else { (1 + c.idx as usize % 150, 1 + c.rng.below(6)) } } else { zvimg::size(&mut c.rng, if cfg!(miri) { 8 } else { 70 }) };
    let d = *c.rng.pick(&zvimg::DEPTHS);
    let cs = if c.rng.one_in(6) { zvimg::any_space(&mut c.rng) } else { *c.rng.pick(&zvimg::COLOUR) };
    let n = 1 + c.rng.below(2);
    let m = Model::random_at(&mut c.rng, w, h, cs, d, n);
    c.saw(m.hash());
    c.tag(&format!("{cs:?} {d:?}"));
    c.sample(|| m.fmt());
    // taken apart from interleaved pixels, and put together again
    let flat = m.interleaved(0);
    let r = c.lib("interleaved", || match d {
        BitDepth::Eight => Image::from_u8(&flat.iter().map(|x| *x as u8).collect::<Vec<_>>(), w, h, cs),
        BitDepth::Sixteen => Image::from_u16(&flat.iter().map(|x| *x as u16).collect::<Vec<_>>(), w, h, cs),
        _ => Image::from_f32(&flat.iter().map(|x| *x as f32).collect::<Vec<_>>(), w, h, cs)
    });
    let Some(im) = r else { return };
    c.digest("apart", bits(&im));
    let together = c.lib("flatten", || match d {
        BitDepth::Eight => im.flatten_to_u8().concat(),
        BitDepth::Sixteen => im.flatten_frames::<u16>().concat().iter().flat_map(|x| x.to_le_bytes()).collect(),
        _ => im.flatten_frames::<f32>().concat().iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()
    });
    c.digest("together", together.map(|v| hash_bytes(&v)).unwrap_or(1));
    let im = m.build();
    let to = *c.rng.pick(&zvimg::COLOUR);
    let r = c.lib("colour", || {
        let mut i = im.clone();
        ColorspaceConv::new(to).execute(&mut i).map(|_| bits(&i)).map_err(|e| format!("{e:?}"))
    });
    c.digest(&format!("{cs:?}-{to:?}"), r.map_or(1, |r| r.unwrap_or_else(|e| hash_bytes(e.as_bytes()))));
    let to = *c.rng.pick(&zvimg::DEPTHS);
    let r = c.lib("depth", || {
        let mut i = im.clone();
        Depth::new(to).execute(&mut i).map(|_| bits(&i)).map_err(|e| format!("{e:?}"))
    });
    c.digest(&format!("{d:?}-{to:?}"), r.map_or(1, |r| r.unwrap_or_else(|e| hash_bytes(e.as_bytes()))));
}
static FAMILIES: &[Family] = &[
    Family { property: "R09", name: "png", n: (3000, 80_000), rule: "PNG and APNG files, some damaged, with vector code on and off at run time and in other builds", f: png },
    Family { property: "R09", name: "png-widths", n: (4200, 42_000), rule: "every PNG pixel layout at every width from 1 to 140", f: png_widths },
    Family { property: "R09", name: "jpeg", n: (2000, 50_000), rule: "JPEG files of every common sampling and layout, some damaged", f: jpeg_small },
    Family { property: "R09", name: "jpeg-odd", n: (800, 20_000), rule: "JPEG files with unusual sampling factors", f: jpeg_odd },
    Family { property: "R09", name: "jpeg-wide", n: (500, 10_000), rule: "wide low and narrow high JPEG files", f: jpeg_wide },
    Family { property: "R09", name: "jpeg-extreme", n: (1500, 40_000), rule: "JPEG blocks with coefficients at their limits", f: jpeg_extreme },
    Family { property: "R09", name: "image", n: (6000, 150_000), rule: "images taken apart, put together and converted between all colour spaces and depths", f: image }
];
fn main() {
    zvcore::main(FAMILIES)
}
