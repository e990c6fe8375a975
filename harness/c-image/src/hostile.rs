//! R01 through the image library: any bytes, any options, opened as an image and looked at.
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_image::codecs::ImageFormat;
use zune_image::image::Image;
use zvcore::{hash_bytes, Case, Rng};
use zvgen::corpus::{damage, magic_noise, valid, Fmt, FMTS};
use zvimg::*;

fn options(r: &mut Rng) -> DecoderOptions {
    let mut o = match r.below(4) {
        0 => DecoderOptions::new_fast(),
        1 => DecoderOptions::new_cmd(),
        2 => DecoderOptions::new_safe(),
        _ => DecoderOptions::default()
    };
    o = match r.below(8) {
        0 => o.set_max_width(60_000).set_max_height(40),
        1 => o.set_max_width(40).set_max_height(60_000),
        2 => o.set_max_width(1 << 21).set_max_height(3),
        _ => o.set_max_width(500).set_max_height(500)
    };
    if r.bool() {
        o = o.set_strict_mode(r.bool());
    }
    if r.one_in(3) {
        o = o.jpeg_set_out_colorspace(*r.pick(&[ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::YCbCr, ColorSpace::CMYK]));
    }
    if r.one_in(3) {
        o = o.png_set_add_alpha_channel(r.bool()).png_set_strip_to_8bit(r.bool()).png_set_decode_animated(r.bool());
    }
    o
}
/// fields that hold sizes, set to zero, one or huge
fn sizes(r: &mut Rng, f: Fmt, b: &mut [u8]) {
    let at: &[(usize, usize, bool)] = match f {
        Fmt::Png | Fmt::Apng => &[(16, 4, true), (20, 4, true)],
        Fmt::Bmp => &[(18, 4, false), (22, 4, false)],
        Fmt::Qoi => &[(4, 4, true), (8, 4, true)],
        Fmt::Farbfeld => &[(8, 4, true), (12, 4, true)],
        Fmt::Psd => &[(14, 4, true), (18, 4, true), (12, 2, true)],
        Fmt::Jpeg => {
            // the frame header
            if let Some(p) = b.windows(2).position(|w| w[0] == 0xFF && (0xC0..=0xC2).contains(&w[1])) {
                let q = p + if r.bool() { 5 } else { 7 };
                if q + 2 <= b.len() {
                    let v = *r.pick(&[0u16, 0, 1, 2, 17, 400]);
                    b[q..q + 2].copy_from_slice(&v.to_be_bytes());
                }
            }
            return;
        }
        _ => return
    };
    let (p, n, be) = *r.pick(at);
    if p + n <= b.len() {
        let v = *r.pick(&[0u32, 0, 0, 1, 2, 300, 0x7FFF_FFFF, u32::MAX]);
        let mut x = v.to_be_bytes()[4 - n..].to_vec();
        if !be {
            x.reverse();
        }
        b[p..p + n].copy_from_slice(&x);
        if matches!(f, Fmt::Png | Fmt::Apng) && b.len() > 33 {
            let crc = zvgen::deflate::crc32(&b[12..29]);
            b[29..33].copy_from_slice(&crc.to_be_bytes());
        }
    }
}
pub fn read(c: &mut Case) {
    let f = *c.rng.pick(&FMTS);
    let mut what = f.name().to_string();
    let bytes = match c.rng.below(10) {
        0 => magic_noise(&mut c.rng, f),
        1 => {
            what = "jxl".into();
            let cs = *c.rng.pick(&[ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::Luma]);
            let (w, h) = (c.rng.range(1, 30), c.rng.range(1, 30));
            let m = Model::random_at(&mut c.rng, w, h, cs, zune_core::bit_depth::BitDepth::Eight, 1);
            let mut v = vec![];
            let _ = ImageFormat::JPEG_XL.encode(&m.build(), EncoderOptions::default(), &mut v);
            if !c.rng.one_in(4) {
                // flips and cuts
                for _ in 0..c.rng.range(1, 4) {
                    let p = c.rng.below(v.len().max(1));
                    if let Some(x) = v.get_mut(p) {
                        *x ^= 1 << c.rng.below(8);
                    }
                }
            }
            v
        }
        k => {
            let mut b = valid(&mut c.rng, f, 20).bytes;
            if k < 6 {
                sizes(&mut c.rng, f, &mut b);
            }
            if k > 3 {
                damage(&mut c.rng, f, &mut b);
            }
            b
        }
    };
    let o = options(&mut c.rng);
    c.blob(&bytes);
    c.saw(hash_bytes(&bytes));
    c.log(&format!("{what} {} bytes {o:?}", bytes.len()));
    let Some(got) = c.lib(&format!("Image::read {what}"), || Image::read(ZCursor::new(&bytes), o)) else { return };
    c.tag(&format!("{what} {}", if got.is_ok() { "read" } else { "refused" }));
    c.sample(|| format!("{what} of {} bytes -> {}", bytes.len(), got.as_ref().map(|i| format!("{:?}", i.dimensions())).unwrap_or_else(|e| format!("{e:?}").chars().take(60).collect())));
    // headers first
    let Some(_) = c.lib("decoder", || {
        if let Some((fmt, data)) = ImageFormat::guess_format(ZCursor::new(&bytes)) {
            if let Ok(mut d) = fmt.decoder_with_options(data, o) {
                let _ = d.name();
                let h = d.read_headers().map(|m| m.is_some());
                if !matches!(h, Ok(true)) {
                    return;
                }
                let _ = (d.dimensions(), d.out_colorspace(), d.is_experimental());
                let _ = d.decode();
                let _ = (d.dimensions(), d.out_colorspace());
            }
        }
    }) else {
        return;
    };
    let Ok(im) = got else { return };
    // whatever was accepted can be looked at, copied, flattened and saved
    let pick = c.rng.below(4);
    c.lib("use", || {
        let _ = (im.dimensions(), im.depth(), im.colorspace(), im.frames_len());
        let copy = im.clone();
        match pick {
            0 => {
                let _ = copy.flatten_to_u8();
            }
            1 => {
                let _ = copy.flatten_to_u8().len();
            }
            2 => {
                let mut v = vec![];
                let _ = ImageFormat::PNG.encode(&copy, EncoderOptions::default(), &mut v);
            }
            _ => {
                let mut v = vec![];
                let _ = ImageFormat::PPM.encode(&copy, EncoderOptions::default(), &mut v);
            }
        }
    });
}
