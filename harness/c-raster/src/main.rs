//! QOI, Netpbm, farbfeld, Radiance HDR, BMP and PSD (D07-D11) and the raster encoders (E02).
use std::collections::HashMap;
use zune_bmp::BmpDecoder;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_core::result::DecodingResult;
use zune_farbfeld::{FarbFeldDecoder, FarbFeldEncoder};
use zune_hdr::{HdrDecoder, HdrEncoder};
use zune_ppm::{PPMDecoder, PPMEncoder};
use zune_psd::PSDDecoder;
use zune_qoi::{QoiDecoder, QoiEncoder};
use zvcore::{diff_msg, hash_bytes, Case, Family, Rng};
use zvgen::raster::*;

fn opts(c: &mut Case) -> DecoderOptions {
    let mut o = DecoderOptions::default();
    if c.rng.bool() {
        o = o.set_strict_mode(true);
    }
    if c.rng.one_in(3) {
        o = o.set_use_unsafe(false);
    }
    o
}
fn size(c: &mut Case) -> usize {
    if c.idx % 16 == 3 {
        300
    } else {
        40
    }
}

// ------------------------------------------------------------------ QOI
fn rapid(b: &[u8]) -> Option<(usize, usize, usize, Vec<u8>)> {
    let (h, v) = rapid_qoi::Qoi::decode_alloc(b).ok()?;
    Some((h.width as usize, h.height as usize, if h.colors.has_alpha() { 4 } else { 3 }, v))
}
fn qoi_decode(c: &mut Case, q: &[u8], o: DecoderOptions, api: usize) -> Option<Result<(Option<(usize, usize)>, Option<ColorSpace>, BitDepth, Vec<u8>), String>> {
    c.lib("qoi decode", || {
        let mut d = QoiDecoder::new_with_options(ZCursor::new(q), o);
        let v = match api {
            0 => d.decode().map_err(|e| format!("{e:?}"))?,
            _ => {
                d.decode_headers().map_err(|e| format!("{e:?}"))?;
                let n = d.output_buffer_size().unwrap();
                let mut v = vec![0x5A; n];
                d.decode_into(&mut v).map_err(|e| format!("{e:?}"))?;
                v
            }
        };
        Ok((d.dimensions(), d.colorspace(), d.bit_depth(), v))
    })
}
fn d07_exact(c: &mut Case) {
    let m = size(c);
    let q = Qoi::random(&mut c.rng, m);
    qoi_check(c, &q);
}
fn d07_wide(c: &mut Case) {
    let n = if c.rng.bool() { c.rng.range(200, 16384) } else { 16384 };
    let (w, h) = if c.rng.bool() { (n, c.rng.range(1, 3)) } else { (c.rng.range(1, 3), n) };
    let ch = if c.rng.bool() { 3 } else { 4 };
    let px = qoi_pixels(&mut c.rng, w * h, ch == 4);
    let q = Qoi::write(&mut c.rng, w, h, ch, px);
    qoi_check(c, &q);
}
fn qoi_check(c: &mut Case, q: &Qoi) {
    c.blob(&q.file);
    c.sample(|| format!("{}x{}x{} ops {:?}", q.w, q.h, q.ch, q.ops));
    let want = q.expected();
    match c.oracle(|| rapid(&q.file)) {
        Some(Some((w, h, ch, v))) if (w, h, ch) == (q.w, q.h, q.ch) && v == want => c.tag("confirmed-by-rapid-qoi"),
        _ => {
            c.tag("reference-disagrees");
        }
    }
    for (i, n) in ["index", "diff", "luma", "rgb", "rgba", "run"].iter().enumerate() {
        c.tag_n(n, q.ops[i] as u64);
    }
    let o = opts(c);
    let api = c.rng.below(2);
    let Some(r) = qoi_decode(c, &q.file, o, api) else { return };
    let what = format!("{}x{}x{}", q.w, q.h, q.ch);
    match r {
        Err(e) => c.fail("refused:qoi", format!("{what}: {e}")),
        Ok((dim, cs, bd, v)) => {
            c.check(dim == Some((q.w, q.h)), "dimensions", || format!("{what}: {dim:?}"));
            let wcs = if q.ch == 3 { ColorSpace::RGB } else { ColorSpace::RGBA };
            c.check(cs == Some(wcs), "colorspace", || format!("{what}: {cs:?}"));
            c.check(bd == BitDepth::Eight, "depth", || format!("{bd:?}"));
            c.check(v == want, &format!("pixels:qoi{}", q.ch), || format!("{what}: {}", diff_msg(&v, &want)));
        }
    }
    c.saw(hash_bytes(&q.file));
}
fn d07_damage(c: &mut Case) {
    let q = Qoi::random(&mut c.rng, 12);
    // a prefix that lacks coded pixels is refused whatever the mode
    for _ in 0..6 {
        let cut = if c.rng.bool() { c.rng.range(14, q.end - 1) } else { q.end - 1 };
        let o = opts(c);
        let Some(r) = qoi_decode(c, &q.file[..cut], o, 0) else { return };
        c.blob(&q.file[..cut]);
        if r.is_ok() {
            c.fail("truncated-accepted", format!("{}x{}x{}: {} of {} bytes of pixel data accepted", q.w, q.h, q.ch, cut - 14, q.end - 14));
        }
        c.saw(hash_bytes(&q.file[..cut]));
    }
    // end marker in strict mode
    let strict = DecoderOptions::default().set_strict_mode(true);
    let mut b = q.file.clone();
    let how = if c.rng.bool() {
        let cut = c.rng.range(q.end, b.len() - 1);
        b.truncate(cut);
        "missing"
    } else {
        let at = c.rng.range(q.end, b.len() - 1);
        b[at] ^= 1 << c.rng.below(8);
        "corrupt"
    };
    c.blob(&b);
    let Some(r) = qoi_decode(c, &b, strict, 0) else { return };
    if r.is_ok() {
        c.fail(format!("end-marker-{how}-accepted"), format!("{}x{}x{}", q.w, q.h, q.ch));
    }
    c.saw(hash_bytes(&b));
}

// ------------------------------------------------------------------ Netpbm
fn pnm_kind(p: &Pnm) -> String {
    format!("{}c{}{}", p.kind, p.ch, match p.samples {
        PnmSamples::U8(_) => "u8",
        PnmSamples::U16(_) => "u16",
        PnmSamples::F32(_) => "f32"
    })
}
fn d08_exact(c: &mut Case) {
    let m = size(c);
    let p = Pnm::random(&mut c.rng, m);
    let k = pnm_kind(&p);
    c.blob(&p.file);
    c.tag(&k);
    c.sample(|| format!("{k} {}x{} maxval {} header {:?}", p.w, p.h, p.maxval, String::from_utf8_lossy(&p.file[..p.data.min(120)])));
    if matches!(p.maxval, 255 | 65535) {
        let r = c.oracle(|| {
            let d = image::codecs::pnm::PnmDecoder::new(std::io::Cursor::new(&p.file)).ok()?;
            let i = image::DynamicImage::from_decoder(d).ok()?;
            let same = match (&p.samples, &i) {
                (PnmSamples::U8(v), x) => x.as_bytes() == &v[..],
                (PnmSamples::U16(v), x) => x.as_bytes() == &v.iter().flat_map(|x| x.to_ne_bytes()).collect::<Vec<_>>()[..],
                _ => false
            };
            Some(same && (i.width() as usize, i.height() as usize) == (p.w, p.h))
        });
        c.tag(if r == Some(Some(true)) { "confirmed-by-image-crate" } else { "reference-disagrees" });
    }
    let o = opts(c);
    let pre = c.rng.bool();
    let Some(r) = c.lib("ppm decode", || {
        let mut d = PPMDecoder::new_with_options(ZCursor::new(&p.file), o);
        if pre {
            d.decode_headers().map_err(|e| format!("{e:?}"))?;
        }
        let v = d.decode().map_err(|e| format!("{e:?}"))?;
        Ok::<_, String>((d.dimensions(), d.colorspace(), d.bit_depth(), v))
    }) else {
        return;
    };
    let what = format!("{k} {}x{} maxval {}", p.w, p.h, p.maxval);
    match r {
        Err(e) => c.fail(format!("refused:{k}"), format!("{what}: {e}")),
        Ok((dim, cs, bd, v)) => {
            c.check(dim == Some((p.w, p.h)), "dimensions", || format!("{what}: {dim:?}"));
            let wcs = [ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA][p.ch - 1];
            c.check(cs == Some(wcs), "colorspace", || format!("{what}: {cs:?}"));
            let wbd = match p.samples {
                PnmSamples::U8(_) => BitDepth::Eight,
                PnmSamples::U16(_) => BitDepth::Sixteen,
                _ => BitDepth::Float32
            };
            c.check(bd == Some(wbd), "depth", || format!("{what}: {bd:?}"));
            let m = match (&v, &p.samples) {
                (DecodingResult::U8(a), PnmSamples::U8(b)) => (a != b).then(|| diff_msg(a, b)),
                (DecodingResult::U16(a), PnmSamples::U16(b)) => (a != b).then(|| diff_msg(a, b)),
                (DecodingResult::F32(a), PnmSamples::F32(b)) => {
                    let (a, b): (Vec<u32>, Vec<u32>) = (a.iter().map(|x| x.to_bits()).collect(), b.iter().map(|x| x.to_bits()).collect());
                    (a != b).then(|| diff_msg(&a, &b))
                }
                _ => Some("result type".into())
            };
            if let Some(m) = m {
                c.fail(format!("samples:{k}"), format!("{what}: {m}"));
            }
        }
    }
    c.saw(hash_bytes(&p.file));
}

// ------------------------------------------------------------------ farbfeld, HDR
fn d09_farbfeld(c: &mut Case) {
    let m = size(c);
    let (w, h, v, f) = farbfeld(&mut c.rng, m);
    c.blob(&f);
    c.sample(|| format!("farbfeld {w}x{h}"));
    let o = opts(c);
    let api = c.rng.below(3);
    let Some(r) = c.lib("farbfeld decode", || {
        let mut d = FarbFeldDecoder::new_with_options(ZCursor::new(&f), o);
        let px = match api {
            0 => d.decode().map_err(|e| format!("{e:?}"))?,
            1 => {
                d.decode_headers().map_err(|e| format!("{e:?}"))?;
                d.decode().map_err(|e| format!("{e:?}"))?
            }
            _ => {
                d.decode_headers().map_err(|e| format!("{e:?}"))?;
                // the size is in bytes
                let mut px = vec![0x5A5A; d.output_buffer_size().unwrap() / 2];
                d.decode_into(&mut px).map_err(|e| format!("{e:?}"))?;
                px
            }
        };
        Ok::<_, String>((d.dimensions(), d.colorspace(), d.bit_depth(), px))
    }) else {
        return;
    };
    match r {
        Err(e) => c.fail("refused:farbfeld", format!("{w}x{h}: {e}")),
        Ok((dim, cs, bd, px)) => {
            c.check(dim == Some((w, h)), "dimensions", || format!("{dim:?}"));
            c.check(cs == ColorSpace::RGBA && bd == BitDepth::Sixteen, "layout", || format!("{cs:?} {bd:?}"));
            c.check(px == v, "samples:farbfeld", || format!("{w}x{h}: {}", diff_msg(&px, &v)));
        }
    }
    c.saw(hash_bytes(&f));
}
fn d09_hdr(c: &mut Case) {
    let m = size(c);
    let p = Hdr::random(&mut c.rng, m);
    c.blob(&p.file);
    let what = format!("{}x{}{} flat/old/new {:?}", p.w, p.h, if p.column_major { " column-major" } else { "" }, p.modes);
    c.sample(|| what.clone());
    for (n, k) in ["flat-lines", "old-rle-lines", "new-rle-lines"].iter().zip(p.modes) {
        c.tag_n(n, k as u64);
    }
    let want = p.expected();
    if !p.column_major {
        let r = c.oracle(|| {
            let d = image::codecs::hdr::HdrDecoder::with_strictness(std::io::Cursor::new(&p.file), false).ok()?;
            let i = image::DynamicImage::from_decoder(d).ok()?;
            let image::DynamicImage::ImageRgb32F(b) = i else { return None };
            // it loses the smallest exponents
            Some(b.into_raw().iter().zip(&want).enumerate().all(|(i, (x, y))| x == y || p.px[i / 3][3] < 12))
        });
        c.tag(if r == Some(Some(true)) { "confirmed-by-image-crate" } else { "reference-disagrees" });
    }
    let o = opts(c);
    let api = c.rng.below(2);
    let Some(r) = c.lib("hdr decode", || {
        let mut d = HdrDecoder::new_with_options(ZCursor::new(&p.file), o);
        let v = if api == 0 {
            d.decode().map_err(|e| format!("{e:?}"))?
        } else {
            d.decode_headers().map_err(|e| format!("{e:?}"))?;
            let mut v = vec![-7.0; d.output_buffer_size().unwrap()];
            d.decode_into(&mut v).map_err(|e| format!("{e:?}"))?;
            v
        };
        Ok::<_, String>((d.dimensions(), d.get_colorspace(), d.metadata().clone(), v))
    }) else {
        return;
    };
    match r {
        Err(e) => c.fail(if p.column_major { "refused:hdr-columns" } else { "refused:hdr" }, format!("{what}: {e}")),
        Ok((dim, cs, meta, v)) => {
            c.check(dim == Some((p.w, p.h)), "dimensions", || format!("{what}: {dim:?}"));
            c.check(cs == Some(ColorSpace::RGB), "colorspace", || format!("{what}: {cs:?}"));
            let want_meta = p.meta.iter().cloned().collect();
            c.check(meta == want_meta, "metadata:hdr", || format!("{what}: got {meta:?} want {want_meta:?}"));
            let bits = |v: &[f32]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
            if v != want {
                let i = v.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
                let d = diff_msg(&bits(&v), &bits(&want));
                c.fail(if p.column_major { "samples:hdr-columns" } else { "samples:hdr" }, format!("{what}: rgbe {:?} gave {:?} not {:?}; {d}", p.px.get(i / 3), v.get(i), want.get(i)));
            }
        }
    }
    c.saw(hash_bytes(&p.file));
}

// ------------------------------------------------------------------ BMP
fn bmp_kind(p: &Bmp) -> String {
    format!("h{}b{}{:?}", p.hsize, p.bpp, p.comp)
}
fn bmp_check(c: &mut Case, p: &Bmp) {
    let k = bmp_kind(p);
    c.blob(&p.file);
    c.tag(&format!("b{}{:?}{}", p.bpp, p.comp, if p.top_down { "-topdown" } else { "" }));
    c.tag(&format!("header{}", p.hsize));
    for t in &p.tags {
        c.tag(t);
    }
    let what = format!("{k} {}x{}{} masks {:x?} {:?}", p.w, p.h, if p.top_down { " top-down" } else { "" }, p.masks, { let mut t = p.tags.clone(); t.dedup(); t.truncate(4); t });
    c.sample(|| what.clone());
    // what a decoder that knows nothing of ours makes of it
    if !p.undefined {
        let r = c.oracle(|| {
            let d = image::codecs::bmp::BmpDecoder::new(std::io::Cursor::new(&p.file)).ok()?;
            let i = image::DynamicImage::from_decoder(d).ok()?;
            let v = i.to_rgba8().into_raw();
            Some((i.width() as usize, i.height() as usize) == (p.w, p.h) && v.chunks(4).zip(p.expected.chunks(p.ch)).all(|(a, b)| {
                (0..3).all(|k| {
                    let (x, m) = b[if p.ch == 1 { 0 } else { k }];
                    (a[k] as f64 - x as f64 * 255.0 / m as f64).abs() <= 1.0
                })
            }))
        });
        c.tag(match r {
            Some(Some(true)) => "confirmed-by-image-crate",
            Some(Some(false)) => "image-crate-differs",
            _ => "image-crate-refuses"
        });
    }
    let bgr = c.rng.one_in(3);
    let o = opts(c);
    let api = c.rng.below(2);
    let Some(r) = c.lib("bmp decode", || {
        let mut d = BmpDecoder::new_with_options(ZCursor::new(&p.file), o);
        d.preserve_bgra(bgr);
        let v = if api == 0 {
            d.decode().map_err(|e| format!("{e:?}"))?
        } else {
            d.decode_headers().map_err(|e| format!("{e:?}"))?;
            let mut v = vec![0x5A; d.output_buf_size().unwrap()];
            d.decode_into(&mut v).map_err(|e| format!("{e:?}"))?;
            v
        };
        Ok::<_, String>((d.dimensions(), d.colorspace(), d.depth(), d.icc_profile().cloned(), d.color_primaries(), v))
    }) else {
        return;
    };
    let bt = if bgr { "+bgr" } else { "" };
    let (dim, cs, bd, icc, prim, v) = match r {
        Err(e) => {
            c.fail(format!("refused:{k}"), format!("{what}: {e}"));
            return;
        }
        Ok(x) => x
    };
    c.check(dim == Some((p.w, p.h)), "dimensions", || format!("{what}: {dim:?}"));
    let wcs = match (p.ch, bgr) {
        (1, _) => ColorSpace::Luma,
        (3, false) => ColorSpace::RGB,
        (3, true) => ColorSpace::BGR,
        (_, false) => ColorSpace::RGBA,
        _ => ColorSpace::BGRA
    };
    c.check(cs == Some(wcs), &format!("colorspace{bt}"), || format!("{what}: {cs:?}"));
    c.check(bd == BitDepth::Eight, "depth", || format!("{bd:?}"));
    c.check(icc == p.icc, "icc", || format!("{what}: profile {:?} not {:?}", icc.as_ref().map(|x| x.len()), p.icc.as_ref().map(|x| x.len())));
    if let (Some(a), Some(b)) = (prim, &p.primaries) {
        for (g, w) in [(a.red, b[0]), (a.green, b[1]), (a.blue, b[2])] {
            for (x, y) in [g.x, g.y, g.z].iter().zip(w) {
                let y = y as f64 / (1u64 << 30) as f64;
                c.check((*x as f64 - y).abs() < 1e-6, "primaries", || format!("{what}: {x} not {y}"));
            }
        }
    }
    if v.len() != p.expected.len() {
        c.fail(format!("length:{k}"), format!("{what}: {} bytes, not {}", v.len(), p.expected.len()));
        return;
    }
    for (i, g) in v.iter().enumerate() {
        let (px, ch) = (i / p.ch, i % p.ch);
        let src = if bgr && p.ch >= 3 && ch < 3 { 2 - ch } else { ch };
        let (x, m) = p.expected[px * p.ch + src];
        let ok = if m == 255 { *g as u32 == x } else { (*g as f64 - x as f64 * 255.0 / m as f64).abs() <= 1.0 };
        if !ok {
            c.fail(format!("pixels:{k}{bt}{}", if p.undefined { "+undefined" } else { "" }), format!("{what}: pixel ({}, {}) channel {ch}: {g}, stored {x} of {m}", px % p.w, px / p.w));
            break;
        }
    }
    c.saw(hash_bytes(&p.file));
}
fn d10_exact(c: &mut Case) {
    let m = size(c);
    let p = Bmp::random(&mut c.rng, m);
    bmp_check(c, &p);
}
fn d10_grid(c: &mut Case) {
    // every header x depth for the widths around row padding
    let i = c.idx as usize;
    let hs = [12u32, 16, 40, 52, 56, 64, 108, 124][i % 8];
    let bpp = [1u16, 2, 4, 8, 16, 24, 32][i / 8 % 7];
    let w = 1 + i / 56 % 18;
    let h = c.rng.range(1, 5);
    let p = Bmp::make(&mut c.rng, w, h, hs, bpp);
    bmp_check(c, &p);
}
fn d10_large(c: &mut Case) {
    let (w, h) = if c.rng.bool() { (c.rng.range(250, 1200), c.rng.range(1, 8)) } else { (c.rng.range(1, 8), c.rng.range(250, 1200)) };
    let hs = *c.rng.pick(&[40u32, 108, 124]);
    let bpp = *c.rng.pick(&[1u16, 4, 4, 8, 8, 16, 24, 32]);
    let p = Bmp::make(&mut c.rng, w, h, hs, bpp);
    bmp_check(c, &p);
}

// ------------------------------------------------------------------ PSD
/// white matte removal the way the merged image is stored: color over white by alpha
fn unmatte(v: &[u16], max: f64) -> Vec<(f64, f64)> {
    let mut out = Vec::new();
    for p in v.chunks(4) {
        let a = p[3] as f64 / max;
        for &x in &p[..3] {
            if p[3] == 0 || p[3] as f64 == max {
                out.push((x as f64, 0.0));
            } else {
                // single precision is enough for the arithmetic: tolerate its rounding
                let y = (x as f64 - max * (1.0 - a)) / a;
                out.push((y.clamp(0.0, max), 1.0 + max / a * 6e-7));
            }
        }
        out.push((p[3] as f64, 0.0));
    }
    out
}
fn exact(v: &[u16]) -> Vec<(f64, f64)> {
    v.iter().map(|x| (*x as f64, 0.0)).collect()
}
fn within(got: &[u16], want: &[(f64, f64)]) -> Option<String> {
    if got.len() != want.len() {
        return Some(format!("{} samples, not {}", got.len(), want.len()));
    }
    got.iter().zip(want).position(|(g, (w, t))| (*g as f64 - w).abs() > *t).map(|i| format!("sample {i}: {} not {:.3}", got[i], want[i].0))
}
fn d11_exact(c: &mut Case) {
    let m = size(c);
    let p = Psd::random(&mut c.rng, m);
    let n = p.out_ch();
    let k = format!("mode{}ch{}d{}{}", p.mode, p.file_ch, p.depth, if p.rle { "rle" } else { "raw" });
    c.blob(&p.file);
    c.tag(&k);
    c.sample(|| format!("{k} {}x{}", p.w, p.h));
    let o = opts(c);
    let api = c.rng.below(2);
    let Some(r) = c.lib("psd decode", || {
        let mut d = PSDDecoder::new_with_options(ZCursor::new(&p.file), o);
        d.decode_headers().map_err(|e| format!("{e:?}"))?;
        let facts = (d.dimensions(), d.colorspace(), d.bit_depth());
        let v: Vec<u16> = if api == 0 {
            match d.decode().map_err(|e| format!("{e:?}"))? {
                DecodingResult::U8(v) => v.into_iter().map(|x| x as u16).collect(),
                DecodingResult::U16(v) => v,
                _ => return Err("result type".to_string())
            }
        } else {
            let v = d.decode_raw().map_err(|e| format!("{e:?}"))?;
            if p.depth == 16 {
                v.chunks(2).map(|x| u16::from_ne_bytes([x[0], x[1]])).collect()
            } else {
                v.into_iter().map(|x| x as u16).collect()
            }
        };
        Ok((facts, v))
    }) else {
        return;
    };
    let what = format!("{k} {}x{}", p.w, p.h);
    match r {
        Err(e) => c.fail(format!("refused:{k}"), format!("{what}: {e}")),
        Ok((f, v)) => {
            c.check(f.0 == Some((p.w, p.h)), "dimensions", || format!("{what}: {:?}", f.0));
            let wcs = match p.mode {
                1 => ColorSpace::Luma,
                3 if p.file_ch == 3 => ColorSpace::RGB,
                3 => ColorSpace::RGBA,
                _ => ColorSpace::CMYK
            };
            c.check(f.1 == Some(wcs), "colorspace", || format!("{what}: {:?}", f.1));
            let wbd = if p.depth == 16 { BitDepth::Sixteen } else { BitDepth::Eight };
            c.check(f.2 == Some(wbd), "depth", || format!("{what}: {:?}", f.2));
            let max = if p.depth == 16 { 65535.0 } else { 255.0 };
            let flat = p.interleaved();
            let want = if wcs == ColorSpace::RGBA { unmatte(&flat, max) } else { exact(&flat) };
            if let Some(m) = within(&v, &want) {
                // the two recorded defects, each reproduced exactly; anything else is new
                let mut partial = flat.clone();
                if p.depth == 8 && !p.rle && n > 1 {
                    let stream: Vec<u16> = p.planes.iter().flatten().copied().collect();
                    partial.iter_mut().for_each(|x| *x = 0);
                    let mut at = 0;
                    for ch in 0..n {
                        let mut i = ch;
                        while i < p.w * p.h {
                            partial[i] = stream[at];
                            at += 1;
                            i += n;
                        }
                    }
                }
                let want2 = if n == 4 { unmatte(&partial, max) } else { exact(&partial) };
                if within(&v, &want2).is_none() && (partial != flat || p.mode == 4) {
                    if partial != flat {
                        c.fail("raw8-multichannel-partial", format!("{what}: {m}"));
                    }
                    if p.mode == 4 && within(&v, &exact(&partial)).is_some() {
                        c.fail("cmyk-matte", format!("{what}: {m}"));
                    }
                } else {
                    c.fail(format!("samples:{k}"), format!("{what}: {m}"));
                }
            }
        }
    }
    c.saw(hash_bytes(&p.file));
}

// ------------------------------------------------------------------ E02
const SPACES: [ColorSpace; 9] = [
    ColorSpace::Luma,
    ColorSpace::LumaA,
    ColorSpace::RGB,
    ColorSpace::RGBA,
    ColorSpace::BGR,
    ColorSpace::BGRA,
    ColorSpace::YCbCr,
    ColorSpace::CMYK,
    ColorSpace::HSV
];
fn dims(c: &mut Case) -> (usize, usize) {
    let m = size(c);
    if c.rng.one_in(10) {
        (c.rng.range(120, 700), c.rng.range(1, 4))
    } else {
        (c.rng.dim(m), c.rng.dim(m))
    }
}
fn ret_ok(c: &mut Case, name: &str, n: usize, out: &[u8]) {
    c.check(n == out.len(), &format!("returned-length:{name}"), || format!("{n} returned, {} written", out.len()));
}
fn e02_qoi(c: &mut Case) {
    let (w, h) = dims(c);
    let ch = if c.rng.bool() { 3 } else { 4 };
    let px = qoi_pixels(&mut c.rng, w * h, ch == 4);
    let data: Vec<u8> = px.iter().flat_map(|p| p[..ch].to_vec()).collect();
    c.blob(&data);
    c.sample(|| format!("qoi {w}x{h}x{ch}"));
    let cs = if ch == 3 { ColorSpace::RGB } else { ColorSpace::RGBA };
    let Some(r) = c.lib("qoi encode", || {
        let mut out = Vec::new();
        let mut e = QoiEncoder::new(&data, EncoderOptions::new(w, h, cs, BitDepth::Eight));
        let cap = e.max_size();
        e.encode(&mut out).map(|n| (n, out, cap)).map_err(|e| format!("{e:?}"))
    }) else {
        return;
    };
    match r {
        Err(e) => c.fail("encode-refused:qoi", format!("{w}x{h}x{ch}: {e}")),
        Ok((n, out, cap)) => {
            ret_ok(c, "qoi", n, &out);
            c.check(out.len() <= cap, "max-size:qoi", || format!("{} bytes, max_size {cap}", out.len()));
            let r = c.oracle(|| rapid(&out)).flatten();
            c.check(r.as_ref().is_some_and(|x| *x == (w, h, ch, data.clone())), "roundtrip:qoi:rapid-qoi", || {
                format!("{w}x{h}x{ch}: {}", r.as_ref().map(|x| diff_msg(&x.3, &data)).unwrap_or("refused".into()))
            });
            c.check(out.len() >= 22 && out[out.len() - 8..] == [0, 0, 0, 0, 0, 0, 0, 1] && out[13] <= 1, "structure:qoi", || "header or end marker".into());
            if let Some(r) = qoi_decode(c, &out, DecoderOptions::default().set_strict_mode(true), 0) {
                c.check(matches!(&r, Ok((d, s, _, v)) if *d == Some((w, h)) && *s == Some(cs) && *v == data), "roundtrip:qoi:self", || format!("{w}x{h}x{ch}"));
            }
        }
    }
    c.saw(hash_bytes(&data) ^ (w as u64) << 32);
}
/// an independent and deliberately strict Netpbm reader
fn read_pnm(f: &[u8]) -> Option<(usize, usize, usize, u32, Vec<u32>)> {
    let (mut w, mut h, mut ch, mut maxval) = (0usize, 0usize, 0usize, 0u32);
    let body;
    match f.get(..2)? {
        b"P5" | b"P6" => {
            let mut pos = 2;
            let mut nums = Vec::new();
            for _ in 0..3 {
                while f.get(pos)?.is_ascii_whitespace() {
                    pos += 1;
                }
                let s = pos;
                while f.get(pos)?.is_ascii_digit() {
                    pos += 1;
                }
                nums.push(std::str::from_utf8(&f[s..pos]).ok()?.parse::<usize>().ok()?);
            }
            if !f.get(pos)?.is_ascii_whitespace() {
                return None;
            }
            (w, h, maxval) = (nums[0], nums[1], nums[2] as u32);
            ch = if f[1] == b'5' { 1 } else { 3 };
            body = &f[pos + 1..];
        }
        b"P7" => {
            let p = f.windows(8).position(|x| x == b"\nENDHDR\n")?;
            let mut t = "";
            for l in std::str::from_utf8(&f[3..p]).ok()?.lines() {
                let (k, v) = l.split_once(' ')?;
                match k {
                    "WIDTH" => w = v.parse().ok()?,
                    "HEIGHT" => h = v.parse().ok()?,
                    "DEPTH" => ch = v.parse().ok()?,
                    "MAXVAL" => maxval = v.parse().ok()?,
                    "TUPLTYPE" => t = v,
                    _ => return None
                }
            }
            if t != *["GRAYSCALE", "GRAYSCALE_ALPHA", "RGB", "RGB_ALPHA"].get(ch.wrapping_sub(1))? {
                return None;
            }
            body = &f[p + 8..];
        }
        _ => return None
    }
    let n = w * h * ch;
    let s: Vec<u32> = if maxval > 255 {
        body.chunks(2).map(|x| (x[0] as u32) << 8 | *x.get(1).unwrap_or(&0) as u32).collect()
    } else {
        body.iter().map(|x| *x as u32).collect()
    };
    if body.len() != n * if maxval > 255 { 2 } else { 1 } {
        return None;
    }
    Some((w, h, ch, maxval, s))
}
fn e02_pnm(c: &mut Case) {
    let (w, h) = dims(c);
    let ch = c.rng.range(1, 4);
    let cs = SPACES[ch - 1];
    let sixteen = c.rng.bool();
    let data = c.rng.texture(w * h * ch * if sixteen { 2 } else { 1 });
    let want: Vec<u32> = if sixteen { data.chunks(2).map(|x| u16::from_ne_bytes([x[0], x[1]]) as u32).collect() } else { data.iter().map(|x| *x as u32).collect() };
    let what = format!("{w}x{h} {cs:?} {}", if sixteen { 16 } else { 8 });
    let k = format!("{cs:?}{}", if sixteen { 16 } else { 8 });
    c.blob(&data);
    c.tag(&k);
    c.sample(|| what.clone());
    let bd = if sixteen { BitDepth::Sixteen } else { BitDepth::Eight };
    let Some(r) = c.lib("ppm encode", || {
        let mut out = Vec::new();
        let o = EncoderOptions::new(w, h, cs, bd);
        let m = zune_ppm::max_out_size(&o);
        PPMEncoder::new(&data, o).encode(&mut out).map(|n| (n, out, m)).map_err(|e| format!("{e:?}"))
    }) else {
        return;
    };
    match r {
        Err(e) => c.fail(format!("encode-refused:pnm:{k}"), format!("{what}: {e}")),
        Ok((n, out, m)) => {
            ret_ok(c, "pnm", n, &out);
            c.check(out.len() <= m, "max-size:pnm", || format!("{what}: {} > {m}", out.len()));
            let maxval = if sixteen { 65535 } else { 255 };
            let r = c.oracle(|| read_pnm(&out)).flatten();
            c.check(r.as_ref().is_some_and(|x| *x == (w, h, ch, maxval, want.clone())), &format!("conform:pnm:{k}"), || format!("{what}: {:?}", String::from_utf8_lossy(&out[..out.len().min(90)])));
            let img = c.oracle(|| {
                let d = image::codecs::pnm::PnmDecoder::new(std::io::Cursor::new(&out)).ok()?;
                let i = image::DynamicImage::from_decoder(d).ok()?;
                Some((i.width() as usize == w && i.height() as usize == h) && i.as_bytes() == &data[..])
            });
            c.check(img == Some(Some(true)), &format!("roundtrip:pnm:image:{k}"), || what.clone());
            let own = c.lib("ppm decode", || {
                let mut d = PPMDecoder::new(ZCursor::new(&out));
                let v = d.decode().map_err(|e| format!("{e:?}"))?;
                let v: Vec<u32> = match v {
                    DecodingResult::U8(v) => v.into_iter().map(|x| x as u32).collect(),
                    DecodingResult::U16(v) => v.into_iter().map(|x| x as u32).collect(),
                    _ => return Err("type".to_string())
                };
                Ok((d.dimensions(), d.colorspace(), d.bit_depth(), v))
            });
            if let Some(r) = own {
                c.check(r == Ok((Some((w, h)), Some(cs), Some(bd), want)), &format!("roundtrip:pnm:self:{k}"), || what.clone());
            }
        }
    }
    c.saw(hash_bytes(&data) ^ (w as u64) << 32 ^ ch as u64);
}
fn e02_farbfeld(c: &mut Case) {
    let (w, h) = dims(c);
    let data = c.rng.texture(w * h * 8);
    let px: Vec<u16> = data.chunks(2).map(|x| u16::from_ne_bytes([x[0], x[1]])).collect();
    let what = format!("{w}x{h}");
    c.blob(&data);
    c.sample(|| what.clone());
    let Some(r) = c.lib("farbfeld encode", || {
        let mut out = Vec::new();
        FarbFeldEncoder::new(&data, EncoderOptions::new(w, h, ColorSpace::RGBA, BitDepth::Sixteen)).encode(&mut out).map(|n| (n, out)).map_err(|e| format!("{e:?}"))
    }) else {
        return;
    };
    match r {
        Err(e) => c.fail("encode-refused:farbfeld", format!("{what}: {e}")),
        Ok((n, out)) => {
            ret_ok(c, "farbfeld", n, &out);
            let mut want = b"farbfeld".to_vec();
            want.extend((w as u32).to_be_bytes());
            want.extend((h as u32).to_be_bytes());
            px.iter().for_each(|x| want.extend(x.to_be_bytes()));
            c.check(out == want, "conform:farbfeld", || format!("{what}: {}", diff_msg(&out, &want)));
            let own = c.lib("farbfeld decode", || FarbFeldDecoder::new(ZCursor::new(&out)).decode().map_err(|e| format!("{e:?}")));
            if let Some(r) = own {
                c.check(r == Ok(px), "roundtrip:farbfeld:self", || what.clone());
            }
        }
    }
    c.saw(hash_bytes(&data) ^ (w as u64) << 32);
}
/// strict Radiance reader for the encoder's own output
fn read_hdr(f: &[u8]) -> Option<(usize, usize, HashMap<String, String>, Vec<[u8; 4]>)> {
    let mut pos = 0;
    let mut line = || {
        let n = f[pos..].iter().position(|x| *x == b'\n')?;
        let s = std::str::from_utf8(&f[pos..pos + n]).ok()?.to_string();
        pos += n + 1;
        Some(s)
    };
    if line()? != "#?RADIANCE" {
        return None;
    }
    let mut meta = HashMap::new();
    loop {
        let l = line()?;
        if l.is_empty() {
            break;
        }
        let (k, v) = l.split_once('=')?;
        meta.insert(k.to_string(), v.to_string());
    }
    let r = line()?;
    let t: Vec<&str> = r.split(' ').collect();
    if t.len() != 4 || t[0] != "-Y" || t[2] != "+X" {
        return None;
    }
    let (h, w): (usize, usize) = (t[1].parse().ok()?, t[3].parse().ok()?);
    let mut px = Vec::with_capacity(w * h);
    for _ in 0..h {
        if (8..=0x7fff).contains(&w) && f.get(pos..pos + 4)? == [2, 2, (w >> 8) as u8, w as u8] {
            pos += 4;
            let mut comps = Vec::new();
            for _ in 0..4 {
                let mut v = Vec::new();
                while v.len() < w {
                    let n = *f.get(pos)? as usize;
                    pos += 1;
                    if n > 128 {
                        v.extend(std::iter::repeat(*f.get(pos)?).take(n - 128));
                        pos += 1;
                    } else if n > 0 {
                        v.extend(f.get(pos..pos + n)?);
                        pos += n;
                    } else {
                        return None;
                    }
                }
                if v.len() != w {
                    return None;
                }
                comps.push(v);
            }
            px.extend((0..w).map(|i| [comps[0][i], comps[1][i], comps[2][i], comps[3][i]]));
        } else {
            for _ in 0..w {
                let p: [u8; 4] = f.get(pos..pos + 4)?.try_into().ok()?;
                if p[..3] == [1, 1, 1] {
                    return None; // would be read as a run
                }
                px.push(p);
                pos += 4;
            }
        }
    }
    (pos == f.len()).then_some((w, h, meta, px))
}
fn hdr_value(r: &mut Rng) -> f32 {
    match r.below(8) {
        0 => 0.0,
        1 => f32::from_bits(r.u32() & 0x7fffffff),
        2 => 2f32.powi(r.irange(-40, 40) as i32),
        3 => f32::from_bits(2f32.powi(r.irange(-40, 40) as i32).to_bits() - 1),
        4 => r.below(257) as f32 / 256.0,
        5 => r.f32() * 1000.0,
        _ => r.f32()
    }
}
fn e02_hdr(c: &mut Case) {
    let (mut w, mut h) = dims(c);
    if c.idx % 40 == 9 {
        w = *c.rng.pick(&[7, 8, 127, 128, 129, 255, 256, 32767, 32768, 33000]);
        h = 1;
    }
    let smooth = c.rng.one_in(3);
    let big = c.rng.one_in(4);
    let mut v: Vec<f32> = Vec::with_capacity(w * h * 3);
    while v.len() < w * h * 3 {
        if smooth && v.len() >= 3 && !c.rng.one_in(20) {
            let n = v.len();
            for k in 0..3 {
                v.push(v[n - 3 + k]);
            }
            continue;
        }
        for _ in 0..3 {
            let mut x = if big { hdr_value(&mut c.rng) } else { c.rng.f32() };
            if !x.is_finite() {
                x = f32::MAX;
            }
            v.push(x);
        }
    }
    let mut extra = HashMap::new();
    for i in 0..c.rng.below(4) {
        extra.insert(format!("KEY{i}"), format!("value {} = {i}", c.rng.u16()));
    }
    let what = format!("{w}x{h}");
    c.blob(&v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>());
    c.sample(|| what.clone());
    let Some(r) = c.lib("hdr encode", || {
        let mut out = Vec::new();
        let mut e = HdrEncoder::new(&v, EncoderOptions::new(w, h, ColorSpace::RGB, BitDepth::Float32));
        e.add_headers(&extra);
        e.encode(&mut out).map(|n| (n, out)).map_err(|e| format!("{e:?}"))
    }) else {
        return;
    };
    match r {
        Err(e) => c.fail("encode-refused:hdr", format!("{what}: {e}")),
        Ok((n, out)) => {
            ret_ok(c, "hdr", n, &out);
            match c.oracle(|| read_hdr(&out)).flatten() {
                None => c.fail(if (8..=0x7fff).contains(&w) { "conform:hdr" } else { "conform:hdr-flat" }, format!("{what}: not a valid Radiance file")),
                Some((rw, rh, meta, px)) => {
                    c.check((rw, rh) == (w, h), "dimensions:hdr", || format!("{what}: {rw}x{rh}"));
                    c.check(meta.get("FORMAT").map(|x| x.as_str()) == Some("32-bit_rle_rgbe") && extra.iter().all(|(k, v)| meta.get(k) == Some(v)), "metadata:hdr", || format!("{what}: {meta:?}"));
                    for (i, (p, s)) in px.iter().zip(v.chunks(3)).enumerate() {
                        let m = s.iter().cloned().fold(0.0f32, f32::max);
                        let g = rgbe(*p);
                        // spacing of the values the pixel's shared exponent can express
                        let unit = if m <= 1e-32 { 1e-32 } else { 2f64.powi((m as f64).log2().floor() as i32 + 1 - 8).min(2f64.powi(120)) };
                        let lim = 255.0 * 2f64.powi(119);
                        if (0..3).any(|k| ((s[k] as f64).min(lim) - g[k] as f64).abs() > unit * 1.0000001) {
                            c.fail("precision:hdr", format!("{what}: pixel {i} {s:?} came back {g:?} (stored {p:?})"));
                            break;
                        }
                    }
                    let own = c.lib("hdr decode", || {
                        let o = DecoderOptions::default().set_max_width(1 << 20).set_max_height(1 << 20);
                        let mut d = HdrDecoder::new_with_options(ZCursor::new(&out), o);
                        let v = d.decode().map_err(|e| format!("{e:?}"))?;
                        Ok::<_, String>((d.dimensions(), d.metadata().clone(), v))
                    });
                    if let Some(r) = own {
                        let want: Vec<f32> = px.iter().flat_map(|p| rgbe(*p)).collect();
                        c.check(matches!(&r, Ok((d, m, v)) if *d == Some((w, h)) && *v == want && extra.iter().all(|(k, v)| m.get(k) == Some(v))), "roundtrip:hdr:self", || {
                            format!("{what}: {}", match &r {
                                Ok((d, m, _)) => format!("{d:?} {m:?}"),
                                Err(e) => e.clone()
                            })
                        });
                    }
                }
            }
        }
    }
    c.saw(hash_bytes(&v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()) ^ (w as u64) << 32);
}
fn e02_refuse(c: &mut Case) {
    // unsupported layouts and wrong lengths are errors
    let (w, h) = (c.rng.dim(12), c.rng.dim(12));
    let cs = *c.rng.pick(&SPACES);
    let bd = *c.rng.pick(&[BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32]);
    let n = cs.num_components();
    let good = w * h * n * bd.size_of();
    let len = match c.rng.below(4) {
        0 => good,
        1 => good + c.rng.range(1, 9),
        2 => good.saturating_sub(c.rng.range(1, 9)),
        _ => c.rng.below(good * 2)
    };
    let data = c.rng.bytes(len);
    let o = EncoderOptions::new(w, h, cs, bd);
    let what = format!("{w}x{h} {cs:?} {bd:?}, {len} bytes of {good}");
    c.sample(|| what.clone());
    c.tag(&format!("{cs:?}{bd:?}"));
    let rgbish = matches!(cs, ColorSpace::RGB | ColorSpace::RGBA);
    // QOI: 8-bit RGB(A)
    let mut sink = Vec::new();
    if bd == BitDepth::Eight {
        let r = c.lib("qoi encode", || QoiEncoder::new(&data, o).encode(&mut sink).is_ok());
        let ok = rgbish && len == good;
        c.check(r.is_none() || r == Some(ok), "accepts:qoi", || format!("{what}: accepted {r:?}"));
    }
    sink.clear();
    let r = c.lib("ppm encode", || PPMEncoder::new(&data, o).encode(&mut sink).is_ok());
    let ok = SPACES[..4].contains(&cs) && bd != BitDepth::Float32 && len == good;
    c.check(r.is_none() || r == Some(ok), "accepts:ppm", || format!("{what}: accepted {r:?}"));
    sink.clear();
    let r = c.lib("farbfeld encode", || FarbFeldEncoder::new(&data, o).encode(&mut sink).is_ok());
    let ok = cs == ColorSpace::RGBA && bd == BitDepth::Sixteen && len == good;
    c.check(r.is_none() || r == Some(ok), "accepts:farbfeld", || format!("{what}: accepted {r:?}"));
    sink.clear();
    let f: Vec<f32> = (0..len / bd.size_of().max(1)).map(|i| i as f32 / 100.0).collect();
    if bd == BitDepth::Float32 {
        let r = c.lib("hdr encode", || HdrEncoder::new(&f, o).encode(&mut sink).is_ok());
        let ok = cs == ColorSpace::RGB && f.len() == w * h * 3;
        c.check(r.is_none() || r == Some(ok), "accepts:hdr", || format!("{what}: accepted {r:?}"));
    }
    c.saw(hash_bytes(what.as_bytes()));
}

static FAMILIES: &[Family] = &[
    Family { property: "R11", name: "raster", n: (1500, 40_000), rule: "cases of this program's other families run again and again; bytes, files and threads held must not grow", f: zvcore::balanced },
    Family { property: "D07", name: "exact", n: (30_000, 600_000), rule: "random pixels written with random valid choices of QOI operations; non-trivial: every one", f: d07_exact },
    Family { property: "D07", name: "wide", n: (300, 4_000), rule: "images up to 16384 pixels wide or tall", f: d07_wide },
    Family { property: "D07", name: "damage", n: (8_000, 200_000), rule: "prefixes cut in the pixel data in any mode; missing or corrupt end marker in strict mode", f: d07_damage },
    Family { property: "D08", name: "exact", n: (60_000, 1_200_000), rule: "random PGM/PPM/PAM/PFM with random whitespace, comments, maxval and samples that look like header bytes", f: d08_exact },
    Family { property: "D09", name: "farbfeld", n: (10_000, 200_000), rule: "random samples and sizes through decode, decode after headers and decode_into", f: d09_farbfeld },
    Family { property: "D09", name: "hdr", n: (40_000, 800_000), rule: "random RGBE pixels; every scanline flat, old or new run-length coded; row- or column-major; random header", f: d09_hdr },
    Family { property: "D10", name: "exact", n: (60_000, 1_200_000), rule: "random header version, depth, compression, masks, palette, run-length program, orientation", f: d10_exact },
    Family { property: "D10", name: "grid", n: (1_008, 20_160), rule: "every header version x depth x width 1..18", f: d10_grid },
    Family { property: "D10", name: "large", n: (1_000, 20_000), rule: "rows beyond 255 pixels or more than 255 rows", f: d10_large },
    Family { property: "D11", name: "exact", n: (50_000, 1_000_000), rule: "random mode, channels, depth, packing and skipped sections", f: d11_exact },
    Family { property: "E02", name: "qoi", n: (20_000, 400_000), rule: "encode, decode with rapid-qoi and this library", f: e02_qoi },
    Family { property: "E02", name: "pnm", n: (20_000, 400_000), rule: "encode, parse with a strict reader, the image crate and this library", f: e02_pnm },
    Family { property: "E02", name: "farbfeld", n: (5_000, 100_000), rule: "encode, compare with the format's own layout", f: e02_farbfeld },
    Family { property: "E02", name: "hdr", n: (15_000, 300_000), rule: "encode, parse with a strict reader, compare within one unit of the shared exponent", f: e02_hdr },
    Family { property: "E02", name: "refuse", n: (20_000, 200_000), rule: "every colour space x depth with right and wrong lengths: accepted exactly when supported", f: e02_refuse }
];
fn main() {
    zvcore::main(FAMILIES)
}
