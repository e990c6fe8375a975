//! O04: adjustments of single pixels.
use crate::common::*;
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace as C;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::brighten::Brighten;
use zune_imageprocs::color_matrix::ColorMatrix;
use zune_imageprocs::contrast::Contrast;
use zune_imageprocs::exposure::Exposure;
use zune_imageprocs::gamma::Gamma;
use zune_imageprocs::hsv_adjust::HsvAdjust;
use zune_imageprocs::invert::Invert;
use zune_imageprocs::stretch_contrast::StretchContrast;
use zune_imageprocs::threshold::{Threshold, ThresholdMethod as TM};
use zvcore::{hash_bytes, Case, Rng};
use zvimg::*;

const INTS: [BitDepth; 2] = [BitDepth::Eight, BitDepth::Sixteen];

fn img(r: &mut Rng, depths: &[BitDepth]) -> Model {
    let max = if cfg!(miri) { 10 } else { 50 };
    let (w, h) = size(r, max);
    let cs = if r.one_in(4) { any_space(r) } else { *r.pick(&[C::RGB, C::RGBA, C::Luma, C::LumaA, C::RGB, C::RGBA, band(2), band(5)]) };
    let d = *r.pick(depths);
    let n = if r.one_in(6) { 2 } else { 1 };
    Model::random_at(r, w, h, cs, d, n)
}
fn done(c: &mut Case, m: &Model, what: &str, param: &str) {
    c.tag(what);
    c.saw(m.hash() ^ hash_bytes(format!("{what}{param}").as_bytes()));
    c.sample(|| format!("{what} {param} on {}", m.fmt()));
}
/// the spaces every adjustment takes
fn plain(cs: C) -> bool {
    matches!(cs, C::RGB | C::RGBA | C::Luma | C::LumaA | C::MultiBand(_))
}
/// run; `narrow` operations may refuse what is not RGB or gray
fn run(c: &mut Case, m: &Model, what: &str, op: &dyn OperationsTrait, narrow: bool) -> Option<Model> {
    if narrow && !plain(m.cs) {
        return apply(c, m, what, op)?.ok();
    }
    must(c, m, what, op)
}
fn f(v: f32) -> f64 {
    v as f64
}
pub fn curves(c: &mut Case) {
    let m = img(&mut c.rng, &DEPTHS);
    let full = m.full();
    let int = is_int(m.depth);
    let fit = |v: f64| if int { v.clamp(0.0, full) } else { v };
    let r = &mut c.rng;
    let eps = full * 4e-7 * 4.0;
    match r.below(5) {
        0 => {
            let v = match r.below(6) {
                0 => 0.0,
                1 => *r.pick(&[1.0, -1.0, 2.0, -3.0, 0.5]),
                _ => r.f32() * 2.0 - 1.0
            };
            let Some(o) = run(c, &m, "brighten", &Brighten::new(v), true) else { return };
            let want = planes(&m, true, |p| {
                p.iter().map(|x| if int { (x + f(v).clamp(-1.0, 1.0) * full).clamp(0.0, full) } else { (x + f(v)).clamp(0.0, 1.0) }).collect()
            });
            close(c, "brighten", &format!("brighten {v}"), &o, &want, 1.0 - 1e-9 + eps, 0.5 + eps, 1e-6);
            if v == 0.0 {
                same(c, "brighten-neutral", "brighten 0", &o, &m, 0.0);
            }
            done(c, &m, "brighten", &v.to_string());
        }
        1 => {
            let e = match r.below(5) {
                0 => 1.0,
                1 => *r.pick(&[0.0, 2.0, 0.5, -1.0]),
                _ => r.f32() * 4.0 - 0.5
            };
            let b = match r.below(4) {
                0 => 0.0,
                1 => *r.pick(&[1.0, -0.5, 1.5]),
                _ => r.f32()
            };
            let Some(o) = run(c, &m, "exposure", &Exposure::new(e, b), false) else { return };
            let want = planes(&m, true, |p| p.iter().map(|x| fit((x - f(b).clamp(0.0, 1.0) * full) * f(e))).collect());
            let eps = eps * f(e).abs().max(1.0);
            close(c, "exposure", &format!("exposure {e} black {b}"), &o, &want, 1.0 - 1e-9 + eps, 0.5 + eps, 4e-6);
            if e == 1.0 && b == 0.0 {
                same(c, "exposure-neutral", "exposure 1, black 0", &o, &m, 0.0);
            }
            done(c, &m, "exposure", &format!("{e} {b}"));
        }
        2 => {
            let g = match r.below(5) {
                0 => 1.0,
                1 => *r.pick(&[2.0, 0.5, 3.0, 0.1]),
                _ => 0.1 + r.f32() * 4.0
            };
            let Some(o) = run(c, &m, "gamma", &Gamma::new(g), false) else { return };
            let want = planes(&m, true, |p| p.iter().map(|x| full * (x / full).powf(f(g))).collect());
            let eps = full * 3e-6;
            close(c, "gamma", &format!("gamma {g}"), &o, &want, 1.0 + eps, 0.5 + eps, 1e-5);
            if g == 1.0 {
                same(c, "gamma-neutral", "gamma 1", &o, &m, 0.0);
            }
            done(c, &m, "gamma", &g.to_string());
        }
        3 => {
            let Some(o) = run(c, &m, "invert", &Invert::new(), true) else { return };
            let want = planes(&m, true, |p| p.iter().map(|x| if int { full - x } else { (1f32 - *x as f32) as f64 }).collect());
            close(c, "invert", "invert", &o, &want, 0.0, 0.0, 1e-7);
            let Some(b) = run(c, &o, "invert", &Invert::new(), true) else { return };
            same(c, "invert-twice", "invert twice", &b, &m, if int { 0.0 } else { 1.2e-7 });
            done(c, &m, "invert", "");
        }
        _ => {
            let mut m = m;
            if m.depth != BitDepth::Eight {
                m = Model::random_at(r, m.w, m.h, m.cs, BitDepth::Eight, 1);
            }
            let v = match r.below(4) {
                0 => 0.0,
                _ => r.f32() * 510.0 - 255.0
            };
            let k = 259.0 * (f(v) + 255.0) / (255.0 * (259.0 - f(v)));
            let Some(o) = run(c, &m, "contrast", &Contrast::new(v), true) else { return };
            let want = planes(&m, true, |p| p.iter().map(|x| (k * (x - 128.0) + 128.0).clamp(0.0, 255.0)).collect());
            let eps = 2e-4 * k.abs().max(1.0);
            close(c, "contrast", &format!("contrast {v}"), &o, &want, 1.0 + eps, 0.5 + eps, 0.0);
            if v == 0.0 {
                same(c, "contrast-neutral", "contrast 0", &o, &m, 0.0);
            }
            done(c, &m, "contrast", &v.to_string());
        }
    }
}
pub fn levels(c: &mut Case) {
    let narrow = c.rng.bool();
    let m = img(&mut c.rng, if narrow { &INTS } else { &DEPTHS });
    let full = m.full();
    let int = is_int(m.depth);
    let r = &mut c.rng;
    if !narrow {
        // a level of the image half of the time
        let t = if r.bool() {
            m.frames[0][0][r.below(m.w * m.h)] as f32
        } else if int {
            (r.f32() * 1.3 - 0.15) * full as f32
        } else {
            r.f32() * 1.3 - 0.15
        };
        let k = if int { (t as f64).clamp(0.0, full).floor() } else { t as f64 };
        let (meth, name) = match r.below(4) {
            0 => (TM::Binary, "binary"),
            1 => (TM::BinaryInv, "binary inverse"),
            2 => (TM::ThreshTrunc, "truncate"),
            _ => (TM::ThreshToZero, "to zero")
        };
        let want = planes(&m, true, |p| {
            p.iter()
                .map(|x| match name {
                    "binary" => if *x > k { full } else { 0.0 },
                    "binary inverse" => if *x > k { 0.0 } else { full },
                    "truncate" => if *x > k { k } else { *x },
                    _ => if *x > k { *x } else { 0.0 }
                })
                .collect()
        });
        let Some(o) = run(c, &m, "threshold", &Threshold::new(t, meth), false) else { return };
        same(c, "threshold", &format!("threshold {name} {t}"), &o, &want, 0.0);
        done(c, &m, "threshold", &format!("{t}{name}"));
    } else {
        let mut lo = r.below(full as usize + 1) as f64;
        let mut hi = r.below(full as usize + 1) as f64;
        match r.below(8) {
            0 => {
                lo = 0.0;
                hi = full
            }
            1 => hi = lo,
            2 => hi = (lo + 1.0).min(full),
            _ => {}
        }
        let op = StretchContrast::new(lo as f32, hi as f32);
        let detail = format!("stretch {lo}..{hi}");
        if hi < lo {
            if let Some(Ok(_)) = apply(c, &m, "stretch", &op) {
                c.fail("stretch-reversed", format!("{detail}: accepted"));
            }
        } else if let Some(o) = run(c, &m, "stretch", &op, false) {
            let want = planes(&m, true, |p| {
                p.iter().map(|x| if *x >= hi { full } else if *x <= lo { 0.0 } else { full * (x - lo) / (hi - lo) }).collect()
            });
            close(c, "stretch", &detail, &o, &want, 1.0 - 1e-9, 0.5, 0.0);
            if lo == 0.0 && hi == full {
                same(c, "stretch-neutral", "stretching the full range", &o, &m, 0.0);
            }
        }
        done(c, &m, "stretch", &detail);
    }
}
fn rgb_at(cs: C) -> Option<[usize; 3]> {
    Some(match cs {
        C::RGB | C::RGBA => [0, 1, 2],
        C::BGR | C::BGRA => [2, 1, 0],
        C::ARGB => [1, 2, 3],
        _ => return None
    })
}
/// the operation in other spaces is the operation between two conversions
fn by_rgba(c: &mut Case, m: &Model, what: &str, op: &dyn OperationsTrait, detail: &str) {
    let Some(got) = apply(c, m, what, op) else { return };
    let im = m.build();
    let Some(want) = c.lib("conversion", || {
        let mut im = im;
        im.convert_color(C::RGBA).ok()?;
        op.execute(&mut im).ok()?;
        im.convert_color(m.cs).ok()?;
        Some(im)
    }) else {
        return;
    };
    match (got, want) {
        (Ok(g), Some(w)) => {
            if let Ok(w) = Model::read(&w) {
                same(c, &format!("{what}-space"), detail, &g, &w, 0.0);
            }
        }
        (Ok(_), None) => c.fail(format!("{what}-space"), format!("{} worked although its conversions do not", m.fmt())),
        _ => {}
    }
}
pub fn matrices(c: &mut Case) {
    let m = img(&mut c.rng, &DEPTHS);
    let full = m.full();
    let int = is_int(m.depth);
    let r = &mut c.rng;
    let (what, op, mat): (&str, Box<dyn OperationsTrait>, [[f64; 5]; 4]);
    let mut unit = [[0f32; 5]; 4];
    for i in 0..4 {
        unit[i][i] = 1.0;
    }
    let mut neutral = false;
    let detail;
    if r.bool() {
        let mut k = unit;
        match r.below(4) {
            0 => neutral = true,
            1 => {
                for i in 0..3 {
                    k[i][i] = -1.0;
                    k[i][4] = 1.0;
                }
            }
            _ => {
                for row in k.iter_mut() {
                    for v in row.iter_mut() {
                        if r.bool() {
                            *v = r.f32() * 3.0 - 1.2;
                        }
                    }
                }
            }
        }
        detail = format!("colour matrix {k:?}");
        what = "colour matrix";
        let flat: Vec<f32> = k.iter().flatten().copied().collect();
        if r.one_in(6) {
            let n = *r.pick(&[0usize, 19, 21, 25]);
            let bad = vec![0.5f32; n];
            c.check(ColorMatrix::try_from_slice(&bad).is_none(), "matrix-slice", || format!("{n} numbers accepted"));
        }
        op = match if c.rng.bool() { ColorMatrix::try_from_slice(&flat) } else { Some(ColorMatrix::new(k)) } {
            Some(o) => Box::new(o),
            None => {
                c.fail("matrix-slice", "20 numbers refused");
                return;
            }
        };
        mat = k.map(|r| r.map(f));
    } else {
        let h = match r.below(4) {
            0 => 0.0,
            1 => *r.pick(&[90.0, 180.0, 360.0, -120.0]),
            _ => r.f32() * 360.0
        };
        let s = if r.one_in(3) { 1.0 } else { r.f32() * 2.0 };
        let v = match r.below(5) {
            0 | 1 => 1.0,
            2 => -r.f32(),
            _ => r.f32() * 2.0
        };
        neutral = h == 0.0 && s == 1.0 && v == 1.0;
        detail = format!("hue {h} saturation {s} lightness {v}");
        what = "hsv adjust";
        op = Box::new(HsvAdjust::new(h, s, v));
        let (u, w) = (f(v) * f(s) * f(h).to_radians().cos(), f(v) * f(s) * f(h).to_radians().sin());
        let v = f(v);
        mat = [
            [0.299 * v + 0.701 * u + 0.168 * w, 0.587 * v - 0.587 * u + 0.330 * w, 0.114 * v - 0.114 * u - 0.497 * w, 0.0, 0.0],
            [0.299 * v - 0.299 * u - 0.328 * w, 0.587 * v + 0.413 * u + 0.035 * w, 0.114 * v - 0.114 * u + 0.292 * w, 0.0, 0.0],
            [0.299 * v - 0.299 * u + 1.25 * w, 0.587 * v - 0.587 * u - 1.05 * w, 0.114 * v + 0.886 * u - 0.203 * w, 0.0, 0.0],
            [0.0, 0.0, 0.0, 1.0, 0.0]
        ];
    }
    let Some(at) = rgb_at(m.cs) else {
        by_rgba(c, &m, what, &*op, &detail);
        done(c, &m, &format!("{what} by RGBA"), &detail);
        return;
    };
    let Some(o) = must(c, &m, what, &*op) else { return };
    let mut want = m.clone();
    for fr in want.frames.iter_mut() {
        let old = fr.clone();
        for i in 0..m.w * m.h {
            let px = [old[at[0]][i], old[at[1]][i], old[at[2]][i], m.alpha().map_or(full, |a| old[a][i]), full];
            for (k, row) in mat.iter().enumerate() {
                let v = row.iter().zip(&px).map(|(a, b)| a * b).sum::<f64>();
                let v = if int { v.clamp(0.0, full) } else if what == "hsv adjust" && k < 3 { v.clamp(0.0, 1.0) } else { v };
                match (k, m.alpha()) {
                    (3, Some(a)) => fr[a][i] = v,
                    (3, None) => {}
                    _ => fr[at[k]][i] = v
                }
            }
        }
    }
    let big = mat.iter().map(|r| r.iter().map(|v| v.abs()).sum::<f64>()).fold(1.0, f64::max);
    let eps = full * 1e-6 * big;
    close(c, what, &detail, &o, &want, 1.0 - 1e-9 + eps, 0.5 + eps, 1e-6 * big);
    if neutral {
        same(c, &format!("{what}-neutral"), &detail, &o, &m, if int { 0.0 } else { 1e-6 });
    }
    done(c, &m, what, &detail);
}
/// Colour transforms between profiles, against the colour engine on interleaved pixels.
pub fn profiles(c: &mut Case) {
    use moxcms::{ColorProfile as P, Layout, TransformOptions};
    use zune_imageprocs::color_transform::{ColorProfiles as K, ColorTransform};
    let mut m = img(&mut c.rng, &DEPTHS);
    if c.rng.one_in(5) {
        m.cs = any_space(&mut c.rng);
    } else {
        m.cs = *c.rng.pick(&[C::RGB, C::RGBA, C::Luma]);
    }
    let n = m.frames.len();
    m = Model::random_at(&mut c.rng, m.w, m.h, m.cs, m.depth, n);
    let srcs = [P::new_srgb(), P::new_display_p3(), P::new_adobe_rgb(), P::new_bt2020(), P::new_gray_with_gamma(2.2)];
    let si = c.rng.below(srcs.len());
    let with = !c.rng.one_in(6);
    let bad = with && c.rng.one_in(10);
    let Ok(icc) = srcs[si].encode() else { return };
    let (k, dst) = match c.rng.below(5) {
        0 => (K::sRGB, P::new_srgb()),
        1 => (K::AdobeRgb, P::new_adobe_rgb()),
        2 => (K::DisplayP3, P::new_display_p3()),
        3 => (K::Bt2020, P::new_bt2020()),
        _ => (K::DciP3, P::new_dci_p3())
    };
    let mut im = m.build();
    if with {
        im.metadata_mut().set_icc_chunk(if bad { icc[..icc.len() / 3].to_vec() } else { icc.clone() });
    }
    let detail = format!("profile {si} to {k:?}, embedded {with}, damaged {bad}");
    let Some((r, im)) = c.lib("colour-transform", || {
        let mut im = im;
        let r = ColorTransform::new(k).execute(&mut im).map_err(|e| format!("{e:?}"));
        (r, im)
    }) else { return };
    done(c, &m, "profile", &detail);
    let o = match (r, Model::read(&im)) {
        (Ok(()), Ok(o)) => o,
        (Ok(()), Err(e)) => {
            c.fail("inconsistent:colour-transform", format!("{detail} on {}: {e}", m.fmt()));
            return;
        }
        (Err(e), _) => {
            // what the engine takes is the engine's affair
            let layout = matches!(m.cs, C::RGB | C::RGBA);
            c.check(!with || bad || !layout || si == 4, "refused:colour-transform", || format!("{detail} on {}: {e}", m.fmt()));
            c.tag("refused");
            return;
        }
    };
    if !with {
        same(c, "no-profile", &detail, &o, &m, 0.0);
        return;
    }
    let layout = match m.cs {
        C::RGB => Layout::Rgb,
        C::RGBA => Layout::Rgba,
        C::Luma => Layout::Gray,
        _ => {
            c.fail("accepted:colour-transform", format!("{detail} on {}", m.fmt()));
            return;
        }
    };
    let Ok(src) = P::new_from_slice(&icc) else { return };
    if bad {
        return;
    }
    let mut want = m.clone();
    let nc = m.cs.num_components();
    macro_rules! go {
        ($t:ty, $f:ident) => {{
            let Ok(t) = src.$f(layout, &dst, layout, TransformOptions::default()) else { return };
            for f in 0..m.frames.len() {
                let i: Vec<$t> = m.interleaved(f).iter().map(|v| *v as $t).collect();
                let mut q: Vec<$t> = vec![Default::default(); i.len()];
                if t.transform(&i, &mut q).is_err() {
                    return;
                }
                for (j, v) in q.iter().enumerate() {
                    want.frames[f][j % nc][j / nc] = *v as f64;
                }
            }
        }};
    }
    match m.depth {
        BitDepth::Eight => go!(u8, create_transform_8bit),
        BitDepth::Sixteen => go!(u16, create_transform_16bit),
        _ => go!(f32, create_transform_f32)
    }
    c.tag("compared");
    // the engine picks its own code path by alignment and length: a step either way
    same(c, "colour-transform", &detail, &o, &want, if is_int(m.depth) { 1.0 } else { 1e-4 });
    if o.times != m.times {
        c.fail("times:colour-transform", format!("{detail}: {:?} for {:?}", o.times, m.times));
    }
}
