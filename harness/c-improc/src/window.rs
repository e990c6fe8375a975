//! O03: filters over a neighbourhood, edges repeated.
use crate::common::*;
use zune_core::bit_depth::BitDepth;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::bilateral_filter::BilateralFilter;
use zune_imageprocs::box_blur::BoxBlur;
use zune_imageprocs::convolve::Convolve;
use zune_imageprocs::gaussian_blur::GaussianBlur;
use zune_imageprocs::median::Median;
use zune_imageprocs::scharr::Scharr;
use zune_imageprocs::sobel::Sobel;
use zune_imageprocs::spatial::SpatialOps;
use zune_imageprocs::spatial_ops::SpatialOperations as S;
use zvcore::{hash_bytes, Case, Rng};
use zvimg::*;

const INTS: [BitDepth; 2] = [BitDepth::Eight, BitDepth::Sixteen];

fn img(r: &mut Rng, max: usize, depths: &[BitDepth]) -> Model {
    let (w, h) = size(r, max);
    let cs = any_space(r);
    let d = *r.pick(depths);
    let n = if r.one_in(6) { 2 } else { 1 };
    Model::random_at(r, w, h, cs, d, n)
}
fn done(c: &mut Case, m: &Model, what: &str, param: &str) {
    c.tag(what);
    if m.w * m.h == 1 {
        c.saw_trivial();
    } else {
        c.saw(m.hash() ^ hash_bytes(format!("{what}{param}").as_bytes()));
    }
    c.sample(|| format!("{what} {param} on {}", m.fmt()));
}
/// One pass of a running mean along rows of length `w`, edges repeated.
fn mean_rows(p: &[f64], w: usize, r: usize) -> Plane {
    let mut o = Vec::with_capacity(p.len());
    for row in p.chunks(w) {
        let mut sums = vec![0.0];
        for v in row {
            sums.push(sums.last().unwrap() + v);
        }
        for x in 0..w {
            let left = r.saturating_sub(x) as f64 * row[0];
            let right = (x + r).saturating_sub(w - 1) as f64 * row[w - 1];
            let mid = sums[(x + r + 1).min(w)] - sums[x.saturating_sub(r)];
            o.push((left + mid + right) / (2 * r + 1) as f64);
        }
    }
    o
}
fn turn(p: &[f64], w: usize, h: usize) -> Plane {
    each(h, w, |x, y| p[x * w + y])
}
fn boxes(m: &Model, radii: &[usize]) -> Model {
    planes(m, false, |p| {
        let mut p = p.clone();
        for r in radii {
            p = mean_rows(&p, m.w, *r);
        }
        let mut p = turn(&p, m.w, m.h);
        for r in radii {
            p = mean_rows(&p, m.h, *r);
        }
        turn(&p, m.h, m.w)
    })
}
pub fn box_blur(c: &mut Case) {
    let m = img(&mut c.rng, if cfg!(miri) { 9 } else { 60 }, &DEPTHS);
    let r = &mut c.rng;
    let radius = match r.below(8) {
        0..=4 => r.below(8),
        5 => r.below(40),
        6 => m.w.max(m.h) + r.below(5),
        _ => if cfg!(miri) { 12 } else { r.below(32766) }
    };
    let real = if radius <= 1 { 0 } else { radius | 1 };
    let Some(o) = must(c, &m, "box blur", &BoxBlur::new(radius)) else { return };
    let want = if real == 0 { m.clone() } else { boxes(&m, &[real]) };
    // cut or rounded after each of the two passes
    let (lo, hi) = if real == 0 { (0.0, 0.0) } else { (2.001, 1.001) };
    close(c, "box", &format!("box blur {radius}"), &o, &want, lo, hi, 2e-6);
    done(c, &m, "box", &radius.to_string());
}
/// The three boxes of <https://blog.ivank.net/fastest-gaussian-blur.html>, when they are not a
/// matter of rounding.
fn gauss_boxes(sigma: f64) -> Option<Vec<usize>> {
    let n = 3.0;
    let ideal = (12.0 * sigma * sigma / n + 1.0).sqrt();
    if (ideal - ideal.round()).abs() < 1e-3 {
        return None;
    }
    let mut wl = ideal.floor();
    if wl % 2.0 == 0.0 {
        wl -= 1.0;
    }
    let m = (12.0 * sigma * sigma - n * wl * wl - 4.0 * n * wl - 3.0 * n) / (-4.0 * wl - 4.0);
    if ((m - m.floor()) - 0.5).abs() < 1e-2 {
        return None;
    }
    let k = m.round();
    Some((0..3).map(|i| (if (i as f64) < k { wl } else { wl + 2.0 } as usize - 1) / 2).collect())
}
pub fn gauss(c: &mut Case) {
    let mut m = img(&mut c.rng, if cfg!(miri) { 9 } else { 60 }, &INTS);
    if c.rng.one_in(4) {
        // constant images stay constant
        for f in m.frames.iter_mut() {
            for p in f.iter_mut() {
                let v = p[0];
                p.fill(v);
            }
        }
        c.tag("constant");
    }
    let r = &mut c.rng;
    let sigma = match r.below(6) {
        0 => -(r.f32() * 3.0),
        1 => r.f32() * 40.0,
        _ => r.f32() * 6.0
    };
    let Some(o) = must(c, &m, "gaussian blur", &GaussianBlur::new(sigma)) else { return };
    let flat = m.frames.iter().all(|f| f.iter().all(|p| p.iter().all(|v| *v == p[0])));
    if sigma <= 0.0 || flat {
        same(c, "gauss-constant", &format!("gaussian blur {sigma}"), &o, &m, 0.0);
    } else if let Some(radii) = gauss_boxes(sigma as f64) {
        close(c, "gauss", &format!("gaussian blur {sigma} ({radii:?})"), &o, &boxes(&m, &radii), 6.001, 3.001, 0.0);
        c.tag("boxes compared");
    }
    done(c, &m, "gauss", &sigma.to_string());
}
pub fn stats(c: &mut Case) {
    let m = img(&mut c.rng, if cfg!(miri) { 6 } else { 30 }, &INTS);
    let r = &mut c.rng;
    let radius = if r.one_in(12) && !cfg!(miri) { r.below(14) } else { r.below(5) };
    let kind = r.below(6);
    let full = m.full();
    let op: Box<dyn OperationsTrait> = match kind {
        0 => Box::new(Median::new(radius)),
        1 => Box::new(SpatialOps::new(radius, S::Minimum)),
        2 => Box::new(SpatialOps::new(radius, S::Maximum)),
        3 => Box::new(SpatialOps::new(radius, S::Gradient)),
        4 => Box::new(SpatialOps::new(radius, S::Mean)),
        _ => Box::new(SpatialOps::new(radius, S::Contrast))
    };
    let what = ["median", "minimum", "maximum", "gradient", "mean", "contrast"][kind];
    let want = planes(&m, true, |p| {
        each(m.w, m.h, |x, y| {
            let mut v = window(p, m.w, m.h, x, y, radius);
            v.sort_by(|a, b| a.total_cmp(b));
            let (lo, hi) = (v[0], v[v.len() - 1]);
            match kind {
                0 => v[v.len() / 2],
                1 => lo,
                2 => hi,
                3 => hi - lo,
                4 => v.iter().sum::<f64>() / v.len() as f64,
                _ => ((hi - lo) / (hi + lo + 1.0).min(full)).floor()
            }
        })
    });
    let Some(o) = must(c, &m, what, &*op) else { return };
    let (lo, hi) = if kind == 4 { (1.0 - 1e-9, 0.5001) } else { (0.0, 0.0) };
    close(c, what, &format!("{what} of radius {radius}"), &o, &want, lo, hi, 0.0);
    done(c, &m, what, &radius.to_string());
}
pub fn convolve(c: &mut Case) {
    let m = img(&mut c.rng, if cfg!(miri) { 6 } else { 30 }, &DEPTHS);
    let r = &mut c.rng;
    let k = *r.pick(&[1usize, 1, 2, 3]);
    let n = (2 * k + 1) * (2 * k + 1);
    let style = r.below(5);
    let weights: Vec<f32> = (0..n)
        .map(|i| match style {
            0 => 1.0,
            1 => if i == n / 2 { 1.0 } else { 0.0 },
            2 => r.irange(-3, 3) as f32,
            3 => if r.one_in(5) { r.f32() * 4.0 - 2.0 } else { 0.0 },
            _ => r.f32() * 2.0 - 0.5
        })
        .collect();
    let scale = match r.below(4) {
        0 => 1.0,
        1 => 1.0 / n as f32,
        2 => -r.f32(),
        _ => r.f32()
    };
    let full = m.full();
    // what the sum of magnitudes is, for the tolerance of single precision sums
    let big: f64 = weights.iter().map(|w| w.abs() as f64).sum::<f64>() * scale.abs() as f64;
    let want = planes(&m, true, |p| {
        each(m.w, m.h, |x, y| {
            let v = window(p, m.w, m.h, x, y, k);
            (v.iter().zip(&weights).map(|(a, b)| a * *b as f64).sum::<f64>() * scale as f64).clamp(0.0, full)
        })
    });
    let Some(o) = must(c, &m, "convolve", &Convolve::new(weights.clone(), scale)) else { return };
    let slack = 6e-6 * big * full;
    // exact sums (small whole weights) are exact, apart from being cut to a whole number
    close(c, "convolve", &format!("convolution {weights:?} scale {scale}"), &o, &want, 1.0 - 1e-9 + slack, 0.5001 + slack, 6e-6 * big.max(1.0));
    if style == 1 && scale == 1.0 {
        same(c, "convolve-identity", "identity kernel", &o, &m, 0.0);
    }
    // a kernel of another size is refused
    if c.rng.one_in(8) {
        let mut bad = weights;
        bad.pop();
        if let Some(Ok(_)) = apply(c, &m, "convolve", &Convolve::new(bad.clone(), 1.0)) {
            c.fail("convolve-size", format!("a kernel of {} weights was accepted", bad.len()));
        }
    }
    done(c, &m, "convolve", &format!("{k} {style} {scale}"));
}
pub fn edges(c: &mut Case) {
    let m = img(&mut c.rng, if cfg!(miri) { 8 } else { 40 }, &DEPTHS);
    let scharr = c.rng.bool();
    let (a, b) = if scharr { (3.0, 10.0) } else { (1.0, 2.0) };
    let int = is_int(m.depth);
    let full = m.full();
    let want = planes(&m, true, |p| {
        each(m.w, m.h, |x, y| {
            let v = window(p, m.w, m.h, x, y, 1);
            let gx = a * (v[2] - v[0]) + b * (v[5] - v[3]) + a * (v[8] - v[6]);
            let gy = a * (v[6] - v[0]) + b * (v[7] - v[1]) + a * (v[8] - v[2]);
            let g = (gx * gx + gy * gy).sqrt();
            if int { g.min(full) } else { g }
        })
    });
    let what = if scharr { "scharr" } else { "sobel" };
    let op: Box<dyn OperationsTrait> = if scharr { Box::new(Scharr::new()) } else { Box::new(Sobel::new()) };
    let Some(o) = must(c, &m, what, &*op) else { return };
    close(c, what, what, &o, &want, 1.0 - 1e-9, 0.5001, 1e-5);
    done(c, &m, what, "");
}
pub fn bilateral(c: &mut Case) {
    let m = img(&mut c.rng, if cfg!(miri) { 5 } else { 16 }, &INTS);
    let r = &mut c.rng;
    let d = match r.below(4) {
        0 => -(r.below(3) as i32),
        1 => 1 + r.below(3) as i32,
        _ => 3 + r.below(8) as i32
    };
    let sigma_color = match r.below(5) {
        0 => 0.0,
        1 => r.f32() * 5.0,
        _ => r.f32() * 80.0 * if m.depth == BitDepth::Sixteen { 257.0 } else { 1.0 }
    };
    let sigma_space = if r.one_in(5) { 0.0 } else { 0.3 + r.f32() * 4.0 };
    let (sc, ss) = (if sigma_color <= 0.0 { 1.0 } else { sigma_color as f64 }, if sigma_space <= 0.0 { 1.0 } else { sigma_space as f64 });
    let edge = ss * 1.5;
    if d <= 0 && ((edge - edge.floor()) - 0.5).abs() < 1e-4 {
        c.saw_trivial();
        return;
    }
    let radius = (if d <= 0 { edge.round() as i64 } else { d as i64 / 2 }).max(1);
    let want = planes(&m, true, |p| {
        each(m.w, m.h, |x, y| {
            let centre = p[y * m.w + x];
            let (mut sum, mut wsum) = (0.0, 0.0);
            for dy in -radius..=radius {
                for dx in -radius..=radius {
                    let d2 = (dx * dx + dy * dy) as f64;
                    if d2.sqrt() > radius as f64 {
                        continue;
                    }
                    let v = at(p, m.w, m.h, x as i64 + dx, y as i64 + dy);
                    let k = (-d2 / (2.0 * ss * ss)).exp() * (-(v - centre) * (v - centre) / (2.0 * sc * sc)).exp();
                    sum += v * k;
                    wsum += k;
                }
            }
            sum / wsum
        })
    });
    let detail = format!("bilateral d {d} colour {sigma_color} space {sigma_space}");
    let Some(o) = must(c, &m, "bilateral", &BilateralFilter::new(d, sigma_color, sigma_space)) else { return };
    let slack = 1e-5 * m.full();
    close(c, "bilateral", &detail, &o, &want, 0.501 + slack, 0.501 + slack, 0.0);
    done(c, &m, "bilateral", &detail);
}
