//! O05: resizing, rotation by any angle and affine transforms.
use crate::common::*;
use crate::trc;
use zune_core::colorspace::ColorCharacteristics as T;
use zune_image::image::Image;
use zune_image::metadata::AlphaState;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::affine::{get_affine_output_dimensions, AffineTransform};
use zune_imageprocs::resize::{Resize, ResizeMethod as M};
use zune_imageprocs::rotate::{get_rotated_dimensions, Rotate};
use zvcore::{hash_bytes, Case, Rng};
use zvimg::*;

pub const METHODS: [M; 9] = [M::Lanczos3, M::Lanczos2, M::Bicubic, M::CatmullRom, M::Mitchell, M::BSpline, M::Hermite, M::Sinc, M::Bilinear];

/// A value known to within an error.
#[derive(Clone, Copy)]
struct V {
    v: f64,
    e: f64
}
fn sinc(x: f64) -> f64 {
    let x = x * std::f64::consts::PI;
    if x.abs() < 1e-9 { 1.0 } else { x.sin() / x }
}
fn bc(b: f64, c: f64, x: f64) -> f64 {
    let x = x.abs();
    if x < 1.0 {
        ((12.0 - 9.0 * b - 6.0 * c) * x.powi(3) + (-18.0 + 12.0 * b + 6.0 * c) * x * x + 6.0 - 2.0 * b) / 6.0
    } else if x < 2.0 {
        ((-b - 6.0 * c) * x.powi(3) + (6.0 * b + 30.0 * c) * x * x + (-12.0 * b - 48.0 * c) * x + 8.0 * b + 24.0 * c) / 6.0
    } else {
        0.0
    }
}
fn kernel(m: M, x: f64) -> f64 {
    let third = 1.0 / 3.0;
    match m {
        M::Lanczos3 => if x.abs() < 3.0 { sinc(x) * sinc(x / 3.0) } else { 0.0 },
        M::Lanczos2 => if x.abs() < 2.0 { sinc(x) * sinc(x / 2.0) } else { 0.0 },
        M::Sinc => if x.abs() < 3.0 { sinc(x) } else { 0.0 },
        M::Bicubic | M::Mitchell => bc(third, third, x),
        M::CatmullRom => bc(0.0, 0.5, x),
        M::BSpline => bc(1.0, 0.0, x),
        M::Hermite => bc(0.0, 0.0, x),
        M::Bilinear => (1.0 - x.abs()).max(0.0)
    }
}
/// One line from `p` to `out` samples.
fn line(p: &[V], out: usize, m: M) -> Vec<V> {
    let n = p.len();
    if n == out && m != M::Bilinear {
        return p.to_vec();
    }
    let ratio = n as f64 / out as f64;
    // what rounding may do to a position
    let perr = (n as f64) * 3e-7;
    (0..out)
        .map(|o| {
            let mut taps: Vec<(usize, f64)> = vec![];
            if m == M::Bilinear {
                let s = o as f64 * ratio;
                let f = s.floor();
                taps.push(((f as usize).min(n - 1), 1.0 - (s - f)));
                taps.push(((f as usize + 1).min(n - 1), s - f));
            } else {
                let a = if matches!(m, M::Lanczos3 | M::Sinc) { 3 } else { 2 };
                let s = (o as f64 + 0.5) * ratio - 0.5;
                let f = s.floor() as i64;
                for i in f - a + 1..=f + a {
                    if i >= 0 && i < n as i64 {
                        taps.push((i as usize, kernel(m, i as f64 - s)));
                    }
                }
                let sum: f64 = taps.iter().map(|t| t.1).sum();
                taps.iter_mut().for_each(|t| t.1 /= sum);
            }
            let v = taps.iter().map(|t| t.1 * p[t.0].v).sum();
            // a position on a sample may be taken from its other side
            let near = &p[taps[0].0.saturating_sub(1)..(taps[taps.len() - 1].0 + 2).min(n)];
            let hi = near.iter().map(|t| t.v).fold(f64::MIN, f64::max);
            let lo = near.iter().map(|t| t.v).fold(f64::MAX, f64::min);
            let big = hi.abs().max(lo.abs());
            let e: f64 = taps.iter().map(|t| t.1.abs() * p[t.0].e).sum::<f64>() + perr * 6.0 * (hi - lo) + 1.5e-6 * big + 1e-13;
            V { v, e }
        })
        .collect()
}
fn resample(p: &[V], w: usize, h: usize, nw: usize, nh: usize, m: M) -> Vec<V> {
    let mut mid = Vec::with_capacity(nw * h);
    for y in 0..h {
        mid.extend(line(&p[y * w..(y + 1) * w], nw, m));
    }
    let mut out = vec![V { v: 0.0, e: 0.0 }; nw * nh];
    for x in 0..nw {
        let col: Vec<V> = (0..h).map(|y| mid[y * nw + x]).collect();
        for (y, v) in line(&col, nh, m).into_iter().enumerate() {
            out[y * nw + x] = v;
        }
    }
    out
}
#[derive(Clone, Copy, Debug)]
struct Setup {
    curve: Option<T>,
    linear: bool,
    premul: bool
}
fn with(m: &Model, s: Setup) -> Image {
    let mut im = m.build();
    if let Some(t) = s.curve {
        im.metadata_mut().set_color_trc(t);
    }
    im.metadata_mut().set_linear(s.linear);
    if s.premul {
        im.metadata_mut().set_alpha(AlphaState::PreMultiplied);
    }
    im
}
pub fn resize(c: &mut Case) {
    let max = if cfg!(miri) { 6 } else { 40 };
    let (w, h) = size(&mut c.rng, max);
    let cs = if c.rng.one_in(8) { any_space(&mut c.rng) } else { *c.rng.pick(&BASIC) };
    let d = *c.rng.pick(&DEPTHS);
    let frames = if c.rng.one_in(6) { 2 } else { 1 };
    let mut m = Model::random_at(&mut c.rng, w, h, cs, d, frames);
    let flat = c.rng.one_in(6);
    if flat {
        for f in m.frames.iter_mut() {
            for p in f.iter_mut() {
                let v = p[0];
                p.iter_mut().for_each(|x| *x = v);
            }
        }
    }
    let (nw, nh) = match c.rng.below(8) {
        0 => (w, h),
        1 => (w, 1 + c.rng.below(max)),
        2 => (1 + c.rng.below(max), h),
        3 => (1 + c.rng.below(w), 1 + c.rng.below(h)),
        4 => (w * 2, h * 2),
        _ => size(&mut c.rng, max)
    };
    let method = *c.rng.pick(&METHODS);
    let s = Setup {
        curve: if c.rng.bool() { None } else { Some(*c.rng.pick(&trc::CURVES)) },
        linear: c.rng.one_in(5),
        premul: c.rng.one_in(5)
    };
    let detail = format!("{method:?} {w}x{h}→{nw}x{nh} {s:?}");
    let im = with(&m, s);
    let op = Resize::new(nw, nh, method);
    let Some((r, im)) = c.lib("resize", || {
        let mut im = im;
        let r = op.execute(&mut im).map_err(|e| format!("{e:?}"));
        (r, im)
    }) else { return };
    if let Err(e) = r {
        c.fail("refused:resize", format!("{detail} on {}: {e}", m.fmt()));
        return;
    }
    let o = match Model::read(&im) {
        Ok(o) => o,
        Err(e) => {
            c.fail("inconsistent:resize", format!("{detail} on {}: {e}", m.fmt()));
            return;
        }
    };
    let meta = im.metadata();
    c.check(
        meta.is_linear() == s.linear && meta.is_premultiplied_alpha() == s.premul && meta.color_trc() == s.curve && im.metadata().dimensions() == (nw, nh),
        "facts:resize",
        || format!("{detail}: linear {} premultiplied {} curve {:?} after", im.metadata().is_linear(), im.metadata().is_premultiplied_alpha(), im.metadata().color_trc())
    );
    c.tag(&format!("{method:?}"));
    c.saw(m.hash() ^ hash_bytes(detail.as_bytes()));
    c.sample(|| format!("{detail} on {}", m.fmt()));
    if !c.check((o.w, o.h, o.cs, o.depth, o.frames.len()) == (nw, nh, m.cs, m.depth, m.frames.len()), "shape:resize", || format!("{detail} on {}: got {}", m.fmt(), o.fmt())) {
        return;
    }
    if (nw, nh) == (w, h) {
        same(c, "resize-same-size", &detail, &o, &m, 0.0);
        return;
    }
    // colour in linear light, times alpha
    let curve = match (s.linear, s.curve) {
        (true, _) | (_, Some(T::Linear)) => None,
        (_, Some(t)) => Some(t),
        _ => Some(T::sRGB)
    };
    let full = m.full();
    let ai = m.alpha();
    let premul = ai.is_some() && !s.premul;
    for fi in 0..m.frames.len() {
        let chans = &m.frames[fi];
        let alpha = ai.map(|a| chans[a].iter().map(|v| V { v: v / full, e: 1e-7 }).collect::<Vec<_>>());
        let alpha_out = alpha.as_ref().map(|a| resample(a, w, h, nw, nh, method));
        for (ci, p) in chans.iter().enumerate() {
            let is_alpha = Some(ci) == ai;
            let lin: Vec<V> = p
                .iter()
                .enumerate()
                .map(|(i, v)| {
                    let v = v / full;
                    if is_alpha {
                        return V { v, e: 1e-7 };
                    }
                    let mut l = curve.map_or(v, |t| trc::linear(t, v));
                    let mut e = 6e-7 * l.abs();
                    if premul {
                        l *= alpha.as_ref().unwrap()[i].v;
                        e += 1e-7 * l.abs();
                    }
                    V { v: l, e }
                })
                .collect();
            let res = resample(&lin, w, h, nw, nh, method);
            for (i, r) in res.iter().enumerate() {
                let (mut lo, mut hi) = (r.v - r.e, r.v + r.e);
                if premul && !is_alpha {
                    let a = alpha_out.as_ref().unwrap()[i];
                    let (al, ah) = (a.v - a.e, a.v + a.e);
                    if al <= 0.0 && ah >= 0.0 {
                        // no colour to speak of
                        continue;
                    }
                    let q = [lo / al, lo / ah, hi / al, hi / ah];
                    lo = q.iter().copied().fold(f64::MAX, f64::min);
                    hi = q.iter().copied().fold(f64::MIN, f64::max);
                }
                if let (Some(t), false) = (curve, is_alpha) {
                    lo = trc::gamma_of(t, lo - 2e-7 * lo.abs());
                    hi = trc::gamma_of(t, hi + 2e-7 * hi.abs());
                }
                lo -= 1e-6 * lo.abs().max(0.1);
                hi += 1e-6 * hi.abs().max(0.1);
                let got = o.frames[fi][ci][i];
                let ok = if is_int(m.depth) {
                    let q = |v: f64| (v * full + 0.5).floor().clamp(0.0, full);
                    q(lo) <= got && got <= q(hi)
                } else {
                    lo <= got && got <= hi
                };
                if !ok {
                    c.fail("wrong:resize", format!("{detail} on {}: frame {fi} channel {ci} at ({},{}): got {got}, expected {}..{}", m.fmt(), i % nw, i / nw, lo * full, hi * full));
                    return;
                }
                if flat && ai.is_none() && is_int(m.depth) && got != p[0] && curve != Some(T::Log100) && curve != Some(T::Log100Sqrt10) {
                    c.fail("wrong:resize-constant", format!("{detail} on {}: frame {fi} channel {ci} at ({},{}): got {got} from an image of {}", m.fmt(), i % nw, i / nw, p[0]));
                    return;
                }
            }
        }
    }
}
/// Bilinear interpolation, the value and what a position error does to it; None off the image.
/// `Some(None)`: the position is too near the rim to tell.
fn pick(p: &[f64], w: usize, h: usize, x: f64, y: f64, perr: f64) -> Option<Option<(f64, f64)>> {
    let (mx, my) = ((w - 1) as f64, (h - 1) as f64);
    if x < -perr || y < -perr || x > mx + perr || y > my + perr {
        return None;
    }
    if x < perr || y < perr || x > mx - perr || y > my - perr {
        return Some(None);
    }
    let (x0, y0) = (x.floor() as i64, y.floor() as i64);
    let (fx, fy) = (x - x0 as f64, y - y0 as f64);
    let q = |dx, dy| at(p, w, h, x0 + dx, y0 + dy);
    let v = q(0, 0) * (1.0 - fx) * (1.0 - fy) + q(1, 0) * fx * (1.0 - fy) + q(0, 1) * (1.0 - fx) * fy + q(1, 1) * fx * fy;
    // a position on a sample may be taken from either side
    let mut lo = f64::MAX;
    let mut hi = f64::MIN;
    for dy in -1..=2 {
        for dx in -1..=2 {
            lo = lo.min(q(dx, dy));
            hi = hi.max(q(dx, dy));
        }
    }
    Some(Some((v, perr * 4.0 * (hi - lo) + 4e-7 * hi.abs().max(lo.abs()))))
}
/// Compare with samples taken at `src(x,y)` of the input.
fn sampled(c: &mut Case, what: &str, detail: &str, m: &Model, o: &Model, perr: f64, src: impl Fn(usize, usize) -> (f64, f64)) {
    let full = m.full();
    let int = is_int(m.depth);
    let (mut inside, mut outside) = (0, 0);
    for fi in 0..m.frames.len() {
        for (ci, p) in m.frames[fi].iter().enumerate() {
            let flat = p.iter().all(|v| *v == p[0]);
            for i in 0..o.w * o.h {
                let (x, y) = src(i % o.w, i / o.w);
                let got = o.frames[fi][ci][i];
                let (ok, want) = match pick(p, m.w, m.h, x, y, perr) {
                    None => {
                        outside += 1;
                        (got == full, "background".to_string())
                    }
                    Some(None) => {
                        // background, or nearest the rim
                        let (lo, hi) = ((p.iter().copied().fold(f64::MAX, f64::min)), p.iter().copied().fold(f64::MIN, f64::max));
                        (got == full || (lo..=hi).contains(&got), "background or rim".to_string())
                    }
                    Some(Some((v, e))) => {
                        inside += 1;
                        let ok = if flat { got == p[0] } else if int { got > v - 1.0 - e - 1e-9 && got < v + 0.5 + e + 1e-9 } else { (got - v).abs() <= e + 1e-6 };
                        (ok, format!("{v} ±{e}"))
                    }
                };
                if !ok {
                    c.fail(format!("wrong:{what}"), format!("{detail} on {}: frame {fi} channel {ci} at ({},{}): got {got}, expected {want} from ({x},{y})", m.fmt(), i % o.w, i / o.w));
                    return;
                }
            }
        }
    }
    c.tag_n("samples inside", inside);
    c.tag_n("samples outside", outside);
}
fn any_model(r: &mut Rng, max: usize) -> Model {
    let (w, h) = size(r, max);
    let cs = if r.one_in(6) { any_space(r) } else { *r.pick(&BASIC) };
    let d = *r.pick(&DEPTHS);
    let n = if r.one_in(6) { 2 } else { 1 };
    Model::random_at(r, w, h, cs, d, n)
}
pub fn rotate(c: &mut Case) {
    let m = any_model(&mut c.rng, if cfg!(miri) { 6 } else { 40 });
    let r = &mut c.rng;
    let angle = match r.below(6) {
        0 => *r.pick(&[45.0f32, 30.0, 1.0, -1.0, 0.01, 89.99, 179.5, 359.9]),
        1 => r.f32() * 2.0 - 1.0,
        2 => r.f32() * 4000.0 - 2000.0,
        _ => r.f32() * 360.0
    };
    let eu = angle.rem_euclid(360.0);
    // the exact turns are O02's
    if [0.0, 90.0, 180.0, 270.0, 360.0].iter().any(|q: &f32| (eu - q).abs() < 1e-4) {
        c.saw_trivial();
        return;
    }
    let detail = format!("rotate {angle}");
    let Some(o) = must(c, &m, "rotate", &Rotate::new(angle)) else { return };
    c.saw(m.hash() ^ hash_bytes(detail.as_bytes()));
    c.sample(|| format!("{detail} on {}", m.fmt()));
    let t = eu as f64 * std::f64::consts::PI / 180.0;
    let (cos, sin) = (t.cos(), t.sin());
    let (w, h) = (m.w as f64, m.h as f64);
    let box_ = (w * cos.abs() + h * sin.abs(), w * sin.abs() + h * cos.abs());
    let fits = |got: usize, want: f64| got as f64 >= (want - 1e-3).ceil() && got as f64 <= (want + 1e-3).ceil();
    let dims = get_rotated_dimensions(m.w, m.h, angle);
    if !c.check((o.w, o.h) == dims && fits(o.w, box_.0) && fits(o.h, box_.1), "shape:rotate", || {
        format!("{detail} on {}: got {}x{}, announced {dims:?}, box {box_:?}", m.fmt(), o.w, o.h)
    }) || !c.check((o.cs, o.depth, o.frames.len()) == (m.cs, m.depth, m.frames.len()), "shape:rotate", || format!("{detail} on {}: got {}", m.fmt(), o.fmt())) {
        return;
    }
    let (ow, oh) = (o.w as f64 / 2.0, o.h as f64 / 2.0);
    sampled(c, "rotate", &detail, &m, &o, (w + h) * 2e-6, |x, y| {
        let (x, y) = (x as f64 - ow, y as f64 - oh);
        (x * cos + y * sin + w / 2.0, -x * sin + y * cos + h / 2.0)
    });
}
pub fn affine(c: &mut Case) {
    let m = any_model(&mut c.rng, if cfg!(miri) { 6 } else { 32 });
    let r = &mut c.rng;
    let sv = |r: &mut Rng, k: f32| (r.f32() * 2.0 - 1.0) * k;
    let t = match r.below(9) {
        0 => AffineTransform::identity(),
        1 => AffineTransform::rotation(r.f32() * 720.0 - 360.0),
        2 => AffineTransform::scale(0.1 + r.f32() * 3.0, 0.1 + r.f32() * 3.0),
        3 => AffineTransform::shear(sv(r, 1.0), sv(r, 0.9)),
        4 => AffineTransform::translation(sv(r, 50.0), sv(r, 50.0)),
        5 => AffineTransform::translation(r.irange(-50, 50) as f32, r.irange(-50, 50) as f32),
        6 => {
            let k = *r.pick(&[0.0f32, 1.0]);
            AffineTransform::new(1.0, 2.0, 2.0 * k, 4.0 * k, 0.0, 0.0)
        }
        7 => AffineTransform::rotation(r.f32() * 360.0).then(&AffineTransform::scale(0.5 + r.f32(), 0.5 + r.f32())),
        _ => AffineTransform::new(sv(r, 2.0), sv(r, 2.0), sv(r, 2.0), sv(r, 2.0), sv(r, 30.0), sv(r, 30.0))
    };
    let f = |v: f32| v as f64;
    let (a, b, cc, d, tx, ty) = (f(t.a), f(t.b), f(t.c), f(t.d), f(t.tx), f(t.ty));
    let det = a * d - b * cc;
    let norm = a.abs() + b.abs() + cc.abs() + d.abs();
    // composition and inversion are what they are called
    {
        let u = AffineTransform::new(sv(r, 2.0), sv(r, 2.0), sv(r, 2.0), sv(r, 2.0), sv(r, 9.0), sv(r, 9.0));
        let (px, py) = (sv(r, 20.0), sv(r, 20.0));
        let (qx, qy) = u.transform_point(px, py);
        let (x1, y1) = t.transform_point(qx, qy);
        let (x2, y2) = t.then(&u).transform_point(px, py);
        let tol = 1e-5 * (1.0 + norm) * (60.0 + tx.abs() + ty.abs());
        c.check((f(x1) - f(x2)).abs() < tol && (f(y1) - f(y2)).abs() < tol, "wrong:then", || format!("{t:?}.then({u:?}) at {px},{py}: ({x2},{y2}), one after the other ({x1},{y1})"));
        if det.abs() > 0.05 {
            let Some(inv) = t.inverse() else {
                c.fail("refused:inverse", format!("{t:?} has determinant {det}, no inverse"));
                return;
            };
            let (x1, y1) = t.transform_point(px, py);
            let (bx, by) = inv.transform_point(x1, y1);
            let tol = 1e-4 * (1.0 + norm) * (1.0 + norm) / det.abs();
            c.check((f(bx) - f(px)).abs() < tol && (f(by) - f(py)).abs() < tol, "wrong:inverse", || format!("{t:?} takes {px},{py} to {x1},{y1} and its inverse to {bx},{by}"));
        }
    }
    let detail = format!("{t:?}");
    let Some(res) = apply(c, &m, "affine", &t) else { return };
    c.saw(m.hash() ^ hash_bytes(detail.as_bytes()));
    c.sample(|| format!("{detail} on {}", m.fmt()));
    let o = match res {
        Ok(o) => o,
        Err(e) => {
            c.check(det.abs() < 1e-5, "refused:affine", || format!("{detail} on {}: {e}", m.fmt()));
            return;
        }
    };
    if !c.check(det.abs() > 1e-9, "accepted:affine", || format!("{detail} has no inverse")) {
        return;
    }
    let dims = get_affine_output_dimensions(m.w, m.h, &t);
    let (w, h) = (m.w as f64, m.h as f64);
    let xs: Vec<f64> = [(0.0, 0.0), (w, 0.0), (0.0, h), (w, h)].iter().map(|(x, y)| a * x + b * y).collect();
    let ys: Vec<f64> = [(0.0, 0.0), (w, 0.0), (0.0, h), (w, h)].iter().map(|(x, y)| cc * x + d * y).collect();
    let span = |v: &[f64]| (v.iter().copied().fold(f64::MAX, f64::min), v.iter().copied().fold(f64::MIN, f64::max));
    let ((x0, x1), (y0, y1)) = (span(&xs), span(&ys));
    let fits = |got: usize, want: f64| got as f64 >= (want - 1e-3).ceil() && got as f64 <= (want + 1e-3).ceil();
    if !c.check((o.w, o.h) == dims && fits(o.w, x1 - x0) && fits(o.h, y1 - y0), "shape:affine", || {
        format!("{detail} on {}: got {}x{}, announced {dims:?}, box {}x{}", m.fmt(), o.w, o.h, x1 - x0, y1 - y0)
    }) || !c.check((o.cs, o.depth, o.frames.len()) == (m.cs, m.depth, m.frames.len()), "shape:affine", || format!("{detail} on {}: got {}", m.fmt(), o.fmt())) {
        return;
    }
    if (t.a, t.b, t.c, t.d, t.tx, t.ty) == (1.0, 0.0, 0.0, 1.0, t.tx.trunc(), t.ty.trunc()) {
        same(c, "affine-identity", &detail, &o, &m, 0.0);
        c.tag("identity");
        return;
    }
    if det.abs() < 0.05 {
        c.tag("nearly singular");
        return;
    }
    let reach = norm * (w + h) + tx.abs() + ty.abs();
    let perr = 3e-6 * reach * (norm / det.abs()).max(1.0);
    sampled(c, "affine", &detail, &m, &o, perr, |x, y| {
        let (x, y) = (x as f64 + x0, y as f64 + y0);
        ((d * x - b * y) / det, (a * y - cc * x) / det)
    });
}
/// requests nothing can satisfy are refused, not a panic
pub fn refusals(c: &mut Case) {
    let m = any_model(&mut c.rng, 12);
    let r = &mut c.rng;
    let n = *r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
    let (what, op): (&str, Box<dyn OperationsTrait>) = match r.below(5) {
        0 => ("resize-nothing", Box::new(Resize::new(0, r.below(5), *r.pick(&METHODS)))),
        1 => ("resize-nothing", Box::new(Resize::new(r.below(5), 0, *r.pick(&METHODS)))),
        2 => ("rotate-no-angle", Box::new(Rotate::new(n))),
        3 => ("affine-zero", Box::new(AffineTransform::scale(0.0, r.f32()))),
        _ => ("affine-no-matrix", Box::new(AffineTransform::new(n, 0.0, 0.0, 1.0, 0.0, 0.0)))
    };
    let Some(res) = apply(c, &m, what, op.as_ref()) else { return };
    c.check(res.is_err(), &format!("accepted:{what}"), || format!("{what} on {}", m.fmt()));
    c.tag(what);
    c.saw(m.hash());
}
