//! O06: blending, compositing and premultiplied alpha.
use crate::common::*;
use zune_core::bit_depth::BitDepth;
use zune_image::metadata::AlphaState;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::blend::Blend;
use zune_imageprocs::composite::{Composite, CompositeMethod as Method};
use zune_imageprocs::premul_alpha as pa;
use zune_imageprocs::premul_alpha::PremultiplyAlpha;
use zune_imageprocs::composite::Gravity;
use zvcore::{hash_bytes, Case, Rng};
use zvimg::*;

fn img(r: &mut Rng, max: usize) -> Model {
    let (w, h) = size(r, max);
    let cs = if r.one_in(4) { any_space(r) } else { *r.pick(&BASIC) };
    let d = *r.pick(&DEPTHS);
    let n = if r.one_in(6) { 2 + r.below(2) } else { 1 };
    Model::random_at(r, w, h, cs, d, n)
}
fn max() -> usize {
    if cfg!(miri) { 8 } else { 48 }
}
/// within the rounding of the depth: integers may be cut or rounded
fn near(d: BitDepth, got: f64, want: f64) -> bool {
    if is_int(d) {
        // weights are computed in f32
        let e = full(d) * 5e-7;
        got > want - 1.0 - e && got < want + 0.5 + e
    } else {
        (got - want).abs() <= 1e-6 * want.abs().max(1.0)
    }
}
pub fn blend(c: &mut Case) {
    let dst = img(&mut c.rng, max());
    let src = {
        let n = dst.frames.len();
        Model::random_at(&mut c.rng, dst.w, dst.h, dst.cs, dst.depth, n)
    };
    let r = &mut c.rng;
    let a = match r.below(8) {
        0 => *r.pick(&[0.0f32, 1.0]),
        1 => *r.pick(&[-0.5f32, -3.0, 1.5, 100.0, f32::MAX]),
        2 => *r.pick(&[0.5f32, 0.25, 0.999, 0.001]),
        3 => *r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]),
        _ => r.f32()
    };
    let detail = format!("blend {a}");
    if c.rng.one_in(12) {
        // anything unlike is refused and nothing is touched
        let mut other = img(&mut c.rng, 20);
        if (other.w, other.h, other.cs, other.depth) == (dst.w, dst.h, dst.cs, dst.depth) {
            other = Model::random_at(&mut c.rng, dst.w + 1, dst.h, dst.cs, dst.depth, 1);
        }
        let o = other.build();
        let im = dst.build();
        let Some((ok, im)) = c.lib("blend", || {
            let mut im = im;
            let ok = Blend::new(&o, 0.5).execute(&mut im).is_ok();
            (ok, im)
        }) else { return };
        c.check(!ok, "accepted:blend", || format!("{} with {}", dst.fmt(), other.fmt()));
        match Model::read(&im) {
            Ok(m) => {
                same(c, "blend-refused-changed", "refused blend", &m, &dst, 0.0);
            }
            Err(e) => c.fail("inconsistent:blend", e)
        }
        c.tag("unlike");
        return;
    }
    let s = src.build();
    let op = Blend::new(&s, a);
    let Some(res) = apply(c, &dst, "blend", &op) else { return };
    c.saw(dst.hash() ^ hash_bytes(detail.as_bytes()));
    c.sample(|| format!("{detail} on {}", dst.fmt()));
    let o = match res {
        Ok(o) => o,
        Err(e) => {
            c.check(!a.is_finite(), "refused:blend", || format!("{detail} on {}: {e}", dst.fmt()));
            return;
        }
    };
    c.tag(if a <= 0.0 { "keeps" } else if a >= 1.0 { "replaces" } else { "mixes" });
    let av = (a as f64).clamp(0.0, 1.0);
    for f in 0..dst.frames.len() {
        for ch in 0..dst.frames[f].len() {
            let alpha = dst.alpha() == Some(ch);
            for i in 0..dst.w * dst.h {
                let (s, d, g) = (src.frames[f][ch][i], dst.frames[f][ch][i], o.frames[f][ch][i]);
                let ok = if alpha || a <= 0.0 {
                    g == d
                } else if a >= 1.0 {
                    g == s
                } else {
                    near(dst.depth, g, av * s + (1.0 - av) * d)
                };
                if !ok {
                    c.fail("wrong:blend", format!("{detail} on {}: frame {f} channel {ch} sample {i}: {s} over {d} gave {g}", dst.fmt()));
                    return;
                }
            }
        }
    }
}
pub fn composite(c: &mut Case) {
    let dst = img(&mut c.rng, max());
    let src = {
        let (w, h) = size(&mut c.rng, max());
        let n = dst.frames.len();
        let mut s = Model::random_at(&mut c.rng, w, h, dst.cs, dst.depth, n);
        // mostly see-through and opaque regions
        if let (Some(a), true) = (s.alpha(), c.rng.bool()) {
            let full = s.full();
            for f in s.frames.iter_mut() {
                for v in f[a].iter_mut() {
                    match c.rng.below(4) {
                        0 => *v = 0.0,
                        1 => *v = full,
                        _ => ()
                    }
                }
            }
        }
        s
    };
    let r = &mut c.rng;
    let method = *r.pick(&[Method::Over, Method::Over, Method::Over, Method::Src, Method::Dst, Method::DstIn]);
    let gravity = if r.bool() { Some(*r.pick(&[Gravity::Center, Gravity::TopLeft, Gravity::TopRight, Gravity::BottomLeft, Gravity::BottomRight])) } else { None };
    let (sw, sh, dw, dh) = (src.w, src.h, dst.w, dst.h);
    let (x, y) = match gravity {
        None => match r.below(6) {
            0 => (0, 0),
            1 => (dw, r.below(dh)),
            2 => (r.below(3 * dw), r.below(3 * dh)),
            3 => (dw.saturating_sub(sw), dh.saturating_sub(sh)),
            _ => (r.below(dw), r.below(dh))
        },
        Some(Gravity::Center) => ((dw / 2).saturating_sub(sw / 2), (dh / 2).saturating_sub(sh / 2)),
        Some(Gravity::TopLeft) => (0, 0),
        Some(Gravity::TopRight) => (dw.saturating_sub(sw), 0),
        Some(Gravity::BottomLeft) => (0, dh.saturating_sub(sh)),
        Some(Gravity::BottomRight) => (dw.saturating_sub(sw), dh.saturating_sub(sh))
    };
    let detail = format!("composite {method:?} of {sw}x{sh} at ({x},{y}) {}", if gravity.is_some() { "by gravity" } else { "" });
    let s = src.build();
    let op = match gravity {
        None => Composite::new(&s, method, (x, y)),
        Some(g) => Composite::new_gravity(&s, method, g)
    };
    if c.rng.one_in(15) {
        let other = img(&mut c.rng, 20);
        if (other.cs, other.depth) != (src.cs, src.depth) {
            let Some(res) = apply(c, &other, "composite", &op) else { return };
            c.check(res.is_err(), "accepted:composite", || format!("{} onto {}", src.fmt(), other.fmt()));
            c.tag("unlike");
            return;
        }
    }
    let Some(res) = apply(c, &dst, "composite", &op) else { return };
    c.saw(dst.hash() ^ src.hash() ^ hash_bytes(detail.as_bytes()));
    c.sample(|| format!("{detail} on {}", dst.fmt()));
    c.tag(&format!("{method:?}"));
    let o = match res {
        Ok(o) => o,
        Err(e) => {
            c.check(method == Method::DstIn, "refused:composite", || format!("{detail} on {}: {e}", dst.fmt()));
            return;
        }
    };
    if method == Method::DstIn {
        // the destination kept where the source is opaque: not offered by the library today
        c.tag("DstIn answered");
        return;
    }
    if !c.check((o.w, o.h, o.cs, o.depth) == (dw, dh, dst.cs, dst.depth), "shape:composite", || format!("{detail} on {}: got {}", dst.fmt(), o.fmt())) {
        return;
    }
    let full = dst.full();
    let ai = dst.alpha();
    for f in 0..dst.frames.len() {
        for ch in 0..dst.frames[f].len() {
            for i in 0..dw * dh {
                let (px, py) = (i % dw, i / dw);
                let (d, g) = (dst.frames[f][ch][i], o.frames[f][ch][i]);
                let covered = px >= x && py >= y && px - x < sw && py - y < sh;
                let j = if covered { (py - y) * sw + (px - x) } else { 0 };
                let s = src.frames[f][ch][j];
                let ok = match (method, covered) {
                    (Method::Dst, _) | (Method::Over, false) => g == d,
                    (Method::Src, true) => g == s,
                    // "leaving a blank image": the highest value
                    (Method::Src, false) => g == full,
                    _ => match ai {
                        None => g == s,
                        Some(a) => {
                            let al = src.frames[f][a][j] / full;
                            if al == 1.0 {
                                g == s
                            } else if al == 0.0 {
                                g == d
                            } else if a == ch {
                                near(dst.depth, g, s + d * (1.0 - al))
                            } else {
                                near(dst.depth, g, al * s + (1.0 - al) * d)
                            }
                        }
                    }
                };
                if !ok {
                    c.fail(
                        format!("wrong:composite-{method:?}"),
                        format!("{detail} on {}: frame {f} channel {ch} at ({px},{py}) {}: source {s} (alpha {:?}) over {d} gave {g}", dst.fmt(), if covered { "covered" } else { "beside" }, ai.map(|a| src.frames[f][a][j]))
                    );
                    return;
                }
            }
        }
    }
}
fn to(s: AlphaState, m: &Model, from: AlphaState, c: &mut Case, what: &str) -> Option<Model> {
    let mut im = m.build();
    im.metadata_mut().set_alpha(from);
    let (r, im) = c.lib(what, || {
        let mut im = im;
        let r = PremultiplyAlpha::new(s).execute(&mut im).map_err(|e| format!("{e:?}"));
        (r, im)
    })?;
    if let Err(e) = r {
        c.fail(format!("refused:{what}"), format!("{}: {e}", m.fmt()));
        return None;
    }
    let want = if m.alpha().is_some() { s } else { from };
    c.check(im.metadata().alpha() == want, &format!("facts:{what}"), || format!("{}: alpha reported {:?} after asking for {s:?}", m.fmt(), im.metadata().alpha()));
    match Model::read(&im) {
        Ok(o) => Some(o),
        Err(e) => {
            c.fail(format!("inconsistent:{what}"), e);
            None
        }
    }
}
/// integer expectations, in integers
fn mul(v: f64, a: f64, full: f64) -> f64 {
    let n = v as u64 * a as u64;
    let f = full as u64;
    ((2 * n + f) / (2 * f)) as f64
}
fn div(v: f64, a: f64, full: f64) -> (f64, f64) {
    if a == 0.0 {
        return (0.0, 0.0);
    }
    let n = v as u64 * full as u64;
    let a = a as u64;
    // halves may go either way
    let up = (2 * n + a) / (2 * a);
    let down = if (2 * n + a) % (2 * a) == 0 { up - 1 } else { up };
    let down = if a % 2 == 1 { up.min(down) } else { down };
    ((down as f64).min(full), (up as f64).min(full))
}
pub fn premultiply(c: &mut Case) {
    let m = img(&mut c.rng, max());
    let full = m.full();
    let int = is_int(m.depth);
    let Some(p) = to(AlphaState::PreMultiplied, &m, AlphaState::NonPreMultiplied, c, "premultiply") else { return };
    c.saw(m.hash());
    c.sample(|| m.fmt());
    c.tag(&format!("{:?}", m.depth));
    let Some(ai) = m.alpha() else {
        same(c, "premultiply-no-alpha", "no alpha", &p, &m, 0.0);
        return;
    };
    // asked for what it is already
    let Some(q) = to(AlphaState::PreMultiplied, &m, AlphaState::PreMultiplied, c, "premultiply-already") else { return };
    same(c, "premultiply-already", "already premultiplied", &q, &m, 0.0);
    let Some(u) = to(AlphaState::NonPreMultiplied, &p, AlphaState::PreMultiplied, c, "unpremultiply") else { return };
    // premultiplied samples of any kind, above alpha too
    let Some(x) = to(AlphaState::NonPreMultiplied, &m, AlphaState::PreMultiplied, c, "unpremultiply-any") else { return };
    for f in 0..m.frames.len() {
        for ch in 0..m.frames[f].len() {
            for i in 0..m.w * m.h {
                let (v, a) = (m.frames[f][ch][i], m.frames[f][ai][i]);
                let (pv, uv, xv) = (p.frames[f][ch][i], u.frames[f][ch][i], x.frames[f][ch][i]);
                if ch == ai {
                    if pv != a || uv != a || xv != a {
                        c.fail("wrong:premultiply-alpha", format!("{}: alpha {a} became {pv}, {uv}, {xv}", m.fmt()));
                        return;
                    }
                    continue;
                }
                let (ok, okx) = if int {
                    let (l, h) = div(v, a, full);
                    (pv == mul(v, a, full), l <= xv && xv <= h)
                } else {
                    let near = |g: f64, w: f64| (g - w).abs() <= 3e-7 * w.abs() + 1e-30;
                    (near(pv, v * a), if a == 0.0 { xv == 0.0 } else { near(xv, v / a) || (v / a > 3e38 && xv.is_infinite()) })
                };
                if !ok {
                    c.fail("wrong:premultiply", format!("{}: {v} times alpha {a} gave {pv}", m.fmt()));
                    return;
                }
                if !okx {
                    c.fail("wrong:unpremultiply", format!("{}: {v} divided by alpha {a} gave {xv}", m.fmt()));
                    return;
                }
                if a == full && uv != v {
                    c.fail("wrong:premultiply-opaque", format!("{}: opaque {v} came back as {uv}", m.fmt()));
                    return;
                }
                // there and back: within what one step of the premultiplied value is worth
                let back = if a == 0.0 { uv == 0.0 } else if int { (uv - v).abs() <= 0.5 * full / a + 0.5 + 1e-9 } else { (uv - v).abs() <= 1e-6 * v.abs() + 1e-30 || pv < 1e-36 };
                if !back {
                    c.fail("wrong:premultiply-back", format!("{}: {v} with alpha {a}: {pv}, back {uv}", m.fmt()));
                    return;
                }
            }
        }
    }
}
/// the public slice functions: every pair of bytes, and rows of 16-bit pairs
pub fn tables(c: &mut Case) {
    let t8 = pa::create_unpremul_table_u8();
    if c.idx < 256 {
        let a = c.idx as u8;
        let input: Vec<u8> = (0..=255).collect();
        let al = vec![a; 256];
        let mut p = input.clone();
        let mut u = input.clone();
        if c.lib("tables", || {
            pa::premultiply_u8(&mut p, &al);
            pa::unpremultiply_u8(&mut u, &al, &t8);
        }).is_none() {
            return;
        }
        for i in 0..256 {
            let (l, h) = div(i as f64, a as f64, 255.0);
            let ok = p[i] as f64 == mul(i as f64, a as f64, 255.0) && (l..=h).contains(&(u[i] as f64));
            if !ok {
                c.fail("wrong:premultiply-u8", format!("{i} with alpha {a}: times {} over {}", p[i], u[i]));
                return;
            }
        }
        c.tag("u8");
    } else {
        let t16 = pa::create_unpremul_table_u16();
        let n = if cfg!(miri) { 40 } else { 4000 };
        let al: Vec<u16> = (0..n).map(|_| if c.rng.bool() { c.rng.u16() } else { *c.rng.pick(&[0, 1, 2, 3, 255, 256, 257, 32767, 32768, 65534, 65535]) }).collect();
        let input: Vec<u16> = (0..n).map(|_| if c.rng.bool() { c.rng.u16() } else { *c.rng.pick(&[0, 1, 2, 3, 255, 256, 257, 32767, 32768, 65534, 65535]) }).collect();
        let mut p = input.clone();
        let mut u = input.clone();
        if c.lib("tables", || {
            pa::premultiply_u16(&mut p, &al);
            pa::unpremultiply_u16(&mut u, &al, &t16);
        }).is_none() {
            return;
        }
        for i in 0..n {
            let (v, a) = (input[i] as f64, al[i] as f64);
            let (l, h) = div(v, a, 65535.0);
            let ok = p[i] as f64 == mul(v, a, 65535.0) && (l..=h).contains(&(u[i] as f64));
            if !ok {
                c.fail("wrong:premultiply-u16", format!("{v} with alpha {a}: times {} over {}, expected {} and {l}..{h}", p[i], u[i], mul(v, a, 65535.0)));
                return;
            }
        }
        c.tag("u16");
    }
    c.saw(c.idx as u64);
}
/// adding and subtracting whole images
pub fn sums(c: &mut Case) {
    let a = img(&mut c.rng, max());
    if c.rng.one_in(10) {
        // "the operations panic in case of the incompatibility between two images"
        let b = img(&mut c.rng, 20);
        if (a.w, a.h, a.cs, a.depth) != (b.w, b.h, b.cs, b.depth) {
            let (x, y) = (a.build(), b.build());
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(x + y))).is_err();
            c.check(ok, "accepted:sum", || format!("{} and {}", a.fmt(), b.fmt()));
            c.tag("unlike");
            return;
        }
    }
    let b = Model::random_at(&mut c.rng, a.w, a.h, a.cs, a.depth, a.frames.len());
    let (x, y) = (a.build(), b.build());
    let minus = c.rng.bool();
    let what = if minus { "difference" } else { "sum" };
    let keep = x.clone();
    let Some(o) = c.lib(what, || if minus { x - y } else { x + y }) else { return };
    let got = match Model::read(&o) {
        Ok(m) => m,
        Err(e) => return c.fail("inconsistent:sum", e)
    };
    c.saw(a.hash() ^ b.hash().rotate_left(1));
    let full = a.full();
    let mut want = a.clone();
    for (f, g) in want.frames.iter_mut().zip(&b.frames) {
        for ch in 0..f.len() {
            if a.alpha() == Some(ch) {
                continue;
            }
            for (s, t) in f[ch].iter_mut().zip(&g[ch]) {
                let v = if minus { *s - *t } else { *s + *t };
                *s = if is_int(a.depth) { v.clamp(0.0, full) } else if minus { (*s as f32 - *t as f32) as f64 } else { (*s as f32 + *t as f32) as f64 };
            }
        }
    }
    c.tag(what);
    same(c, "wrong:sum", what, &got, &want, 0.0);
    // the original, of which a copy was kept, is equal to its copies and to nothing else
    c.check(keep == a.build(), "unequal:copy", || a.fmt());
    if is_int(a.depth) {
        let eq = a.diff(&got, 0.0).is_none();
        c.check((o == keep) == eq, "equality:sum", || format!("{} {what}: samples equal {eq}", a.fmt()));
    }
}
