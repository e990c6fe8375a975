//! Running one operation on a model image.
use zune_core::bit_depth::BitDepth;
use zune_image::traits::OperationsTrait;
use zvcore::Case;
use zvimg::*;

pub type Plane = Vec<f64>;

/// Run an operation: `None` when it panicked or left an inconsistent image (both reported).
pub fn apply(c: &mut Case, m: &Model, what: &str, op: &dyn OperationsTrait) -> Option<Result<Model, String>> {
    let im = m.build();
    let r = c.lib(what, || {
        let mut im = im;
        let r = op.execute(&mut im);
        (im, r)
    })?;
    match r {
        (_, Err(e)) => {
            c.tag("refused");
            let mut e = format!("{e:?}");
            e.truncate(300);
            Some(Err(e))
        }
        (im, Ok(())) => match Model::read(&im) {
            Ok(o) => Some(Ok(o)),
            Err(e) => {
                c.fail(format!("inconsistent:{what}"), format!("{} after {what}: {e}", m.fmt()));
                None
            }
        }
    }
}
/// Run an operation which must not be refused.
pub fn must(c: &mut Case, m: &Model, what: &str, op: &dyn OperationsTrait) -> Option<Model> {
    match apply(c, m, what, op)? {
        Ok(o) => Some(o),
        Err(e) => {
            c.fail(format!("refused:{what}"), format!("{} on {}: {e}", what, m.fmt()));
            None
        }
    }
}
pub fn same(c: &mut Case, what: &str, detail: &str, got: &Model, want: &Model, tol: f64) -> bool {
    match got.diff(want, tol) {
        None => true,
        Some(d) => {
            c.fail(format!("wrong:{what}"), format!("{detail} on {}: {d}", want.fmt()));
            false
        }
    }
}
/// Every plane of the model through `f`, except alpha when `skip_alpha`.
pub fn planes(m: &Model, skip_alpha: bool, mut f: impl FnMut(&Plane) -> Plane) -> Model {
    let mut o = m.clone();
    let a = m.alpha();
    for fr in o.frames.iter_mut() {
        for (i, p) in fr.iter_mut().enumerate() {
            if !(skip_alpha && Some(i) == a) {
                *p = f(p);
            }
        }
    }
    o
}
/// What the depth can hold.
pub fn is_int(d: BitDepth) -> bool {
    !matches!(d, BitDepth::Float32)
}
/// Compare with real-valued expectations: an integer result may be the value rounded or cut
/// (within `slack` below and above), a float within `rel` of full scale.
pub fn close(c: &mut Case, what: &str, detail: &str, got: &Model, want: &Model, below: f64, above: f64, rel: f64) -> bool {
    if (got.w, got.h, got.cs, got.depth, got.frames.len()) != (want.w, want.h, want.cs, want.depth, want.frames.len()) {
        c.fail(format!("wrong:{what}"), format!("{detail}: got {}, expected {}", got.fmt(), want.fmt()));
        return false;
    }
    let (lo, hi) = if is_int(want.depth) { (below, above) } else { (rel, rel) };
    for (fi, (a, b)) in got.frames.iter().zip(&want.frames).enumerate() {
        for (ci, (a, b)) in a.iter().zip(b).enumerate() {
            for (i, (g, w)) in a.iter().zip(b).enumerate() {
                let s = if is_int(want.depth) { 1.0 } else { w.abs().max(1.0) };
                if !(g - w <= hi * s && w - g <= lo * s) && !(g.is_nan() && w.is_nan()) {
                    c.fail(
                        format!("wrong:{what}"),
                        format!("{detail} on {}: frame {fi} channel {ci} at ({},{}): got {g}, expected {w}", want.fmt(), i % want.w, i / want.w)
                    );
                    return false;
                }
            }
        }
    }
    true
}
/// Sample with the edges repeated.
pub fn at(p: &[f64], w: usize, h: usize, x: i64, y: i64) -> f64 {
    p[(y.clamp(0, h as i64 - 1) as usize) * w + x.clamp(0, w as i64 - 1) as usize]
}
/// all samples of a (2r+1)² window, row by row
pub fn window(p: &[f64], w: usize, h: usize, x: usize, y: usize, r: usize) -> Vec<f64> {
    let r = r as i64;
    let mut v = Vec::with_capacity(((2 * r + 1) * (2 * r + 1)) as usize);
    for dy in -r..=r {
        for dx in -r..=r {
            v.push(at(p, w, h, x as i64 + dx, y as i64 + dy));
        }
    }
    v
}
pub fn each(w: usize, h: usize, mut f: impl FnMut(usize, usize) -> f64) -> Plane {
    let mut v = Vec::with_capacity(w * h);
    for y in 0..h {
        for x in 0..w {
            v.push(f(x, y));
        }
    }
    v
}
