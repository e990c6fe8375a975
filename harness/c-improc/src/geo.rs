//! O02: operations that only move samples.
use crate::common::*;
use exif::{Field, In, Tag, Value};
use zune_image::traits::OperationsTrait;
use zune_imageprocs::auto_orient::AutoOrient;
use zune_imageprocs::crop::Crop;
use zune_imageprocs::flip::{Flip, FlipDirection};
use zune_imageprocs::mirror::{Mirror, MirrorMode};
use zune_imageprocs::pad::{pad, PadMethod};
use zune_imageprocs::rotate::Rotate;
use zune_imageprocs::transpose as tr;
use zvcore::{hash_bytes, Case, Rng};
use zvimg::*;

/// Where output sample (x,y) of an image of the given size comes from.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Move {
    FlipH,
    FlipV,
    Half,
    North,
    South,
    East,
    West,
    Transpose,
    Transverse,
    Cw,
    Ccw,
    Turn180,
    Turn0
}
use Move::*;
impl Move {
    pub fn out(self, w: usize, h: usize) -> (usize, usize) {
        match self {
            Transpose | Transverse | Cw | Ccw => (h, w),
            _ => (w, h)
        }
    }
    pub fn src(self, w: usize, h: usize, x: usize, y: usize) -> (usize, usize) {
        match self {
            FlipH => (w - 1 - x, y),
            FlipV => (x, h - 1 - y),
            Half | Turn180 => (w - 1 - x, h - 1 - y),
            // the named picture: North keeps the top, South the bottom; East shows `a b c b a`, West `e d c d e`
            North => (x, if y >= h - h / 2 { h - 1 - y } else { y }),
            South => (x, if y < h / 2 { h - 1 - y } else { y }),
            East => (if x >= w - w / 2 { w - 1 - x } else { x }, y),
            West => (if x < w / 2 { w - 1 - x } else { x }, y),
            Transpose => (y, x),
            Transverse => (w - 1 - y, h - 1 - x),
            Cw => (y, h - 1 - x),
            Ccw => (w - 1 - y, x),
            Turn0 => (x, y)
        }
    }
    pub fn model(self, m: &Model) -> Model {
        let (w, h) = (m.w, m.h);
        let (ow, oh) = self.out(w, h);
        let mut o = planes(m, false, |p| {
            each(ow, oh, |x, y| {
                let (sx, sy) = self.src(w, h, x, y);
                p[sy * w + sx]
            })
        });
        o.w = ow;
        o.h = oh;
        o
    }
    pub fn op(self) -> Box<dyn OperationsTrait + Send + Sync> {
        match self {
            FlipH => Box::new(Flip::new(FlipDirection::Horizontal)),
            FlipV => Box::new(Flip::new(FlipDirection::Vertical)),
            Half => Box::new(Flip::new(FlipDirection::MirrorXAxis)),
            North => Box::new(Mirror::new(MirrorMode::North)),
            South => Box::new(Mirror::new(MirrorMode::South)),
            East => Box::new(Mirror::new(MirrorMode::East)),
            West => Box::new(Mirror::new(MirrorMode::West)),
            Transpose => Box::new(tr::Transpose::new()),
            Cw => Box::new(Rotate::new(90.0)),
            Ccw => Box::new(Rotate::new(270.0)),
            Turn180 => Box::new(Rotate::new(180.0)),
            Turn0 => Box::new(Rotate::new(0.0)),
            Transverse => unreachable!()
        }
    }
}
pub const MOVES: [Move; 12] = [FlipH, FlipV, Half, North, South, East, West, Transpose, Cw, Ccw, Turn180, Turn0];

fn spaced(r: &mut Rng, max: usize) -> Model {
    let (w, h) = size(r, max);
    let cs = any_space(r);
    let d = *r.pick(&DEPTHS);
    let n = if r.one_in(5) { 2 + r.below(2) } else { 1 };
    Model::random_at(r, w, h, cs, d, n)
}
fn done(c: &mut Case, m: &Model, what: &str) {
    if m.w * m.h == 1 {
        c.saw_trivial();
    } else {
        c.saw(m.hash() ^ hash_bytes(what.as_bytes()));
    }
    c.sample(|| format!("{what} on {}", m.fmt()));
}
pub fn moves(c: &mut Case) {
    let max = if cfg!(miri) { 20 } else if c.rng.one_in(30) { 300 } else { 70 };
    let m = spaced(&mut c.rng, max);
    // a row of moves, followed step by step
    let n = if c.rng.one_in(4) { 2 + c.rng.below(3) } else { 1 };
    let mut cur = m.clone();
    let mut seen = String::new();
    for _ in 0..n {
        let mv = *c.rng.pick(&MOVES);
        let what = format!("{mv:?}");
        seen += &what;
        let Some(o) = must(c, &cur, &what, &*mv.op()) else { return };
        let want = mv.model(&cur);
        if !same(c, &what, &what, &o, &want, 0.0) {
            return;
        }
        c.tag(&what);
        cur = o;
    }
    done(c, &m, &seen);
}
/// whole turns more or less, and negative angles: the same quarter turn
pub fn turns(c: &mut Case) {
    let m = spaced(&mut c.rng, 40);
    let q = c.rng.irange(-9, 9);
    let mv = [Turn0, Cw, Turn180, Ccw][q.rem_euclid(4) as usize];
    let angle = (q * 90) as f32;
    let Some(o) = must(c, &m, "rotate", &Rotate::new(angle)) else { return };
    same(c, "turns", &format!("rotation by {angle}"), &o, &mv.model(&m), 0.0);
    done(c, &m, "turns");
}
pub fn crop(c: &mut Case) {
    let m = spaced(&mut c.rng, 60);
    let (w, h) = (m.w, m.h);
    let r = &mut c.rng;
    let inside = !r.one_in(5);
    let (x, y) = if inside { (r.below(w), r.below(h)) } else { (r.below(2 * w + 2), r.below(2 * h + 2)) };
    let (cw, ch) = if inside {
        (1 + r.below(w - x), 1 + r.below(h - y))
    } else {
        (1 + r.below(2 * w), 1 + r.below(2 * h))
    };
    let d = format!("crop {cw}x{ch} at ({x},{y})");
    if x + cw <= w && y + ch <= h {
        let Some(o) = must(c, &m, "crop", &Crop::new(cw, ch, x, y)) else { return };
        let mut want = planes(&m, false, |p| each(cw, ch, |i, j| p[(y + j) * w + x + i]));
        want.w = cw;
        want.h = ch;
        same(c, "crop", &d, &o, &want, 0.0);
    } else if let Some(Ok(o)) = apply(c, &m, "crop", &Crop::new(cw, ch, x, y)) {
        // reaching outside: what lies inside the picture is copied or left black, the rest is black
        c.tag("crop outside");
        if (o.w, o.h) != (cw, ch) {
            c.fail("wrong:crop", format!("{d} of {}: got {}", m.fmt(), o.fmt()));
        }
        for (f, fr) in o.frames.iter().enumerate() {
            for (k, p) in fr.iter().enumerate() {
                for j in 0..ch {
                    for i in 0..cw {
                        let v = p[j * cw + i];
                        let s = if x + i < w && y + j < h { m.frames[f][k][(y + j) * w + x + i] } else { 0.0 };
                        if v != 0.0 && v != s {
                            c.fail("wrong:crop", format!("{d} of {}: ({i},{j}) is {v}, expected {s} or black", m.fmt()));
                            return;
                        }
                    }
                }
            }
        }
    }
    done(c, &m, "crop");
}
fn pad_ref<T: Copy + Default>(p: &[T], w: usize, h: usize, px: usize, py: usize, rep: bool) -> Vec<T> {
    let mut o = vec![];
    for y in 0..h + 2 * py {
        for x in 0..w + 2 * px {
            let (sx, sy) = (x as i64 - px as i64, y as i64 - py as i64);
            let out = sx < 0 || sy < 0 || sx >= w as i64 || sy >= h as i64;
            if out && !rep {
                o.push(T::default());
            } else {
                o.push(p[sy.clamp(0, h as i64 - 1) as usize * w + sx.clamp(0, w as i64 - 1) as usize]);
            }
        }
    }
    o
}
/// the padding and transposition functions on bare slices
pub fn slices(c: &mut Case) {
    let max = if cfg!(miri) { 24 } else { *c.rng.pick(&[20usize, 70, 140]) };
    let (w, h) = size(&mut c.rng, max);
    let n = w * h;
    let by: Vec<u8> = c.rng.bytes(n);
    let wo: Vec<u16> = (0..n).map(|_| c.rng.u16()).collect();
    let dw: Vec<u32> = (0..n).map(|_| c.rng.u32()).collect();
    let fl: Vec<f32> = (0..n).map(|_| c.rng.f32() - 0.5).collect();
    let (px, py) = (c.rng.below(6), c.rng.below(6));
    macro_rules! padded {
        ($v:expr, $n:expr) => {{
            for rep in [false, true] {
                let m = if rep { PadMethod::Replicate } else { PadMethod::Constant };
                if let Some(g) = c.lib("pad", || pad(&$v, w, h, px, py, m)) {
                    let want = pad_ref(&$v, w, h, px, py, rep);
                    c.check(g == want, "wrong:pad", || format!("{} {w}x{h} padded by {px},{py}, repeat {rep}: {}", $n, zvcore::diff_msg(&g, &want)));
                }
            }
        }};
    }
    padded!(by, "u8");
    padded!(wo, "u16");
    padded!(fl, "f32");
    macro_rules! turned {
        ($v:expr, $z:expr, $f:expr, $n:expr) => {{
            // room after the matrix must stay as it was
            let mut out = vec![$z; n];
            if c.lib($n, || $f(&$v, &mut out, w, h)).is_some() {
                let mut want = vec![$z; n];
                for y in 0..h {
                    for x in 0..w {
                        want[x * h + y] = $v[y * w + x];
                    }
                }
                c.check(out == want, concat!("wrong:", $n), || format!("{w}x{h}: {}", zvcore::diff_msg(&out, &want)));
            }
        }};
    }
    turned!(by, 7u8, tr::transpose_u8, "transpose_u8");
    turned!(wo, 7u16, tr::transpose_u16, "transpose_u16");
    turned!(dw, 7u32, tr::transpose_u32, "transpose_u32");
    turned!(fl, 7f32, tr::transpose_float, "transpose_float");
    turned!(dw, 7u32, tr::transpose_generic, "transpose_generic");
    let px = by.iter().fold(px as u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64));
    c.saw(px);
    c.sample(|| format!("{w}x{h}"));
}
pub fn orient(c: &mut Case) {
    let m = spaced(&mut c.rng, 40);
    let o = if c.rng.one_in(8) { *c.rng.pick(&[0u16, 9, 65535]) } else { 1 + c.rng.below(8) as u16 };
    let mut fields = vec![Field { tag: Tag::Orientation, ifd_num: In::PRIMARY, value: Value::Short(vec![o]) }];
    if c.rng.bool() {
        let i = c.rng.below(2);
        fields.insert(i, Field { tag: Tag::Software, ifd_num: In::PRIMARY, value: Value::Ascii(vec![b"zv".to_vec()]) });
    }
    let mut wr = exif::experimental::Writer::new();
    for f in &fields {
        wr.push_field(f);
    }
    let mut blob = std::io::Cursor::new(vec![]);
    wr.write(&mut blob, c.rng.bool()).expect("exif writer");
    let blob = blob.into_inner();
    let im = m.build();
    let Some((im, r)) = c.lib("auto orient", || {
        let mut im = im;
        im.metadata_mut().parse_raw_exif(&blob);
        let r = AutoOrient.execute(&mut im);
        (im, r)
    }) else {
        return;
    };
    if let Err(e) = r {
        c.fail("refused:orient", format!("{} orientation {o}: {e:?}", m.fmt()));
        return;
    }
    let got = match Model::read(&im) {
        Ok(g) => g,
        Err(e) => {
            c.fail("inconsistent:orient", e);
            return;
        }
    };
    let want = match o {
        2 => FlipH.model(&m),
        3 => Half.model(&m),
        4 => FlipV.model(&m),
        5 => Transpose.model(&m),
        6 => Cw.model(&m),
        7 => Transverse.model(&m),
        8 => Ccw.model(&m),
        _ => m.clone()
    };
    same(c, "orient", &format!("orientation {o}"), &got, &want, 0.0);
    // the tag now says upright (when it said anything), in a form that is read again: nothing moves twice
    if (1..=8).contains(&o) {
        let tag = im.metadata().exif().and_then(|f| f.iter().find(|f| f.tag == Tag::Orientation)).map(|f| f.value.clone());
        c.check(tag.as_ref().and_then(|v| v.get_uint(0)) == Some(1), "orient-tag", || format!("{tag:?} after orientation {o}"));
        c.check(matches!(tag, Some(Value::Short(_))), "orient-tag-type", || format!("{tag:?} after orientation {o}: the tag is a SHORT"));
    }
    if let Some(again) = c.lib("auto orient", || {
        let mut im = im;
        AutoOrient.execute(&mut im).ok();
        im
    }) {
        if (1..=8).contains(&o) {
            if let Ok(a) = Model::read(&again) {
                same(c, "orient-twice", &format!("orientation {o} corrected twice"), &a, &want, 0.0);
            }
        }
    }
    // without the tag nothing moves
    if let Some(o) = must(c, &m, "auto orient", &AutoOrient) {
        same(c, "orient-none", "no orientation", &o, &m, 0.0);
    }
    c.tag(&format!("orientation {}", o.min(9)));
    done(c, &m, &format!("orientation {o}"));
}
