//! I02, I03: colour-space and depth conversion against f64 definitions.
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_image::image::Image;
use zvcore::Case;
use zvimg::*;
use ColorSpace as C;

fn rem1(x: f64) -> f64 {
    x - x.floor()
}
fn to_hsv(p: [f64; 3]) -> [f64; 3] {
    let mx = p[0].max(p[1]).max(p[2]);
    let mn = p[0].min(p[1]).min(p[2]);
    if mx == mn {
        return [0.0, 0.0, mx];
    }
    [hue(p, mx, mn), (mx - mn) / mx, mx]
}
fn hue(p: [f64; 3], mx: f64, mn: f64) -> f64 {
    let q = |v: f64| (mx - v) / (mx - mn);
    let h = if p[0] == mx {
        q(p[2]) - q(p[1])
    } else if p[1] == mx {
        2.0 + q(p[0]) - q(p[2])
    } else {
        4.0 + q(p[1]) - q(p[0])
    };
    rem1(h / 6.0)
}
fn to_hsl(p: [f64; 3]) -> [f64; 3] {
    let mx = p[0].max(p[1]).max(p[2]);
    let mn = p[0].min(p[1]).min(p[2]);
    let l = (mx + mn) / 2.0;
    if mx == mn {
        return [0.0, 0.0, l];
    }
    let s = if l <= 0.5 { (mx - mn) / (mx + mn) } else { (mx - mn) / (2.0 - mx - mn) };
    [hue(p, mx, mn), s, l]
}
fn from_hsv(p: [f64; 3]) -> [f64; 3] {
    let (h, s, v) = (rem1(p[0]) * 6.0, p[1], p[2]);
    let f = |n: f64| {
        let k = (n + h) % 6.0;
        v - v * s * k.min(4.0 - k).clamp(0.0, 1.0)
    };
    [f(5.0), f(3.0), f(1.0)]
}
fn from_hsl(p: [f64; 3]) -> [f64; 3] {
    let (h, s, l) = (rem1(p[0]) * 12.0, p[1], p[2]);
    let a = s * l.min(1.0 - l);
    let f = |n: f64| {
        let k = (n + h) % 12.0;
        l - a * (k - 3.0).min(9.0 - k).clamp(-1.0, 1.0)
    };
    [f(0.0), f(8.0), f(4.0)]
}
fn conv(im: &Model, to: C) -> Result<Result<Model, String>, String> {
    let mut i = im.build();
    // things that must survive
    i.metadata_mut().set_icc_chunk(vec![1, 2, 3]);
    i.metadata_mut().set_default_gamma(0.45);
    match i.convert_color(to) {
        Ok(()) => {
            if i.metadata().icc_chunk() != Some(&vec![1, 2, 3]) {
                return Err("ICC profile lost".into());
            }
            Model::read(&i).map(Ok)
        }
        Err(e) => {
            // refused: still a consistent image of the same size
            match Model::read(&i) {
                Err(x) => Err(format!("after the refusal: {x}")),
                Ok(m) if (m.w, m.h, m.depth) != (im.w, im.h, im.depth) => Err(format!("after the refusal the image is {}", m.fmt())),
                Ok(_) => Ok(Err(format!("{e:?}")))
            }
        }
    }
}
fn rgb_positions(cs: C) -> Option<[usize; 3]> {
    Some(match cs {
        C::RGB | C::RGBA => [0, 1, 2],
        C::BGR | C::BGRA => [2, 1, 0],
        C::ARGB => [1, 2, 3],
        C::Luma | C::LumaA => [0, 0, 0],
        _ => return None
    })
}
/// permutation-like conversions: exact
fn exact(m: &Model, to: C) -> Option<Model> {
    let src = rgb_positions(m.cs)?;
    let gray_src = m.cs.is_grayscale();
    if to.is_grayscale() && !gray_src {
        return None;
    }
    let dst = rgb_positions(to)?;
    let full = m.full();
    let frames = m
        .frames
        .iter()
        .map(|f| {
            let mut o = vec![vec![]; to.num_components()];
            for k in 0..3 {
                o[dst[k]] = f[src[k]].clone();
            }
            if let Some(a) = to.alpha_position() {
                o[a] = match m.alpha() {
                    Some(s) => f[s].clone(),
                    None => vec![full; m.w * m.h]
                };
            }
            o
        })
        .collect();
    Some(Model { cs: to, frames, ..m.clone() })
}
/// how far a sample may lie from its real-valued definition, in levels of the depth
fn tol(d: BitDepth) -> f64 {
    match d {
        BitDepth::Float32 => 2e-5,
        BitDepth::Sixteen => 1.5,
        _ => 1.02
    }
}
fn compare(c: &mut Case, sig: &str, m: &Model, got: &Model, f: impl Fn([f64; 3]) -> Vec<f64>, pos: [usize; 3], circular: bool) {
    let full = m.full();
    let t = tol(m.depth);
    for (fi, fr) in m.frames.iter().enumerate() {
        for i in 0..m.w * m.h {
            let p = [fr[pos[0]][i] / full, fr[pos[1]][i] / full, fr[pos[2]][i] / full];
            let want = f(p);
            for (k, w) in want.iter().enumerate() {
                let g = got.frames[fi][k][i];
                let mut d = (g - w * full).abs();
                if circular && k == 0 {
                    d = d.min((full - d).abs());
                    // the hue of a (nearly) colourless pixel is not defined
                    if want[1] < 1e-4 || want[2] < 1e-4 {
                        d = 0.0;
                    }
                }
                if !(d <= t) {
                    c.fail(sig, format!("{} -> {:?}: pixel {i} of frame {fi} {p:?}: channel {k} is {g}, definition {}", m.fmt(), got.cs, w * full));
                    return;
                }
            }
        }
    }
}

pub fn convert(c: &mut Case) {
    let mut spaces = COLOUR.to_vec();
    spaces.push(C::RGB);
    spaces.push(C::RGBA);
    let big = c.rng.one_in(12);
    let mut m = Model::random(&mut c.rng, if big { 90 } else { 24 }, &spaces, &DEPTHS);
    if m.cs == C::CMYK && c.rng.bool() {
        // the corner values
        for f in &mut m.frames {
            f[3].iter_mut().step_by(2).for_each(|v| *v = 0.0);
        }
    }
    let to = if c.rng.one_in(12) { any_space(&mut c.rng) } else { *c.rng.pick(&COLOUR) };
    c.tag(&format!("{:?}", m.depth));
    c.sample(|| format!("{} -> {to:?}", m.fmt()));
    let Some(r) = c.lib("convert_color", || conv(&m, to)) else { return };
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            c.fail("inconsistent", format!("{} -> {to:?}: {e}", m.fmt()));
            return;
        }
    };
    let supported = COLOUR.contains(&to) || to == m.cs;
    let got = match r {
        Ok(g) => g,
        Err(e) => {
            c.check(!supported, "refused", || format!("{} -> {to:?}: {e}", m.fmt()));
            c.tag("refused");
            c.saw(m.hash() ^ 1);
            return;
        }
    };
    if !supported {
        c.fail("unsupported-accepted", format!("{} -> {to:?} gave {}", m.fmt(), got.fmt()));
        return;
    }
    if got.cs != to || (got.w, got.h, got.depth) != (m.w, m.h, m.depth) || got.frames.len() != m.frames.len() || got.times != m.times {
        c.fail("facts", format!("{} -> {to:?} gave {} {:?}", m.fmt(), got.fmt(), got.times));
        return;
    }
    c.saw(m.hash() ^ zvcore::hash_bytes(format!("{to:?}").as_bytes()));
    if to == m.cs {
        if let Some(d) = got.diff(&m, 0.0) {
            c.fail("same-space", format!("{} -> {to:?}: {d}", m.fmt()));
        }
        return;
    }
    // alpha
    if let Some(a) = to.alpha_position() {
        for (f, fr) in got.frames.iter().enumerate() {
            let ok = match m.alpha() {
                Some(s) => fr[a] == m.frames[f][s],
                None => fr[a].iter().all(|v| *v == m.full())
            };
            c.check(ok, "alpha", || format!("{} -> {to:?} frame {f}: alpha changed", m.fmt()));
        }
    }
    if let Some(want) = exact(&m, to) {
        if let Some(d) = got.diff(&want, 0.0) {
            c.fail("layout", format!("{} -> {to:?}: {d}", m.fmt()));
        }
        return;
    }
    // definitions from and to RGB
    if let Some(p) = rgb_positions(m.cs) {
        match to {
            C::Luma | C::LumaA => compare(c, "gray", &m, &got, |p| vec![0.2989 * p[0] + 0.5870 * p[1] + 0.1140 * p[2]], p, false),
            C::HSV => compare(c, "to-hsv", &m, &got, |p| to_hsv(p).to_vec(), p, true),
            C::HSL => compare(c, "to-hsl", &m, &got, |p| to_hsl(p).to_vec(), p, true),
            C::CMYK => compare(
                c,
                "to-cmyk",
                &m,
                &got,
                |p| {
                    let k = p[0].max(p[1]).max(p[2]);
                    if k == 0.0 {
                        // black: the inks are not determined
                        vec![]
                    } else {
                        vec![p[0] / k, p[1] / k, p[2] / k, k]
                    }
                },
                p,
                false
            ),
            _ => {}
        }
    } else if to == C::RGB {
        match m.cs {
            C::HSV => compare(c, "from-hsv", &m, &got, |p| from_hsv(p).to_vec(), [0, 1, 2], false),
            C::HSL => compare(c, "from-hsl", &m, &got, |p| from_hsl(p).to_vec(), [0, 1, 2], false),
            C::CMYK => {
                let full = m.full();
                let t = tol(m.depth);
                'o: for (fi, fr) in m.frames.iter().enumerate() {
                    for i in 0..m.w * m.h {
                        for k in 0..3 {
                            let w = fr[k][i] * fr[3][i] / full;
                            let g = got.frames[fi][k][i];
                            if !((w - g).abs() <= t) {
                                c.fail("from-cmyk", format!("{}: pixel {i} ink {} key {} gave {g}, definition {w}", m.fmt(), fr[k][i], fr[3][i]));
                                break 'o;
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    } else {
        // everything else goes through RGB
        let Some(Ok(Ok(mid))) = c.lib("convert_color", || conv(&m, C::RGB)) else { return };
        let Some(Ok(Ok(two))) = c.lib("convert_color", || conv(&mid, to)) else {
            c.fail("via-rgb", format!("{} -> RGB -> {to:?} refused", m.fmt()));
            return;
        };
        // one level: a direct route need not round in between
        let t = if to == C::HSV || to == C::HSL { f64::INFINITY } else { tol(m.depth) * 2.0 };
        if let Some(d) = got.diff(&two, t) {
            c.fail("via-rgb", format!("{} -> {to:?}: {d}", m.fmt()));
        }
    }
}
pub fn roundtrip(c: &mut Case) {
    let m = Model::random(&mut c.rng, 40, &[C::RGB, C::RGBA], &DEPTHS);
    let via = *c.rng.pick(&COLOUR);
    if via.is_grayscale() || via == m.cs {
        c.saw_trivial();
        return;
    }
    c.tag(&format!("{via:?}"));
    let mut im = m.build();
    let Some(r) = c.lib("there", || im.convert_color(via)) else { return };
    if r.is_err() {
        c.fail("refused", format!("{} -> {via:?}", m.fmt()));
        return;
    }
    let Some(r) = c.lib("back", || im.convert_color(m.cs)) else { return };
    if r.is_err() {
        c.fail("refused", format!("{} <- {via:?}", m.fmt()));
        return;
    }
    let got = match Model::read(&im) {
        Ok(g) => g,
        Err(e) => {
            c.fail("inconsistent", e);
            return;
        }
    };
    let mut want = m.clone();
    if !via.has_alpha() {
        if let Some(a) = m.alpha() {
            for f in &mut want.frames {
                f[a].iter_mut().for_each(|v| *v = m.full());
            }
        }
    }
    let t = match (via, m.depth) {
        (C::HSL | C::HSV, BitDepth::Float32) => 1e-4,
        (C::HSL | C::HSV, _) => 8.0,
        (C::CMYK, BitDepth::Float32) => 1e-5,
        (C::CMYK, _) => 1.5,
        _ => 0.0
    };
    if let Some(d) = got.diff(&want, t) {
        c.fail(format!("roundtrip-{via:?}"), format!("{} via {via:?}: {d}", m.fmt()));
    }
    c.saw(m.hash());
}

fn step(d: BitDepth) -> f64 {
    match d {
        BitDepth::Float32 => 2e-6,
        d => 1.0 / full(d)
    }
}
fn deepen(m: &Model, to: BitDepth) -> Result<Result<Model, String>, String> {
    let mut i: Image = m.build();
    match i.convert_depth(to) {
        Ok(()) => Model::read(&i).map(Ok),
        Err(e) => Ok(Err(format!("{e:?}")))
    }
}
pub fn depth(c: &mut Case) {
    let mut spaces = COLOUR.to_vec();
    spaces.extend([C::YCbCr, band(6)]);
    let mut m = Model::random(&mut c.rng, 24, &spaces, &DEPTHS);
    if c.rng.one_in(3) {
        // sorted ramps over the whole range
        let n = m.w * m.h;
        let d = m.depth;
        let at = |i: usize, off: f64| {
            let t = (i as f64 + off) / n as f64;
            match d {
                BitDepth::Float32 => t as f32 as f64,
                _ => (t * full(d)).round().min(full(d))
            }
        };
        let off = c.rng.f64();
        for f in &mut m.frames {
            for p in f.iter_mut() {
                *p = (0..n).map(|i| at(i, off)).collect();
            }
        }
    }
    every(c, &m);
}
fn every(c: &mut Case, m: &Model) {
    for to in DEPTHS {
        let Some(r) = c.lib("convert_depth", || deepen(m, to)) else { return };
        let got = match r {
            Err(e) => {
                c.fail("inconsistent", format!("{} -> {to:?}: {e}", m.fmt()));
                return;
            }
            Ok(Err(e)) => {
                c.fail("refused", format!("{} -> {to:?}: {e}", m.fmt()));
                return;
            }
            Ok(Ok(g)) => g
        };
        if got.depth != to || got.cs != m.cs || (got.w, got.h) != (m.w, m.h) || got.frames.len() != m.frames.len() || got.times != m.times {
            c.fail("facts", format!("{} -> {to:?} gave {}", m.fmt(), got.fmt()));
            return;
        }
        if to == m.depth {
            if let Some(d) = got.diff(m, 0.0) {
                c.fail("same-depth", d);
            }
            continue;
        }
        // proportional within one step, ends exact, order kept
        let mut pairs = vec![];
        for (a, b) in m.frames.iter().flatten().flatten().zip(got.frames.iter().flatten().flatten()) {
            let (x, y) = (a / m.full(), b / full(to));
            if !((x - y).abs() <= step(to) * 1.0001) {
                c.fail("proportion", format!("{:?} {a} -> {to:?} {b}", m.depth));
                return;
            }
            if (*a == 0.0) != (*b == 0.0) && *a == 0.0 || *a == m.full() && *b != full(to) {
                c.fail("ends", format!("{:?} {a} -> {to:?} {b}", m.depth));
                return;
            }
            pairs.push((*a, *b));
        }
        pairs.sort_by(|x, y| x.partial_cmp(y).unwrap());
        for w in pairs.windows(2) {
            if w[0].0 < w[1].0 && w[0].1 > w[1].1 || w[0].0 == w[1].0 && w[0].1 != w[1].1 {
                c.fail("order", format!("{:?} -> {to:?}: {:?} and {:?}", m.depth, w[0], w[1]));
                return;
            }
        }
        c.tag(&format!("{:?}->{to:?}", m.depth));
        // widening and back
        let wider = matches!((m.depth, to), (BitDepth::Eight, _) | (BitDepth::Sixteen, BitDepth::Float32));
        if wider {
            let Some(Ok(Ok(b))) = c.lib("convert_depth", || deepen(&got, m.depth)) else {
                c.fail("refused", format!("{to:?} -> {:?}", m.depth));
                return;
            };
            if let Some(d) = b.diff(m, 0.0) {
                c.fail("widen-narrow", format!("{:?} -> {to:?} -> {:?}: {d}", m.depth, m.depth));
                return;
            }
        }
    }
    c.saw(m.hash());
}
/// every 8-bit and every 16-bit value; a dense float ramp; floats outside the range
pub fn depth_all(c: &mut Case) {
    // what the depths say of themselves
    for (d, bytes, top) in [(BitDepth::Eight, 1, 255), (BitDepth::Sixteen, 2, 65535), (BitDepth::Float32, 4, 1)] {
        let got = (d.size_of(), d.bit_size(), d.max_value());
        c.check(got == (bytes, 8 * bytes, top), "depth-facts", || format!("{d:?}: {got:?}"));
    }
    match c.idx {
        0 | 1 => {
            let d = if c.idx == 0 { BitDepth::Eight } else { BitDepth::Sixteen };
            let n = full(d) as usize + 1;
            let m = Model { w: 256, h: n / 256, cs: C::Luma, depth: d, frames: vec![vec![(0..n).map(|v| v as f64).collect()]], times: vec![(1, 1)] };
            every(c, &m);
        }
        2 | 3 => {
            // the proportional equivalents themselves and their float neighbours
            let div = if c.idx == 2 { 255.0f32 } else { 65535.0 };
            let mut v = vec![];
            for k in 0..=div as usize {
                let x = k as f32 / div;
                v.push(x);
                v.push((k as f32 + 0.5) / div);
                v.push(f32::from_bits(x.to_bits() + 1));
                v.push(if x > 0.0 { f32::from_bits(x.to_bits() - 1) } else { 0.0 });
            }
            let v: Vec<f64> = v.iter().map(|x| x.clamp(0.0, 1.0) as f64).collect();
            let m = Model { w: v.len() / 4, h: 4, cs: C::Luma, depth: BitDepth::Float32, frames: vec![vec![v]], times: vec![(1, 1)] };
            every(c, &m);
        }
        _ => {
            let v: Vec<f64> = (0..64)
                .map(|_| match c.rng.below(6) {
                    0 => f64::NAN,
                    1 => f64::INFINITY,
                    2 => f64::NEG_INFINITY,
                    3 => -(c.rng.f32() as f64) * 1e6,
                    4 => 1.0 + c.rng.f32() as f64 * 1e6,
                    _ => c.rng.f32() as f64
                })
                .collect();
            let m = Model { w: 8, h: 8, cs: C::Luma, depth: BitDepth::Float32, frames: vec![vec![v.clone()]], times: vec![(1, 1)] };
            for to in [BitDepth::Eight, BitDepth::Sixteen] {
                let Some(Ok(Ok(g))) = c.lib("convert_depth", || deepen(&m, to)) else {
                    c.fail("refused", "out-of-range floats refused");
                    return;
                };
                for (a, b) in v.iter().zip(&g.frames[0][0]) {
                    let (a, b) = (*a as f32, *b);
                    let ok = a.is_nan() || a <= 0.0 && b == 0.0 || a >= 1.0 && b == full(to) || a > 0.0 && a < 1.0;
                    c.check(ok, "out-of-range", || format!("{a} -> {to:?} {b}"));
                }
            }
            c.saw(c.idx);
        }
    }
}
