//! I01: interleaved <-> planar, constructors, accessors.
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_image::frame::Frame;
use zune_image::image::{Image, MAX_CHANNELS};
use zune_image::utils::swizzle_channels;
use zvcore::{hash_bytes, Case};
use zvimg::*;

pub fn u8s(v: &[f64]) -> Vec<u8> {
    v.iter().map(|x| *x as u8).collect()
}
pub fn u16s(v: &[f64]) -> Vec<u16> {
    v.iter().map(|x| *x as u16).collect()
}
pub fn f32s(v: &[f64]) -> Vec<f32> {
    v.iter().map(|x| *x as f32).collect()
}
fn back<T: Copy + Into<f64>>(v: &[T]) -> Vec<f64> {
    v.iter().map(|x| (*x).into()).collect()
}
/// interleaved samples -> image by the flat-buffer constructors
pub fn from_flat(m: &Model, f: usize) -> Image {
    let v = m.interleaved(f);
    match m.depth {
        BitDepth::Eight => Image::from_u8(&u8s(&v), m.w, m.h, m.cs),
        BitDepth::Sixteen => Image::from_u16(&u16s(&v), m.w, m.h, m.cs),
        _ => Image::from_f32(&f32s(&v), m.w, m.h, m.cs)
    }
}
fn frame_from_flat(m: &Model, f: usize) -> Frame {
    let v = m.interleaved(f);
    let (a, b) = m.times[f];
    match m.depth {
        BitDepth::Eight => Frame::from_u8(&u8s(&v), m.cs, a, b),
        BitDepth::Sixteen => Frame::from_u16(&u16s(&v), m.cs, a, b),
        _ => Frame::from_f32(&f32s(&v), m.cs, a, b)
    }
}
fn flatten(im: &Image, d: BitDepth) -> Vec<Vec<f64>> {
    match d {
        BitDepth::Eight => im.flatten_frames::<u8>().iter().map(|v| back(v)).collect(),
        BitDepth::Sixteen => im.flatten_frames::<u16>().iter().map(|v| back(v)).collect(),
        _ => im.flatten_frames::<f32>().iter().map(|v| back(v)).collect()
    }
}
fn consistent(c: &mut Case, sig: &str, im: &Image, want: &Model) {
    match Model::read(im) {
        Err(e) => c.fail(sig, format!("{}: {e}", want.fmt())),
        Ok(got) => {
            if let Some(d) = got.diff(want, 0.0) {
                c.fail(sig, format!("{}: {d}", want.fmt()))
            }
        }
    }
}

pub fn flat(c: &mut Case) {
    let cs = any_space(&mut c.rng);
    let d = *c.rng.pick(&DEPTHS);
    let (w, h) = if c.rng.one_in(20) { (200 + c.rng.below(700), 1 + c.rng.below(9)) } else { size(&mut c.rng, 70) };
    let nf = if c.rng.one_in(4) { 2 + c.rng.below(2) } else { 1 };
    let m = Model::random_at(&mut c.rng, w, h, cs, d, nf);
    c.tag(&format!("{d:?}/{}", cs.num_components()));
    c.sample(|| m.fmt());
    // flat buffer -> image
    let one = Model { frames: vec![m.frames[0].clone()], times: vec![(1, 1)], ..m.clone() };
    let Some(im) = c.lib("from flat", || from_flat(&m, 0)) else { return };
    consistent(c, "from-flat", &im, &one);
    // frames from flat buffers, with their durations
    let Some(im) = c.lib("frames from flat", || {
        Image::new_frames((0..nf).map(|f| frame_from_flat(&m, f)).collect(), m.depth, m.w, m.h, m.cs)
    }) else {
        return;
    };
    consistent(c, "frame-from-flat", &im, &m);
    let t: Vec<_> = im.frames_ref().iter().map(|f| (f.numerator(), f.denominator())).collect();
    c.check(t == m.times, "frame-duration", || format!("{t:?} for {:?}", m.times));
    c.check(im.is_animated() == (nf > 1) && im.frames_len() == nf, "frame-count", || format!("{} for {nf}", im.frames_len()));
    // image -> flat buffers
    let Some(fl) = c.lib("flatten", || flatten(&im, d)) else { return };
    for f in 0..nf {
        let want = m.interleaved(f);
        c.check(fl.get(f) == Some(&want), "flatten", || format!("{} frame {f}: {}", m.fmt(), zvcore::diff_msg(&fl[f], &want)));
    }
    // per-frame flattening into buffers of other sizes
    let n = cs.num_components();
    for f in 0..nf {
        let want = m.interleaved(f);
        let extra = if n == 1 { 0 } else { c.rng.below(3) * n + c.rng.below(2) };
        let len = if n > 1 && n <= 4 && c.rng.one_in(3) { want.len() - c.rng.below(want.len()) } else { want.len() + if n <= 4 { extra } else { 0 } };
        let r = c.lib("flatten_into", || match d {
            BitDepth::Eight => {
                let mut o = vec![0xA5u8; len];
                im.frames_ref()[f].flatten_into(&mut o).map(|k| (k, back(&o), 165.0))
            }
            BitDepth::Sixteen => {
                let mut o = vec![0xA5A5u16; len];
                swizzle_channels(im.frames_ref()[f].channels_vec_ref(), &mut o).map(|k| (k, back(&o), 42405.0))
            }
            _ => {
                let mut o = vec![0.625f32; len];
                im.frames_ref()[f].flatten_into(&mut o).map(|k| (k, back(&o), 0.625))
            }
        });
        let Some(r) = r else { return };
        match r {
            Err(e) => c.fail("flatten_into", format!("{}: {e:?}", m.fmt())),
            Ok((_, got, fill)) => {
                let whole = len.min(want.len()) / n * n;
                c.check(got[..whole] == want[..whole], "flatten_into", || format!("{} len {len}", m.fmt()));
                c.check(got[whole..].iter().all(|v| *v == fill), "flatten_into-beyond", || format!("{} len {len}", m.fmt()));
            }
        }
        // a wrong sample type is refused
        if let Some(bad) = c.lib("flatten_into wrong type", || match d {
            BitDepth::Eight => im.frames_ref()[f].flatten_into(&mut vec![0u16; want.len()]).is_ok(),
            BitDepth::Sixteen => im.frames_ref()[f].flatten_into(&mut vec![0f32; want.len()]).is_ok(),
            _ => im.frames_ref()[f].flatten_into(&mut vec![0u8; want.len()]).is_ok()
        }) {
            c.check(!bad, "flatten-wrong-type", || m.fmt());
        }
        if d == BitDepth::Sixteen {
            let fr = &im.frames_ref()[f];
            let (Some(ne), Some(be)) = (c.lib("native", || fr.u16_to_native_endian()), c.lib("big", || fr.u16_to_big_endian(cs))) else { return };
            let wn: Vec<u8> = want.iter().flat_map(|v| (*v as u16).to_ne_bytes()).collect();
            let wb: Vec<u8> = want.iter().flat_map(|v| (*v as u16).to_be_bytes()).collect();
            c.check(ne == wn, "u16-native", || m.fmt());
            c.check(be == wb, "u16-big", || m.fmt());
        }
    }
    if d == BitDepth::Eight {
        let Some(b) = c.lib("flatten_to_u8", || im.flatten_to_u8()) else { return };
        for f in 0..nf {
            c.check(back(&b[f]) == m.interleaved(f), "flatten_to_u8", || m.fmt());
        }
    }
    // copies are equal and independent
    let Some(mut im2) = c.lib("clone", || im.clone()) else { return };
    consistent(c, "clone", &im2, &m);
    let t: Vec<_> = im2.frames_ref().iter().map(|f| (f.numerator(), f.denominator())).collect();
    c.check(t == m.times, "clone-duration", || format!("{t:?} for {:?}", m.times));
    c.check(im2 == im, "clone-eq", || m.fmt());
    let (f, k, i) = (c.rng.below(nf), c.rng.below(n), c.rng.below(w * h));
    let new = if m.frames[f][k][i] == 0.0 { full(d) } else { 0.0 };
    set(&mut im2, f, k, i, new);
    c.check(im2 != im, "clone-neq", || m.fmt());
    consistent(c, "clone-shares", &im, &m);
    c.saw(m.hash());
}
fn set(im: &mut Image, f: usize, k: usize, i: usize, v: f64) {
    let d = im.depth();
    let ch = &mut im.frames_mut()[f].channels_vec()[k];
    match d {
        BitDepth::Eight => ch.reinterpret_as_mut::<u8>().unwrap()[i] = v as u8,
        BitDepth::Sixteen => ch.reinterpret_as_mut::<u16>().unwrap()[i] = v as u16,
        _ => ch.reinterpret_as_mut::<f32>().unwrap()[i] = v as f32
    }
}
/// value at (frame-independent) position, exactly representable in every depth
fn val(y: usize, x: usize, k: usize, d: BitDepth) -> f64 {
    let h = (y * 7919 + x * 104_729 + k * 31 + 5) % 251;
    match d {
        BitDepth::Eight => h as f64,
        BitDepth::Sixteen => (h * 256 + (y * 3 + x) % 256) as f64,
        _ => h as f64 / 256.0
    }
}
pub fn func(c: &mut Case) {
    let cs = loop {
        let s = any_space(&mut c.rng);
        if s.num_components() <= MAX_CHANNELS {
            break s;
        }
    };
    let d = *c.rng.pick(&DEPTHS);
    let (w, h) = size(&mut c.rng, 60);
    let n = cs.num_components();
    let want = Model {
        w,
        h,
        cs,
        depth: d,
        frames: vec![(0..n).map(|k| (0..w * h).map(|i| val(i / w, i % w, k, d)).collect()).collect()],
        times: vec![(1, 1)]
    };
    c.tag(&format!("{d:?}/{n}"));
    let im = c.lib("from_fn", || match d {
        BitDepth::Eight => Image::from_fn::<u8, _>(w, h, cs, |y, x, p| (0..4).for_each(|k| p[k] = val(y, x, k, d) as u8)),
        BitDepth::Sixteen => Image::from_fn::<u16, _>(w, h, cs, |y, x, p| (0..4).for_each(|k| p[k] = val(y, x, k, d) as u16)),
        _ => Image::from_fn::<f32, _>(w, h, cs, |y, x, p| (0..4).for_each(|k| p[k] = val(y, x, k, d) as f32))
    });
    let Some(im) = im else { return };
    consistent(c, "from_fn", &im, &want);
    // fill
    let v = sample(&mut c.rng, d);
    let Some(fl) = c.lib("fill", || match d {
        BitDepth::Eight => Image::fill(v as u8, cs, w, h),
        BitDepth::Sixteen => Image::fill(v as u16, cs, w, h),
        _ => Image::fill(v as f32, cs, w, h)
    }) else {
        return;
    };
    let v = if d == BitDepth::Float32 { v as f32 as f64 } else { v };
    consistent(c, "fill", &fl, &Model { frames: vec![vec![vec![v; w * h]; n]], ..want.clone() });
    // per-pixel mutation of every frame: each call sees its own pixel and writes one channel of it
    let nf = 1 + c.rng.below(3);
    let m = Model::random_at(&mut c.rng, w, h, cs, d, nf);
    let mut im = m.build();
    let k = c.rng.below(n);
    let seen = std::cell::RefCell::new(0usize);
    let wrong = std::cell::Cell::new(None);
    macro_rules! go {
        ($t:ty) => {
            im.modify_pixels_mut::<$t, _>(|y, x, p| {
                let f = *seen.borrow() / (w * h);
                *seen.borrow_mut() += 1;
                if y >= h || x >= w || f >= nf {
                    wrong.set(Some((y, x)));
                    return;
                }
                for j in 0..n {
                    let e: f64 = (*p[j]).into();
                    if e != m.frames[f][j][y * w + x] {
                        wrong.set(Some((y, x)));
                    }
                }
                *p[k] = val(y, x, k, d) as $t;
            })
        };
    }
    let r = c.lib("modify_pixels_mut", || match d {
        BitDepth::Eight => go!(u8),
        BitDepth::Sixteen => go!(u16),
        _ => go!(f32)
    });
    let Some(r) = r else { return };
    c.check(r.is_ok(), "modify-error", || format!("{}: {r:?}", m.fmt()));
    let (calls, w0) = (*seen.borrow(), wrong.get());
    c.check(calls == w * h * nf, "modify-calls", || format!("{}: {calls} calls", m.fmt()));
    c.check(w0.is_none(), "modify-pixel", || format!("{}: wrong pixel shown at {w0:?}", m.fmt()));
    let mut exp = m.clone();
    for f in &mut exp.frames {
        f[k] = (0..w * h).map(|i| val(i / w, i % w, k, d)).collect();
    }
    consistent(c, "modify", &im, &exp);
    // wrong type refused, image untouched
    let bad = c.lib("modify wrong type", || match d {
        BitDepth::Eight => im.modify_pixels_mut::<u16, _>(|_, _, p| *p[0] = 1).is_ok(),
        BitDepth::Sixteen => im.modify_pixels_mut::<f32, _>(|_, _, p| *p[0] = 1.0).is_ok(),
        _ => im.modify_pixels_mut::<u8, _>(|_, _, p| *p[0] = 1).is_ok()
    });
    c.check(bad != Some(true), "modify-wrong-type", || m.fmt());
    consistent(c, "modify-wrong-type", &im, &exp);
    c.saw(want.hash() ^ m.hash());
}
/// channel accessors: all channels, colours only, alpha apart, on every frame
pub fn access(c: &mut Case) {
    let mut spaces = BASIC.to_vec();
    spaces.extend([ColorSpace::CMYK, ColorSpace::HSL, band(5)]);
    let m = Model::random(&mut c.rng, 12, &spaces, &DEPTHS);
    let mut im = m.build();
    let n = m.cs.num_components();
    c.tag(&format!("{:?}", m.cs));
    let alpha = m.alpha();
    let rd = |ch: &zune_image::channel::Channel| -> Vec<f64> {
        match m.depth {
            BitDepth::Eight => back(ch.reinterpret_as::<u8>().unwrap()),
            BitDepth::Sixteen => back(ch.reinterpret_as::<u16>().unwrap()),
            _ => back(ch.reinterpret_as::<f32>().unwrap())
        }
    };
    for (skip, sig) in [(false, "channels"), (true, "channels-no-alpha")] {
        let want: Vec<Vec<f64>> =
            m.frames.iter().flat_map(|f| (0..n).filter(|k| !(skip && Some(*k) == alpha)).map(|k| f[k].clone())).collect();
        if let Some(got) = c.lib(sig, || im.channels_ref(skip).into_iter().map(rd).collect::<Vec<_>>()) {
            c.check(got == want, sig, || format!("{}: channels_ref({skip}) gave the wrong channels", m.fmt()));
        }
        if let Some(got) = c.lib(sig, || im.channels_mut(skip).into_iter().map(|x| rd(x)).collect::<Vec<_>>()) {
            c.check(got == want, sig, || format!("{}: channels_mut({skip}) gave the wrong channels", m.fmt()));
        }
    }
    for (f, fr) in im.frames_ref().iter().enumerate() {
        let want = alpha.map(|a| ((0..n).filter(|k| *k != a).map(|k| m.frames[f][k].clone()).collect::<Vec<_>>(), m.frames[f][a].clone()));
        if let Some(got) = c.lib("separate", || fr.separate_color_and_alpha_ref(m.cs).map(|(k, a)| (k.iter().map(rd).collect::<Vec<_>>(), rd(a)))) {
            c.check(got == want, "separate", || format!("{}: colour and alpha confused", m.fmt()));
        }
    }
    let mut im2 = im.clone();
    for (f, fr) in im2.frames_mut().iter_mut().enumerate() {
        let want = alpha.map(|a| ((0..n).filter(|k| *k != a).map(|k| m.frames[f][k].clone()).collect::<Vec<_>>(), m.frames[f][a].clone()));
        if let Some(got) =
            c.lib("separate mut", || fr.separate_color_and_alpha_mut(m.cs).map(|(k, a)| (k.iter().map(rd).collect::<Vec<_>>(), rd(a))))
        {
            c.check(got == want, "separate", || format!("{}: colour and alpha confused (mut)", m.fmt()));
        }
    }
    c.saw(m.hash());
}

/// I01: flattening into buffers that are too long or too short
pub fn into(c: &mut Case) {
    let mut r2 = c.rng.clone();
    let m = Model::random(&mut c.rng, 20, &[any_space(&mut r2)], &DEPTHS);
    let im = m.build();
    let n = m.w * m.h * m.cs.num_components();
    c.tag(&format!("{} channels", m.cs.num_components()));
    c.sample(|| m.fmt());
    for f in 0..m.frames.len() {
        let want = m.interleaved(f);
        for len in [n, n + 1 + c.rng.below(20), c.rng.below(n + 1)] {
            macro_rules! go {
                ($t:ty, $fill:expr) => {{
                    let mut b = vec![$fill; len];
                    let r = c.lib("flatten-into", || im.frames_ref()[f].flatten_into::<$t>(&mut b));
                    let Some(r) = r else { return };
                    match r {
                        Err(e) => c.fail("into:refused", format!("{} into {len}: {e:?}", m.fmt())),
                        Ok(k) => {
                            c.saw(hash_bytes(format!("{} {len}", m.hash()).as_bytes()));
                            // whole pixels, as many as fit
                            let whole = (len / m.cs.num_components() * m.cs.num_components()).min(n);
                            c.check(k == whole, "into:count", || format!("{} into {len}: {k} for {whole}", m.fmt()));
                            c.check(b.iter().take(whole).zip(&want).all(|(x, y)| *x as f64 == *y), "into:samples", || format!("{} into {len}", m.fmt()));
                            c.check(b.iter().skip(whole).all(|x| *x == $fill), "into:beyond", || format!("{} into {len}", m.fmt()));
                        }
                    }
                }};
            }
            match m.depth {
                BitDepth::Eight => go!(u8, 0xA5),
                BitDepth::Sixteen => go!(u16, 0xA5A5),
                _ => go!(f32, -777.0f32)
            }
            if c.failed() {
                return;
            }
        }
    }
}
