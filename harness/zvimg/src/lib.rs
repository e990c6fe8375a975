//! A plain model of a zune-image `Image` (planar f64 samples, exact for every depth), with
//! generators, builders and a reader that refuses inconsistent images.
use std::num::NonZeroU32;
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_image::channel::Channel;
use zune_image::frame::Frame;
use zune_image::image::Image;
use zvcore::{hash_bytes, Rng};

pub const BASIC: [ColorSpace; 7] = [
    ColorSpace::Luma,
    ColorSpace::LumaA,
    ColorSpace::RGB,
    ColorSpace::RGBA,
    ColorSpace::BGR,
    ColorSpace::BGRA,
    ColorSpace::ARGB
];
pub const COLOUR: [ColorSpace; 10] = [
    ColorSpace::Luma,
    ColorSpace::LumaA,
    ColorSpace::RGB,
    ColorSpace::RGBA,
    ColorSpace::BGR,
    ColorSpace::BGRA,
    ColorSpace::ARGB,
    ColorSpace::CMYK,
    ColorSpace::HSL,
    ColorSpace::HSV
];
pub const DEPTHS: [BitDepth; 3] = [BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32];

pub fn band(n: u32) -> ColorSpace {
    ColorSpace::MultiBand(NonZeroU32::new(n).unwrap())
}
pub fn any_space(r: &mut Rng) -> ColorSpace {
    match r.below(14) {
        0..=9 => *r.pick(&COLOUR),
        10 => ColorSpace::YCbCr,
        11 => ColorSpace::YCCK,
        _ => band(1 + r.below(7) as u32)
    }
}
/// largest sample value, as a number
pub fn full(d: BitDepth) -> f64 {
    match d {
        BitDepth::Eight => 255.0,
        BitDepth::Sixteen => 65535.0,
        _ => 1.0
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Model {
    pub w: usize,
    pub h: usize,
    pub cs: ColorSpace,
    pub depth: BitDepth,
    /// frames -> channels -> row-major samples
    pub frames: Vec<Vec<Vec<f64>>>,
    pub times: Vec<(usize, usize)>
}

/// One sample, biased to the ends of the range.
pub fn sample(r: &mut Rng, d: BitDepth) -> f64 {
    match d {
        BitDepth::Eight => match r.below(6) {
            0 => *r.pick(&[0.0, 1.0, 2.0, 127.0, 128.0, 253.0, 254.0, 255.0]),
            _ => r.u8() as f64
        },
        BitDepth::Sixteen => match r.below(6) {
            0 => *r.pick(&[0.0, 1.0, 255.0, 256.0, 257.0, 32767.0, 32768.0, 65534.0, 65535.0, 65278.0]),
            _ => r.u16() as f64
        },
        _ => match r.below(6) {
            0 => *r.pick(&[0.0, 1.0, 0.5, 0.25, 1.0 / 3.0f32 as f64, f32::EPSILON as f64]),
            _ => r.f32() as f64
        }
    }
}
fn f32x(v: f64) -> f64 {
    v as f32 as f64
}
/// A plane: noise, flat, gradient, few values or sparse.
pub fn plane(r: &mut Rng, w: usize, h: usize, d: BitDepth) -> Vec<f64> {
    let n = w * h;
    let q = |v: f64| match d {
        BitDepth::Float32 => f32x(v),
        _ => v
    };
    match r.below(6) {
        0 => vec![q(sample(r, d)); n],
        1 => {
            let m = full(d);
            let step = (1 + r.below(5)) as f64;
            (0..n)
                .map(|i| {
                    let (x, y) = ((i % w) as f64, (i / w) as f64);
                    let v = x * step + y;
                    match d {
                        BitDepth::Eight => v % 256.0,
                        BitDepth::Sixteen => (v * 97.0) % 65536.0,
                        _ => f32x((v / 97.0).fract() * m)
                    }
                })
                .collect()
        }
        2 => {
            let (a, b) = (q(sample(r, d)), q(sample(r, d)));
            (0..n).map(|_| if r.bool() { a } else { b }).collect()
        }
        3 => {
            let a = q(sample(r, d));
            let mut v = vec![a; n];
            for _ in 0..1 + r.below(4) {
                let i = r.below(n);
                v[i] = q(sample(r, d));
            }
            v
        }
        _ => (0..n).map(|_| q(sample(r, d))).collect()
    }
}
impl Model {
    pub fn random_at(r: &mut Rng, w: usize, h: usize, cs: ColorSpace, depth: BitDepth, frames: usize) -> Model {
        let n = cs.num_components();
        Model {
            w,
            h,
            cs,
            depth,
            frames: (0..frames).map(|_| (0..n).map(|_| plane(r, w, h, depth)).collect()).collect(),
            times: (0..frames).map(|_| (1 + r.below(500), 1 + r.below(1000))).collect()
        }
    }
    /// frames 1 mostly, sometimes up to 3
    pub fn random(r: &mut Rng, max: usize, spaces: &[ColorSpace], depths: &[BitDepth]) -> Model {
        let (w, h) = size(r, max);
        let (cs, d) = (*r.pick(spaces), *r.pick(depths));
        let frames = if r.one_in(4) { 2 + r.below(2) } else { 1 };
        Model::random_at(r, w, h, cs, d, frames)
    }
    pub fn fmt(&self) -> String {
        format!("{}x{} {:?} {:?} {}f", self.w, self.h, self.cs, self.depth, self.frames.len())
    }
    pub fn hash(&self) -> u64 {
        let mut b = format!("{}", self.fmt()).into_bytes();
        for f in &self.frames {
            for c in f {
                for v in c.iter().take(64) {
                    b.extend_from_slice(&v.to_le_bytes());
                }
            }
        }
        hash_bytes(&b)
    }
    pub fn alpha(&self) -> Option<usize> {
        self.cs.alpha_position()
    }
    pub fn full(&self) -> f64 {
        full(self.depth)
    }
    fn channels(&self, f: usize) -> Vec<Channel> {
        self.frames[f].iter().map(|p| channel(p, self.depth)).collect()
    }
    /// Build through `Image::new` / `Image::new_frames`.
    pub fn build(&self) -> Image {
        let frames = (0..self.frames.len()).map(|i| {
            let mut f = Frame::new_with_duration(self.channels(i), self.times[i].0, self.times[i].1);
            let _ = &mut f;
            f
        });
        Image::new_frames(frames.collect(), self.depth, self.w, self.h, self.cs)
    }
    pub fn interleaved(&self, f: usize) -> Vec<f64> {
        let n = self.cs.num_components();
        let mut o = Vec::with_capacity(self.w * self.h * n);
        for i in 0..self.w * self.h {
            for c in 0..n {
                o.push(self.frames[f][c][i]);
            }
        }
        o
    }
    /// Read an image back; an image whose facts do not describe its samples is an error.
    pub fn read(im: &Image) -> Result<Model, String> {
        let (w, h) = im.dimensions();
        let (cs, depth) = (im.colorspace(), im.depth());
        if im.frames_ref().is_empty() {
            return Err("image without frames".into());
        }
        let mut frames = vec![];
        let mut times = vec![];
        for (fi, f) in im.frames_ref().iter().enumerate() {
            let ch = f.channels_vec_ref();
            if ch.len() != cs.num_components() {
                return Err(format!("frame {fi} has {} channels, {cs:?} needs {}", ch.len(), cs.num_components()));
            }
            let mut v = vec![];
            for (ci, c) in ch.iter().enumerate() {
                let p: Vec<f64> = match depth {
                    BitDepth::Eight => c.reinterpret_as::<u8>().map(|s| s.iter().map(|x| *x as f64).collect()),
                    BitDepth::Sixteen => c.reinterpret_as::<u16>().map(|s| s.iter().map(|x| *x as f64).collect()),
                    BitDepth::Float32 => c.reinterpret_as::<f32>().map(|s| s.iter().map(|x| *x as f64).collect()),
                    d => return Err(format!("depth {d:?}"))
                }
                .map_err(|e| format!("frame {fi} channel {ci} is not {depth:?}: {e:?}"))?;
                if p.len() != w * h {
                    return Err(format!("frame {fi} channel {ci} has {} samples, {w}x{h} needs {}", p.len(), w * h));
                }
                v.push(p);
            }
            frames.push(v);
            times.push((f.numerator(), f.denominator()));
        }
        Ok(Model { w, h, cs, depth, frames, times })
    }
    /// first difference, with a tolerance in sample units
    pub fn diff(&self, o: &Model, tol: f64) -> Option<String> {
        if (self.w, self.h) != (o.w, o.h) {
            return Some(format!("size {}x{} for {}x{}", self.w, self.h, o.w, o.h));
        }
        if self.cs != o.cs {
            return Some(format!("colour space {:?} for {:?}", self.cs, o.cs));
        }
        if self.depth != o.depth {
            return Some(format!("depth {:?} for {:?}", self.depth, o.depth));
        }
        if self.frames.len() != o.frames.len() {
            return Some(format!("{} frames for {}", self.frames.len(), o.frames.len()));
        }
        for (f, (a, b)) in self.frames.iter().zip(&o.frames).enumerate() {
            for (c, (a, b)) in a.iter().zip(b).enumerate() {
                for (i, (x, y)) in a.iter().zip(b).enumerate() {
                    if !(x == y || (x - y).abs() <= tol || (x.is_nan() && y.is_nan())) {
                        return Some(format!("frame {f} channel {c} at ({},{}) of {}x{}: {x} for {y}", i % self.w, i / self.w, self.w, self.h));
                    }
                }
            }
        }
        None
    }
}
pub fn channel(p: &[f64], d: BitDepth) -> Channel {
    match d {
        BitDepth::Eight => {
            let v: Vec<u8> = p.iter().map(|x| *x as u8).collect();
            let mut c = Channel::new_with_length::<u8>(v.len());
            c.reinterpret_as_mut::<u8>().unwrap().copy_from_slice(&v);
            c
        }
        BitDepth::Sixteen => {
            let v: Vec<u16> = p.iter().map(|x| *x as u16).collect();
            let mut c = Channel::new_with_length::<u16>(v.len() * 2);
            c.reinterpret_as_mut::<u16>().unwrap().copy_from_slice(&v);
            c
        }
        _ => {
            let v: Vec<f32> = p.iter().map(|x| *x as f32).collect();
            let mut c = Channel::new_with_length::<f32>(v.len() * 4);
            c.reinterpret_as_mut::<f32>().unwrap().copy_from_slice(&v);
            c
        }
    }
}
/// sizes from 1x1 up, biased to small, to multiples of vector widths and to single rows/columns
pub fn size(r: &mut Rng, max: usize) -> (usize, usize) {
    let one = |r: &mut Rng| match r.below(5) {
        0 => 1 + r.below(3),
        1 => (*r.pick(&[8usize, 16, 32, 64]) + r.below(3)).saturating_sub(1).clamp(1, max),
        _ => 1 + r.below(max)
    };
    match r.below(10) {
        0 => (1, one(r)),
        1 => (one(r), 1),
        _ => (one(r), one(r))
    }
}
