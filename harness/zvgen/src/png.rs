//! PNG/APNG writer and reference model, written from the PNG specification.
use crate::deflate;
use std::io::Write;
use zvcore::Rng;

#[derive(Clone, Debug, Default)]
pub struct Img {
    pub w: usize,
    pub h: usize,
    /// PNG colour type: 0 gray, 2 rgb, 3 palette, 4 gray+alpha, 6 rgba
    pub ct: u8,
    pub depth: u8,
    pub samples: Vec<u16>
}
pub fn channels(ct: u8) -> usize {
    match ct {
        0 | 3 => 1,
        2 => 3,
        4 => 2,
        6 => 4,
        _ => panic!()
    }
}
pub const KINDS: [(u8, u8); 15] = [
    (0, 1), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (4, 16), (6, 8), (6, 16)
];
impl Img {
    pub fn random(rng: &mut Rng, w: usize, h: usize, ct: u8, depth: u8, palette_len: usize) -> Img {
        let n = w * h * channels(ct);
        let max = if ct == 3 { palette_len.min(1 << depth) as u32 - 1 } else { (1u32 << depth) - 1 };
        let lo = rng.texture(n);
        let hi = if depth == 16 { rng.texture(n) } else { vec![] };
        // one image in three uses few distinct values, so that transparency keys are hit
        let few = rng.one_in(3);
        let pal: Vec<u16> = (0..4).map(|_| (rng.u32() % (max + 1)) as u16).collect();
        let samples = (0..n)
            .map(|i| {
                let v = if depth == 16 { (hi[i] as u32) << 8 | lo[i] as u32 } else { lo[i] as u32 };
                if few {
                    pal[(lo[i] & 3) as usize]
                } else {
                    (v % (max + 1)) as u16
                }
            })
            .collect();
        Img { w, h, ct, depth, samples }
    }
    fn row_bytes(&self, y: usize, xs: &[usize]) -> Vec<u8> {
        let c = channels(self.ct);
        let mut out = Vec::new();
        let (mut acc, mut nb) = (0u32, 0u32);
        for &x in xs {
            for k in 0..c {
                let s = self.samples[(y * self.w + x) * c + k];
                if self.depth == 16 {
                    out.extend_from_slice(&s.to_be_bytes());
                } else {
                    acc = acc << self.depth | s as u32;
                    nb += self.depth as u32;
                    if nb == 8 {
                        out.push(acc as u8);
                        acc = 0;
                        nb = 0;
                    }
                }
            }
        }
        if nb > 0 {
            out.push((acc << (8 - nb)) as u8);
        }
        out
    }
    /// filtered scanlines; `filter` picks each row's filter type
    pub fn scanlines(&self, interlace: bool, mut filter: impl FnMut() -> u8) -> Vec<u8> {
        let bpp = (channels(self.ct) * self.depth as usize).div_ceil(8);
        let mut out = vec![];
        let passes: Vec<(usize, usize, usize, usize)> = if interlace {
            vec![(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]
        } else {
            vec![(0, 0, 1, 1)]
        };
        for (x0, y0, dx, dy) in passes {
            let xs: Vec<usize> = (x0..self.w).step_by(dx).collect();
            if xs.is_empty() {
                continue;
            }
            let mut prev: Vec<u8> = vec![];
            for y in (y0..self.h).step_by(dy) {
                let row = self.row_bytes(y, &xs);
                if prev.is_empty() {
                    prev = vec![0; row.len()];
                }
                let f = filter();
                out.push(f);
                for i in 0..row.len() {
                    let a = if i >= bpp { row[i - bpp] } else { 0 } as i32;
                    let b = prev[i] as i32;
                    let c = if i >= bpp { prev[i - bpp] } else { 0 } as i32;
                    let p = match f {
                        0 => 0,
                        1 => a,
                        2 => b,
                        3 => (a + b) / 2,
                        4 => {
                            let p = a + b - c;
                            let (pa, pb, pc) = ((p - a).abs(), (p - b).abs(), (p - c).abs());
                            if pa <= pb && pa <= pc {
                                a
                            } else if pb <= pc {
                                b
                            } else {
                                c
                            }
                        }
                        _ => 0
                    };
                    out.push(row[i].wrapping_sub(p as u8));
                }
                prev = row;
            }
        }
        out
    }
}
pub fn zlib(rng: &mut Rng, data: &[u8]) -> Vec<u8> {
    if rng.one_in(8) {
        return deflate::zlib_wrap(&deflate::stored(data), data);
    }
    let level = rng.below(10) as u32;
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}
#[derive(Clone, Debug)]
pub struct Chunk {
    pub name: [u8; 4],
    pub data: Vec<u8>
}
pub fn chunk(name: &[u8; 4], data: Vec<u8>) -> Chunk {
    Chunk { name: *name, data }
}
pub const SIG: [u8; 8] = [0x89, b'P', b'N', b'G', 13, 10, 26, 10];
pub fn assemble(chunks: &[Chunk]) -> Vec<u8> {
    let mut o = SIG.to_vec();
    for c in chunks {
        o.extend_from_slice(&(c.data.len() as u32).to_be_bytes());
        let s = o.len();
        o.extend_from_slice(&c.name);
        o.extend_from_slice(&c.data);
        let crc = deflate::crc32(&o[s..]);
        o.extend_from_slice(&crc.to_be_bytes());
    }
    o
}
/// (offset of the length field, name, data length) of every chunk
pub fn chunk_table(b: &[u8]) -> Vec<(usize, [u8; 4], usize)> {
    let mut v = vec![];
    let mut p = 8;
    while p + 12 <= b.len() {
        let n = u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize;
        v.push((p, b[p + 4..p + 8].try_into().unwrap(), n));
        p += 12 + n;
    }
    v
}
pub fn split(rng: &mut Rng, data: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    match rng.below(4) {
        0 | 1 => out.push(data.to_vec()),
        2 => {
            let n = rng.range(1, 40);
            out = data.chunks(n.max(data.len() / 200 + 1)).map(|c| c.to_vec()).collect();
        }
        _ => {
            let mut r = data;
            while !r.is_empty() {
                let lim = (r.len() * 2 / 3).max(2);
                let n = rng.below(lim + 1).min(r.len());
                out.push(r[..n].to_vec());
                r = &r[n..];
                if out.len() > 30 {
                    out.push(r.to_vec());
                    break;
                }
            }
        }
    }
    out
}

/// Metadata put into the file and expected back
#[derive(Clone, Debug, Default)]
pub struct Meta {
    pub gamma: Option<u32>,
    pub time: Option<(u16, u8, u8, u8, u8, u8)>,
    pub exif: Option<Vec<u8>>,
    pub icc: Option<Vec<u8>>,
    pub text: Vec<(Vec<u8>, Vec<u8>)>,
    pub ztxt: Vec<(Vec<u8>, Vec<u8>)>,
    /// keyword, language tag, translated keyword, text
    pub itxt: Vec<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)>
}
fn keyword(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(6) {
        0 => 1,
        1 => 79,
        2 => 78,
        _ => rng.range(1, 79)
    };
    (0..n).map(|_| rng.range(33, 126) as u8).collect()
}
pub fn exif_blob(rng: &mut Rng) -> Vec<u8> {
    let mut e = if rng.bool() { vec![73, 73, 42, 0, 8, 0, 0, 0, 0, 0] } else { vec![77, 77, 0, 42, 0, 0, 0, 8, 0, 0] };
    let n = match rng.below(4) {
        0 => 0,
        1 => rng.below(5000),
        _ => rng.below(100)
    };
    e.extend(rng.bytes(n));
    e
}
impl Meta {
    /// `lang`: also use non-empty iTXt language tags and translated keywords
    pub fn random(rng: &mut Rng, lang: bool) -> Meta {
        let mut m = Meta::default();
        if rng.bool() {
            m.gamma = Some(*rng.pick(&[45455, 100000, 1, 220000, 55555, 4_000_000]));
        }
        if rng.bool() {
            m.time = Some((rng.u16(), rng.range(1, 12) as u8, rng.range(1, 31) as u8, rng.below(24) as u8, rng.below(60) as u8, rng.below(61) as u8));
        }
        if rng.bool() {
            m.exif = Some(exif_blob(rng));
        }
        if rng.bool() {
            let n = *rng.pick(&[1, 2, 128, 500, 3000, 70000]);
            m.icc = Some(rng.texture(n));
        }
        for _ in 0..rng.below(4) {
            let n = rng.below(200);
            let k = keyword(rng);
            m.text.push((k, (0..n).map(|_| rng.range(1, 255) as u8).collect()));
        }
        for _ in 0..rng.below(3) {
            let n = rng.below(2000);
            let k = keyword(rng);
            m.ztxt.push((k, rng.texture(n)));
        }
        for _ in 0..rng.below(3) {
            let n = rng.below(200);
            let k = keyword(rng);
            let (l, t) = if lang && rng.bool() { (b"en-GB".to_vec(), "Schlüssel".as_bytes().to_vec()) } else { (vec![], vec![]) };
            m.itxt.push((k, l, t, (0..n).map(|_| rng.range(32, 126) as u8).collect()));
        }
        m
    }
    /// chunks allowed before PLTE/IDAT, and chunks allowed anywhere
    pub fn chunks(&self, rng: &mut Rng) -> (Vec<Chunk>, Vec<Chunk>) {
        let (mut early, mut any) = (vec![], vec![]);
        if let Some(g) = self.gamma {
            early.push(chunk(b"gAMA", g.to_be_bytes().to_vec()));
        }
        if let Some(i) = &self.icc {
            let mut d = keyword(rng);
            d.push(0);
            d.push(0);
            d.extend(zlib(rng, i));
            early.push(chunk(b"iCCP", d));
        }
        if let Some(t) = self.time {
            let mut d = t.0.to_be_bytes().to_vec();
            d.extend([t.1, t.2, t.3, t.4, t.5]);
            any.push(chunk(b"tIME", d));
        }
        if let Some(e) = &self.exif {
            any.push(chunk(b"eXIf", e.clone()));
        }
        for (k, t) in &self.text {
            any.push(chunk(b"tEXt", [k.as_slice(), &[0], t].concat()));
        }
        for (k, t) in &self.ztxt {
            let z = zlib(rng, t);
            any.push(chunk(b"zTXt", [k.as_slice(), &[0, 0], &z].concat()));
        }
        for (k, l, tk, t) in &self.itxt {
            any.push(chunk(b"iTXt", [k.as_slice(), &[0, 0, 0], l, &[0], tk, &[0], t].concat()));
        }
        (early, any)
    }
}
pub fn noise_chunks(rng: &mut Rng) -> Vec<Chunk> {
    let mut v = vec![];
    for _ in 0..rng.below(3) {
        let n: &[u8; 4] = *rng.pick(&[b"pHYs", b"sRGB", b"cHRM", b"bKGD", b"zzZz", b"sBIT", b"vpAg", b"tESt"]);
        let l = match n {
            b"pHYs" => 9,
            b"sRGB" => 1,
            b"cHRM" => 32,
            _ => rng.below(60)
        };
        v.push(chunk(n, rng.bytes(l)));
    }
    v
}

#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub img: Img,
    pub palette: Vec<[u8; 3]>,
    /// palette alphas, or the key samples
    pub trns: Option<Vec<u16>>,
    pub interlace: bool,
    pub meta: Meta
}
#[derive(Clone, Copy)]
pub struct Opt {
    pub max_dim: usize,
    pub interlace: Option<bool>,
    pub meta: bool
}
impl Spec {
    pub fn random(rng: &mut Rng, o: Opt) -> Spec {
        let (ct, depth) = *rng.pick(&KINDS);
        let w = rng.dim(o.max_dim);
        let h = rng.dim(o.max_dim);
        Spec::random_of(rng, ct, depth, w, h, o)
    }
    pub fn random_of(rng: &mut Rng, ct: u8, depth: u8, w: usize, h: usize, o: Opt) -> Spec {
        let mut palette: Vec<[u8; 3]> = vec![];
        if ct == 3 {
            let n = if rng.one_in(3) { 1 << depth } else { rng.range(1, 1 << depth) };
            palette = (0..n).map(|_| [rng.u8(), rng.u8(), rng.u8()]).collect();
        } else if (ct == 2 || ct == 6) && rng.one_in(6) {
            // suggested palette
            palette = (0..rng.range(1, 256)).map(|_| [rng.u8(), rng.u8(), rng.u8()]).collect();
        }
        let img = Img::random(rng, w, h, ct, depth, palette.len());
        let trns = match ct {
            0 | 2 if rng.one_in(3) => {
                let c = channels(ct);
                let p = rng.below(w * h);
                let mut k = img.samples[p * c..p * c + c].to_vec();
                if rng.one_in(4) {
                    let m = ((1u32 << depth) - 1) as u16;
                    k[0] = rng.u16() & m;
                }
                Some(k)
            }
            3 if rng.bool() => {
                let n = if rng.bool() { palette.len() } else { rng.range(1, palette.len()) };
                Some((0..n).map(|_| if rng.one_in(4) { 0 } else { rng.u8() as u16 }).collect())
            }
            _ => None
        };
        let interlace = o.interlace.unwrap_or_else(|| rng.one_in(3));
        let meta = if o.meta { Meta::random(rng, false) } else { Meta::default() };
        Spec { img, palette, trns, interlace, meta }
    }
    pub fn ihdr(&self) -> Chunk {
        let i = &self.img;
        let mut d = (i.w as u32).to_be_bytes().to_vec();
        d.extend((i.h as u32).to_be_bytes());
        d.extend([i.depth, i.ct, 0, 0, self.interlace as u8]);
        chunk(b"IHDR", d)
    }
    pub fn colour_chunks(&self) -> Vec<Chunk> {
        let mut v = vec![];
        if !self.palette.is_empty() {
            v.push(chunk(b"PLTE", self.palette.concat()));
        }
        if let Some(t) = &self.trns {
            let d = if self.img.ct == 3 { t.iter().map(|x| *x as u8).collect() } else { t.iter().flat_map(|x| x.to_be_bytes()).collect() };
            v.push(chunk(b"tRNS", d));
        }
        v
    }
    pub fn idat(&self, rng: &mut Rng) -> Vec<u8> {
        frame_data(rng, &self.img, self.interlace)
    }
    pub fn chunks(&self, rng: &mut Rng) -> Vec<Chunk> {
        let mut v = vec![self.ihdr()];
        let (early, any) = self.meta.chunks(rng);
        v.extend(early);
        let mut tail = vec![];
        let place_tail = rng.bool();
        let noise = noise_chunks(rng);
        if rng.bool() {
            v.extend(noise.clone());
        }
        v.extend(self.colour_chunks());
        for c in any {
            if place_tail && rng.bool() {
                tail.push(c);
            } else {
                v.push(c);
            }
        }
        let z = self.idat(rng);
        v.extend(split(rng, &z).into_iter().map(|d| chunk(b"IDAT", d)));
        v.extend(tail);
        v.push(chunk(b"IEND", vec![]));
        v
    }
    pub fn write(&self, rng: &mut Rng) -> Vec<u8> {
        assemble(&self.chunks(rng))
    }
    /// number of output channels
    pub fn out_channels(&self, add_alpha: bool) -> usize {
        let a = self.trns.is_some() || add_alpha;
        match (self.img.ct, a) {
            (0, false) => 1,
            (0, true) | (4, _) => 2,
            (2, false) | (3, false) => 3,
            _ => 4
        }
    }
    pub fn expected(&self, add_alpha: bool) -> Vec<u16> {
        self.expected_img(&self.img, add_alpha)
    }
    /// reference pixels of `i` under this file's palette and transparency, at depth 8 or 16
    pub fn expected_img(&self, i: &Img, add_alpha: bool) -> Vec<u16> {
        let c = channels(i.ct);
        let full: u16 = if i.depth == 16 { 0xffff } else { 0xff };
        let scale = |s: u16| if i.depth < 8 { (s as u32 * 255 / ((1 << i.depth) - 1)) as u16 } else { s };
        let mut o = vec![];
        for p in i.samples.chunks(c) {
            if i.ct == 3 {
                let e = self.palette[p[0] as usize];
                o.extend(e.iter().map(|x| *x as u16));
                if let Some(t) = &self.trns {
                    o.push(t.get(p[0] as usize).copied().unwrap_or(255));
                } else if add_alpha {
                    o.push(255);
                }
            } else {
                o.extend(p.iter().map(|s| scale(*s)));
                if c & 1 == 1 {
                    if let Some(t) = &self.trns {
                        o.push(if p == t { 0 } else { full });
                    } else if add_alpha {
                        o.push(full);
                    }
                }
            }
        }
        o
    }
}
pub fn frame_data(rng: &mut Rng, img: &Img, interlace: bool) -> Vec<u8> {
    let mode = rng.below(8);
    let mut r2 = Rng::new(rng.u64());
    let raw = img.scanlines(interlace, || if mode < 5 { mode as u8 } else { r2.below(5) as u8 });
    zlib(rng, &raw)
}

// ---------------------------------------------------------------- APNG
#[derive(Clone, Debug)]
pub struct Frame {
    pub img: Img,
    pub x: usize,
    pub y: usize,
    pub delay: (u16, u16),
    pub dispose: u8,
    pub blend: u8
}
#[derive(Clone, Debug)]
pub struct Anim {
    pub base: Spec,
    /// the default image is frame 0 when true
    pub default_is_frame: bool,
    pub frames: Vec<Frame>,
    pub plays: u32
}
impl Anim {
    pub fn random(rng: &mut Rng, max_dim: usize, kinds: &[(u8, u8)]) -> Anim {
        let (ct, depth) = *rng.pick(kinds);
        let (w, h) = (rng.dim(max_dim), rng.dim(max_dim));
        let mut base = Spec::random_of(rng, ct, depth, w, h, Opt { max_dim, interlace: None, meta: false });
        if ct != 3 {
            base.palette.clear();
        }
        let n = rng.range(1, 6);
        let default_is_frame = rng.one_in(4) == false;
        let mut frames = vec![];
        for i in 0..n {
            let whole = i == 0 || rng.one_in(3);
            let (x, y, fw, fh) = if whole {
                (0, 0, w, h)
            } else {
                let fw = rng.range(1, w);
                let fh = rng.range(1, h);
                (rng.range(0, w - fw), rng.range(0, h - fh), fw, fh)
            };
            let img = if i == 0 && default_is_frame { base.img.clone() } else { Img::random(rng, fw, fh, ct, depth, base.palette.len()) };
            frames.push(Frame { img, x, y, delay: (rng.u16(), rng.u16()), dispose: rng.below(3) as u8, blend: rng.below(2) as u8 });
        }
        Anim { base, default_is_frame, frames, plays: if rng.bool() { 0 } else { rng.u32() >> rng.below(31) } }
    }
    pub fn write(&self, rng: &mut Rng, noise: bool) -> Vec<u8> {
        let mut v = vec![self.base.ihdr()];
        let mut actl = (self.frames.len() as u32).to_be_bytes().to_vec();
        actl.extend(self.plays.to_be_bytes());
        let early = rng.bool();
        if early {
            v.push(chunk(b"acTL", actl.clone()));
        }
        v.extend(self.base.colour_chunks());
        if !early {
            v.push(chunk(b"acTL", actl));
        }
        let mut seq = 0u32;
        let fctl = |f: &Frame, seq: &mut u32| {
            let mut d = seq.to_be_bytes().to_vec();
            *seq += 1;
            for x in [f.img.w, f.img.h, f.x, f.y] {
                d.extend((x as u32).to_be_bytes());
            }
            d.extend(f.delay.0.to_be_bytes());
            d.extend(f.delay.1.to_be_bytes());
            d.extend([f.dispose, f.blend]);
            chunk(b"fcTL", d)
        };
        let txt = |rng: &mut Rng| {
            let n = rng.below(20);
            chunk(b"tEXt", [b"k\0".to_vec(), vec![b'x'; n]].concat())
        };
        let mut it = self.frames.iter();
        if self.default_is_frame {
            let f = it.next().unwrap();
            v.push(fctl(f, &mut seq));
            if noise && rng.one_in(3) {
                v.push(txt(rng));
            }
        }
        let z = self.base.idat(rng);
        v.extend(split(rng, &z).into_iter().map(|d| chunk(b"IDAT", d)));
        for f in it {
            v.push(fctl(f, &mut seq));
            if noise && rng.one_in(3) {
                v.push(txt(rng));
            }
            let z = frame_data(rng, &f.img, self.base.interlace);
            for part in split(rng, &z) {
                let mut d = seq.to_be_bytes().to_vec();
                seq += 1;
                d.extend(part);
                v.push(chunk(b"fdAT", d));
            }
        }
        v.push(chunk(b"IEND", vec![]));
        assemble(&v)
    }
}
