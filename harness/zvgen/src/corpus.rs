//! Valid files of every image format, and format-aware damage.
use crate::{deflate, jpeg, png, raster};
use zvcore::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fmt {
    Png,
    Apng,
    Jpeg,
    Bmp,
    Qoi,
    Pnm,
    Farbfeld,
    Hdr,
    Psd
}
pub const FMTS: [Fmt; 9] = [Fmt::Png, Fmt::Apng, Fmt::Jpeg, Fmt::Bmp, Fmt::Qoi, Fmt::Pnm, Fmt::Farbfeld, Fmt::Hdr, Fmt::Psd];
impl Fmt {
    pub fn name(self) -> &'static str {
        match self {
            Fmt::Png => "png",
            Fmt::Apng => "apng",
            Fmt::Jpeg => "jpeg",
            Fmt::Bmp => "bmp",
            Fmt::Qoi => "qoi",
            Fmt::Pnm => "pnm",
            Fmt::Farbfeld => "farbfeld",
            Fmt::Hdr => "hdr",
            Fmt::Psd => "psd"
        }
    }
    pub fn dir(self) -> Option<&'static str> {
        match self {
            Fmt::Png | Fmt::Apng => Some("png"),
            Fmt::Jpeg => Some("jpeg"),
            Fmt::Bmp => Some("bmp"),
            Fmt::Qoi => Some("qoi"),
            Fmt::Hdr => Some("hdr"),
            Fmt::Psd => Some("psd"),
            _ => None
        }
    }
}
pub struct File {
    pub fmt: Fmt,
    pub w: usize,
    pub h: usize,
    pub bytes: Vec<u8>,
    pub what: String,
    /// [start, end) of bytes that all carry pixels: a prefix that stops inside it is incomplete
    pub span: Option<(usize, usize)>
}
pub fn valid(rng: &mut Rng, fmt: Fmt, max: usize) -> File {
    let mut span = None;
    let (w, h, bytes, what) = match fmt {
        Fmt::Png => {
            let meta = rng.one_in(3);
            let s = png::Spec::random(rng, png::Opt { max_dim: max, interlace: None, meta });
            let b = s.write(rng);
            (s.img.w, s.img.h, b, format!("png ct {} depth {} interlace {}", s.img.ct, s.img.depth, s.interlace))
        }
        Fmt::Apng => {
            let a = png::Anim::random(rng, max.min(24), &png::KINDS);
            let noise = rng.bool();
            let b = a.write(rng, noise);
            (a.base.img.w, a.base.img.h, b, format!("apng ct {} depth {} frames {}", a.base.img.ct, a.base.img.depth, a.frames.len()))
        }
        Fmt::Jpeg => {
            let o = jpeg::Opt { max_dim: max, odd_sampling: rng.one_in(8), ..Default::default() };
            let j = jpeg::Jpeg::random(rng, o);
            let b = j.write(rng);
            if let Some(e) = b.windows(2).rposition(|x| x == [0xFF, 0xD9]) {
                let mut e = e;
                while e > 0 && b[e - 1] == 0xFF {
                    e -= 1;
                }
                if let Some(s) = b[..e].windows(2).position(|x| x == [0xFF, 0xDA]) {
                    span = Some((s, e));
                }
            }
            (j.w, j.h, b, j.describe())
        }
        Fmt::Bmp => {
            let b = raster::Bmp::random(rng, max);
            if matches!(b.comp, raster::BmpComp::Rgb | raster::BmpComp::Fields) && b.data_end > b.data + 4 {
                span = Some((b.data, b.data_end - 3));
            }
            (b.w, b.h, b.file.clone(), format!("bmp header {} bpp {}", b.hsize, b.bpp))
        }
        Fmt::Qoi => {
            let q = raster::Qoi::random(rng, max);
            span = Some((14, q.end));
            (q.w, q.h, q.file, format!("qoi {}", q.ch))
        }
        Fmt::Pnm => {
            let p = raster::Pnm::random(rng, max);
            span = Some((p.data, p.file.len()));
            (p.w, p.h, p.file, "pnm".to_string())
        }
        Fmt::Farbfeld => {
            let (w, h, _, f) = raster::farbfeld(rng, max);
            span = Some((16, f.len()));
            (w, h, f, "farbfeld".to_string())
        }
        Fmt::Hdr => {
            let p = raster::Hdr::random(rng, max);
            span = Some((p.data, p.file.len()));
            (p.w, p.h, p.file, "hdr".to_string())
        }
        Fmt::Psd => {
            let p = raster::Psd::random(rng, max);
            if p.mode == 1 && !p.rle {
                span = Some((p.data, p.data + p.w * p.h * p.depth as usize / 8));
            } else if p.rle && p.file_ch == p.out_ch() {
                span = Some((p.data, p.file.len()));
            }
            (p.w, p.h, p.file, "psd".to_string())
        }
    };
    let what = format!("{w}x{h} {what}");
    File { fmt, w, h, bytes, what, span }
}
fn interesting(rng: &mut Rng) -> u32 {
    *rng.pick(&[
        0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 64, 127, 128, 129, 254, 255, 256, 257, 1000, 1024, 4095, 4096, 16383, 16384, 16385, 32767, 32768, 65528, 65534, 65535, 65536, 0x00FF_FFFF,
        0x0100_0000, 0x7FFF_FFFE, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_FFF0, 0xFFFF_FFFE, 0xFFFF_FFFF
    ])
}
/// positions worth damaging: mostly the header
fn pos(rng: &mut Rng, n: usize) -> usize {
    if n == 0 {
        return 0;
    }
    match rng.below(4) {
        0 => rng.below(n),
        1 => rng.below(n.min(32)),
        2 => rng.below(n.min(128)),
        _ => rng.below(n.min(700))
    }
}
fn generic(rng: &mut Rng, b: &mut Vec<u8>) {
    let n = b.len();
    if n == 0 {
        *b = rng.bytes(5);
        return;
    }
    match rng.below(13) {
        0 | 1 => {
            let p = pos(rng, n);
            b[p] ^= 1 << rng.below(8);
        }
        2 => {
            let p = pos(rng, n);
            b[p] = rng.u8();
        }
        3 => {
            let p = pos(rng, n);
            b[p] = *rng.pick(&[0, 1, 0x7F, 0x80, 0xFE, 0xFF]);
        }
        4 => {
            let p = pos(rng, n);
            let v = (interesting(rng) as u16).to_be_bytes();
            let v = if rng.bool() { v } else { [v[1], v[0]] };
            for (i, x) in v.iter().enumerate() {
                if p + i < n {
                    b[p + i] = *x;
                }
            }
        }
        5 | 6 => {
            let p = pos(rng, n);
            let v = interesting(rng);
            let v = if rng.bool() { v.to_be_bytes() } else { v.to_le_bytes() };
            for (i, x) in v.iter().enumerate() {
                if p + i < n {
                    b[p + i] = *x;
                }
            }
        }
        7 => {
            let p = rng.below(n + 1);
            b.truncate(p);
        }
        8 => {
            let p = pos(rng, n);
            let l = rng.range(1, 16).min(n - p);
            b.drain(p..p + l);
        }
        9 => {
            let p = pos(rng, n);
            let l = rng.range(1, 24);
            let v = if rng.bool() { vec![rng.u8(); l] } else { rng.bytes(l) };
            b.splice(p..p, v);
        }
        10 => {
            let (p, q) = (pos(rng, n), pos(rng, n));
            let l = rng.range(1, 64).min(n - p).min(n - q);
            let v = b[p..p + l].to_vec();
            if rng.bool() {
                b.splice(q..q, v);
            } else {
                b[q..q + l].copy_from_slice(&v);
            }
        }
        11 => {
            let p = pos(rng, n);
            let l = rng.range(1, 40).min(n - p);
            for x in &mut b[p..p + l] {
                *x = rng.u8();
            }
        }
        _ => {
            let l = rng.range(1, 40);
            let v = rng.bytes(l);
            b.extend(v);
        }
    }
}
fn fix_png_crc(b: &mut [u8]) {
    let mut p = 8;
    while p + 12 <= b.len() {
        let l = u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize;
        if l > b.len() || p + 12 + l > b.len() {
            break;
        }
        let c = deflate::crc32(&b[p + 4..p + 8 + l]).to_be_bytes();
        b[p + 8 + l..p + 12 + l].copy_from_slice(&c);
        p += 12 + l;
    }
}
fn png_damage(rng: &mut Rng, b: &mut Vec<u8>) {
    let t = png::chunk_table(b);
    if t.is_empty() {
        return generic(rng, b);
    }
    let (at, name, len) = *rng.pick(&t);
    let len = len.min(b.len());
    match rng.below(9) {
        // bytes inside one chunk
        0 | 1 | 2 => {
            if len > 0 {
                for _ in 0..rng.range(1, 3) {
                    let p = at + 8 + rng.below(len.min(40));
                    if p < b.len() {
                        b[p] = if rng.bool() { rng.u8() } else { *rng.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 0x7F, 0x80, 0xFF]) };
                    }
                }
            }
        }
        3 => {
            b.drain(at..(at + 12 + len).min(b.len()));
        }
        4 => {
            let c = b[at..(at + 12 + len).min(b.len())].to_vec();
            let (q, _, _) = *rng.pick(&t);
            b.splice(q..q, c);
        }
        // resize a chunk consistently
        5 => {
            let nl = match rng.below(4) {
                0 => 0,
                1 => rng.below(len + 1),
                2 => len + rng.range(1, 12),
                _ => rng.below(40)
            };
            let mut d = b[(at + 8).min(b.len())..(at + 8 + len).min(b.len())].to_vec();
            while d.len() < nl {
                d.push(rng.u8());
            }
            d.truncate(nl);
            let c = png::assemble(&[png::chunk(&name, d)]);
            b.splice(at..(at + 12 + len).min(b.len()), c[8..].to_vec());
        }
        // another kind of chunk with random data
        6 => {
            let n = *rng.pick(&[b"PLTE", b"tRNS", b"gAMA", b"iCCP", b"eXIf", b"tEXt", b"zTXt", b"iTXt", b"tIME", b"acTL", b"fcTL", b"fdAT", b"IDAT", b"IEND", b"IHDR", b"cICP", b"sBIT", b"bKGD", b"pHYs", b"hIST", b"sPLT"]);
            let l = *rng.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 13, 25, 26, 27, 31, 768, 800]);
            let d = if rng.bool() { rng.bytes(l) } else { vec![*rng.pick(&[0, 1, b'A', 255]); l] };
            let c = png::assemble(&[png::chunk(n, d)]);
            b.splice(at..at, c[8..].to_vec());
        }
        // 32-bit field
        7 => {
            if len >= 4 {
                let p = at + 8 + 4 * rng.below((len / 4).min(7));
                let v = interesting(rng).to_be_bytes();
                if p + 4 <= b.len() {
                    b[p..p + 4].copy_from_slice(&v);
                }
            }
        }
        _ => generic(rng, b)
    }
    if !rng.one_in(5) {
        fix_png_crc(b);
    }
}
fn jpeg_damage(rng: &mut Rng, b: &mut Vec<u8>) {
    // marker positions
    let mut m = vec![];
    let mut i = 2;
    while i + 4 <= b.len() {
        if b[i] == 0xFF && !matches!(b[i + 1], 0 | 0xFF | 0xD0..=0xD7) {
            m.push(i);
            if matches!(b[i + 1], 0xC0..=0xFE) && b[i + 1] != 0xD9 {
                i += 2 + u16::from_be_bytes([b[i + 2], b[i + 3]]) as usize;
                continue;
            }
        }
        i += 1;
    }
    if m.is_empty() {
        return generic(rng, b);
    }
    let at = *rng.pick(&m);
    let len = u16::from_be_bytes([b[at + 2], b[at + 3]]) as usize;
    let end = (at + 2 + len).min(b.len());
    match rng.below(9) {
        0 | 1 | 2 => {
            for _ in 0..rng.range(1, 3) {
                let p = at + 4 + rng.below(len.clamp(1, 24));
                if p < b.len() {
                    b[p] = if rng.bool() { rng.u8() } else { *rng.pick(&[0, 1, 2, 3, 4, 0x11, 0x12, 0x22, 0x24, 0x41, 0x44, 0x3F, 0x40, 0x7F, 0x80, 0xFF]) };
                }
            }
        }
        3 => {
            b.drain(at..end);
        }
        4 => {
            let c = b[at..end].to_vec();
            let q = *rng.pick(&m);
            b.splice(q..q, c);
        }
        5 => {
            let v = *rng.pick(&[0u16, 1, 2, 3, 4, 5, 6, 7, 8, 16, 20, 66, 67, 0x7FFF, 0xFFFF]);
            b[at + 2..at + 4].copy_from_slice(&v.to_be_bytes());
        }
        6 => b[at + 1] = *rng.pick(&[0xC0, 0xC1, 0xC2, 0xC3, 0xC4, 0xC5, 0xC9, 0xCA, 0xCC, 0xD0, 0xD8, 0xD9, 0xDA, 0xDB, 0xDC, 0xDD, 0xDE, 0xE0, 0xE1, 0xE2, 0xED, 0xEE, 0xFE, 0x01]),
        7 => {
            // entropy coded data: markers, stuffing, zeros
            let p = rng.range(end.min(b.len() - 1), b.len() - 1);
            let v: Vec<u8> = match rng.below(4) {
                0 => vec![0xFF, 0xD0 + rng.below(8) as u8],
                1 => vec![0xFF; rng.range(1, 5)],
                2 => vec![0; rng.range(1, 30)],
                _ => rng.bytes(10)
            };
            b.splice(p..p, v);
        }
        _ => generic(rng, b)
    }
}
fn text_damage(rng: &mut Rng, b: &mut Vec<u8>) {
    let n = b.len().min(80);
    if n == 0 {
        return;
    }
    let p = rng.below(n);
    let s = *rng.pick(&["0", "1", "-1", "65535", "65536", "4294967295", "4294967296", "18446744073709551615", "99999999999999999999", " ", "\n", "#", "# c\n", "\t", "x", "255", "+Y", "-Y", "+X", "-X", "\u{0}", "1e9", "1.5", "nan", "P7", "ENDHDR\n", "DEPTH 3\n", "MAXVAL 0\n", "TUPLTYPE RGB\n", "=", "WIDTH 0\n"]);
    match rng.below(3) {
        0 => {
            b.splice(p..p, s.bytes());
        }
        1 => {
            let e = (p + s.len()).min(b.len());
            b.splice(p..e, s.bytes());
        }
        _ => {
            // replace one number
            let mut e = p;
            while e < b.len() && b[e].is_ascii_digit() {
                e += 1;
            }
            b.splice(p..e, s.bytes());
        }
    }
}
pub fn damage(rng: &mut Rng, fmt: Fmt, b: &mut Vec<u8>) {
    let times = *rng.pick(&[1usize, 1, 1, 2, 2, 3, 5, 9]);
    for _ in 0..times {
        if rng.one_in(3) {
            generic(rng, b);
            continue;
        }
        match fmt {
            Fmt::Png | Fmt::Apng => png_damage(rng, b),
            Fmt::Jpeg => jpeg_damage(rng, b),
            Fmt::Pnm | Fmt::Hdr => text_damage(rng, b),
            _ => generic(rng, b)
        }
    }
}
/// Only the magic is right
pub fn magic_noise(rng: &mut Rng, fmt: Fmt) -> Vec<u8> {
    let mut b: Vec<u8> = match fmt {
        Fmt::Png | Fmt::Apng => vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10],
        Fmt::Jpeg => vec![0xFF, 0xD8, 0xFF],
        Fmt::Bmp => b"BM".to_vec(),
        Fmt::Qoi => b"qoif".to_vec(),
        Fmt::Pnm => vec![b'P', *rng.pick(b"567fF1234")],
        Fmt::Farbfeld => b"farbfeld".to_vec(),
        Fmt::Hdr => rng.pick(&["#?RADIANCE\n", "#?RGBE\n", "#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y "]).bytes().collect(),
        Fmt::Psd => b"8BPS\0\x01\0\0\0\0\0\0".to_vec()
    };
    let n = *rng.pick(&[0usize, 1, 3, 8, 20, 60, 300]);
    match rng.below(3) {
        0 => b.extend(rng.bytes(n)),
        1 => b.extend(std::iter::repeat(*rng.pick(&[0u8, 1, 255, b' ', b'0', b'\n'])).take(n)),
        _ => {
            for _ in 0..n {
                b.push(*rng.pick(&[0u8, 0, 0, 1, 1, 2, 4, 8, 16, 32, 40, 255, b'1', b' ', b'\n']));
            }
        }
    }
    b
}
/// small samples the repository ships
pub fn shipped(fmt: Fmt, max: u64) -> Vec<(String, Vec<u8>)> {
    let Some(d) = fmt.dir() else { return vec![] };
    let mut v = vec![];
    let mut todo = vec![std::path::PathBuf::from(format!("/repo/test-images/{d}"))];
    while let Some(p) = todo.pop() {
        let Ok(rd) = std::fs::read_dir(&p) else { continue };
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p);
            } else if e.metadata().map(|m| m.len() <= max && m.len() > 0).unwrap_or(false) {
                if let Ok(b) = std::fs::read(&p) {
                    v.push((p.to_string_lossy().to_string(), b));
                }
            }
        }
    }
    v.sort();
    v
}
