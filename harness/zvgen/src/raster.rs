//! QOI, Netpbm, farbfeld, Radiance HDR, BMP and PSD writers with their reference models, written
//! from the format descriptions. Nothing here depends on the code under test.
use zvcore::Rng;

// ------------------------------------------------------------------ QOI
pub struct Qoi {
    pub w: usize,
    pub h: usize,
    pub ch: usize,
    pub cs: u8,
    /// RGBA always; alpha is 255 when ch == 3
    pub px: Vec<[u8; 4]>,
    pub file: Vec<u8>,
    /// offset of the end marker
    pub end: usize,
    pub ops: [u32; 6]
}
fn qhash(p: [u8; 4]) -> usize {
    (p[0] as usize * 3 + p[1] as usize * 5 + p[2] as usize * 7 + p[3] as usize * 11) % 64
}
/// pixels that move in the small and large steps QOI's operations are made for
pub fn qoi_pixels(rng: &mut Rng, n: usize, alpha: bool) -> Vec<[u8; 4]> {
    let mut v: Vec<[u8; 4]> = Vec::with_capacity(n);
    let mut p = if rng.bool() { [0, 0, 0, 255] } else { [rng.u8(), rng.u8(), rng.u8(), 255] };
    while v.len() < n {
        match rng.below(8) {
            0 => {
                let k = *rng.pick(&[1usize, 2, 61, 62, 63, 64, 124, 125, 200]);
                let k = k.min(n - v.len());
                v.extend(std::iter::repeat(p).take(k));
                continue;
            }
            1 if !v.is_empty() => {
                let back = rng.range(1, v.len().min(70));
                p = v[v.len() - back];
            }
            2 | 3 => {
                for c in p.iter_mut().take(3) {
                    *c = c.wrapping_add((rng.below(6) as u8).wrapping_sub(3));
                }
            }
            4 | 5 => {
                let g = rng.irange(-34, 34);
                let r = g + rng.irange(-10, 10);
                let b = g + rng.irange(-10, 10);
                for (c, d) in p.iter_mut().zip([r, g, b]) {
                    *c = c.wrapping_add(d as u8);
                }
            }
            6 if alpha => {
                p[3] = *rng.pick(&[0, 255, 254, 1, 128]);
                if rng.bool() {
                    p[0] = p[0].wrapping_add(1);
                }
            }
            _ => {
                p = [rng.u8(), rng.u8(), rng.u8(), p[3]];
            }
        }
        v.push(p);
    }
    v
}
impl Qoi {
    pub fn random(rng: &mut Rng, max: usize) -> Qoi {
        let (w, h) = (rng.dim(max), rng.dim(max));
        let ch = if rng.bool() { 3 } else { 4 };
        let px = qoi_pixels(rng, w * h, ch == 4);
        Qoi::write(rng, w, h, ch, px)
    }
    /// any valid choice of operations
    pub fn write(rng: &mut Rng, w: usize, h: usize, ch: usize, px: Vec<[u8; 4]>) -> Qoi {
        let cs = rng.below(2) as u8;
        let mut f = b"qoif".to_vec();
        f.extend((w as u32).to_be_bytes());
        f.extend((h as u32).to_be_bytes());
        f.extend([ch as u8, cs]);
        let mut ops = [0u32; 6];
        let mut table = [[0u8; 4]; 64];
        let mut known = [true; 64];
        let mut prev = [0, 0, 0, 255u8];
        let greedy = rng.one_in(3);
        let mut i = 0;
        while i < px.len() {
            let p = px[i];
            let mut cand = Vec::new();
            if p == prev {
                cand.push(5);
            }
            let hp = qhash(p);
            if known[hp] && table[hp] == p {
                cand.push(0);
            }
            let d = [p[0].wrapping_sub(prev[0]), p[1].wrapping_sub(prev[1]), p[2].wrapping_sub(prev[2])];
            let small = |x: u8| x.wrapping_add(2) < 4;
            if p[3] == prev[3] {
                if d.iter().all(|x| small(*x)) {
                    cand.push(1);
                }
                if d[1].wrapping_add(32) < 64 && d[0].wrapping_sub(d[1]).wrapping_add(8) < 16 && d[2].wrapping_sub(d[1]).wrapping_add(8) < 16 {
                    cand.push(2);
                }
                cand.push(3);
            }
            if ch == 4 || rng.one_in(8) {
                cand.push(4);
            }
            if cand.is_empty() {
                cand.push(4);
            }
            let op = if greedy { cand[0] } else { *rng.pick(&cand) };
            ops[op] += 1;
            match op {
                0 => f.push(hp as u8),
                1 => f.push(0x40 | d[0].wrapping_add(2) << 4 | d[1].wrapping_add(2) << 2 | d[2].wrapping_add(2)),
                2 => {
                    f.push(0x80 | d[1].wrapping_add(32));
                    f.push(d[0].wrapping_sub(d[1]).wrapping_add(8) << 4 | d[2].wrapping_sub(d[1]).wrapping_add(8));
                }
                3 => f.extend([0xfe, p[0], p[1], p[2]]),
                4 => {
                    f.push(0xff);
                    f.extend(p);
                }
                _ => {
                    let mut n = 1;
                    while i + n < px.len() && px[i + n] == p && n < 62 {
                        n += 1;
                    }
                    if !greedy && rng.one_in(4) {
                        n = rng.range(1, n);
                    }
                    f.push(0xc0 | (n - 1) as u8);
                    i += n - 1;
                    if table[hp] != p {
                        // whether a run stores its pixel differs between decoders
                        known[hp] = false;
                    }
                }
            }
            if op != 5 {
                table[hp] = p;
                known[hp] = true;
            }
            prev = p;
            i += 1;
        }
        let end = f.len();
        f.extend([0, 0, 0, 0, 0, 0, 0, 1]);
        Qoi { w, h, ch, cs, px, file: f, end, ops }
    }
    pub fn expected(&self) -> Vec<u8> {
        self.px.iter().flat_map(|p| p[..self.ch].to_vec()).collect()
    }
}

// ------------------------------------------------------------------ Netpbm
#[derive(Clone, Debug)]
pub enum PnmSamples {
    U8(Vec<u8>),
    U16(Vec<u16>),
    F32(Vec<f32>)
}
pub struct Pnm {
    pub w: usize,
    pub h: usize,
    pub ch: usize,
    pub kind: &'static str,
    pub maxval: u32,
    pub samples: PnmSamples,
    pub file: Vec<u8>,
    /// offset of the first pixel byte
    pub data: usize
}
/// bytes that a careless header reader takes for whitespace or comments
const WSLIKE: [u8; 8] = [b' ', b'\n', b'\t', b'\r', 0x0b, 0x0c, b'#', b'0'];
fn ws(rng: &mut Rng, comments: bool) -> Vec<u8> {
    let mut v = Vec::new();
    loop {
        if comments && rng.one_in(6) {
            v.push(b'#');
            for _ in 0..rng.below(12) {
                v.push(*rng.pick(b"abc 0123#\t=Z"));
            }
            v.push(b'\n');
        } else {
            v.push(*rng.pick(b" \n\t\r\n "));
        }
        if !rng.one_in(4) {
            break;
        }
    }
    v
}
impl Pnm {
    pub fn random(rng: &mut Rng, max: usize) -> Pnm {
        let kind = *rng.pick(&["P5", "P6", "P7", "Pf", "PF"]);
        let (w, h) = (rng.dim(max), rng.dim(max));
        let ch = match kind {
            "P5" | "Pf" => 1,
            "P6" | "PF" => 3,
            _ => rng.range(1, 4)
        };
        let n = w * h * ch;
        let mut f = kind.as_bytes().to_vec();
        let mut maxval = 0;
        let mut le = false;
        let samples;
        if kind == "Pf" || kind == "PF" {
            let v: Vec<f32> = (0..n)
                .map(|_| match rng.below(6) {
                    0 => f32::from_bits(rng.u32()),
                    1 => f32::from_bits(u32::from_ne_bytes([*rng.pick(&WSLIKE), *rng.pick(&WSLIKE), *rng.pick(&WSLIKE), *rng.pick(&WSLIKE)])),
                    2 => 0.0,
                    _ => rng.f32() * 4.0 - 1.0
                })
                .collect();
            le = rng.bool();
            f.push(*rng.pick(b"\n \t"));
            f.extend(w.to_string().bytes());
            f.push(*rng.pick(b" \n\t"));
            f.extend(h.to_string().bytes());
            f.push(*rng.pick(b"\n \t"));
            let sc = *rng.pick(&["1.0", "1", "2.5", "0.001", "1.000000"]);
            f.extend(format!("{}{sc}", if le { "-" } else { "" }).bytes());
            f.push(*rng.pick(b"\n\n\n \t"));
            samples = PnmSamples::F32(v);
        } else {
            maxval = *rng.pick(&[255u32, 255, 255, 65535, 65535, 1, 15, 100, 254, 256, 257, 1023, 4095, 65534]);
            if rng.one_in(8) {
                maxval = rng.range(1, 65535) as u32;
            }
            let wslike = rng.one_in(3);
            let vals: Vec<u32> = {
                let t = rng.texture(n);
                t.iter()
                    .map(|b| {
                        let v = if wslike && rng.one_in(2) { *rng.pick(&WSLIKE) as u32 * if maxval > 255 { 257 } else { 1 } } else if maxval > 255 { (*b as u32) << 8 | rng.u8() as u32 } else { *b as u32 };
                        if v <= maxval {
                            v
                        } else {
                            v % (maxval + 1)
                        }
                    })
                    .collect()
            };
            if kind == "P7" {
                f.push(b'\n');
                let mut lines = vec![
                    ("WIDTH", w.to_string()),
                    ("HEIGHT", h.to_string()),
                    ("DEPTH", ch.to_string()),
                    ("MAXVAL", maxval.to_string()),
                    ("TUPLTYPE", ["GRAYSCALE", "GRAYSCALE_ALPHA", "RGB", "RGB_ALPHA"][ch - 1].to_string()),
                ];
                for i in (1..lines.len()).rev() {
                    if rng.bool() {
                        let j = rng.below(i + 1);
                        lines.swap(i, j);
                    }
                }
                for (k, v) in lines {
                    if rng.one_in(5) {
                        f.extend(b"# a comment ENDHDR WIDTH 9\n");
                    }
                    if rng.one_in(8) {
                        f.push(b'\n');
                    }
                    f.extend(k.bytes());
                    f.extend(*rng.pick(&[&b" "[..], b" ", b" ", b"  ", b"\t", b" \t "]));
                    f.extend(v.bytes());
                    if rng.one_in(6) {
                        f.push(b' ');
                    }
                    f.push(b'\n');
                }
                f.extend(b"ENDHDR\n");
            } else {
                let cm = rng.bool();
                f.extend(ws(rng, cm));
                f.extend(w.to_string().bytes());
                f.extend(ws(rng, cm));
                f.extend(h.to_string().bytes());
                f.extend(ws(rng, cm));
                f.extend(maxval.to_string().bytes());
                f.push(*rng.pick(b"\n\n\n \t\r"));
            }
            samples = if maxval > 255 { PnmSamples::U16(vals.iter().map(|x| *x as u16).collect()) } else { PnmSamples::U8(vals.iter().map(|x| *x as u8).collect()) };
        }
        let data = f.len();
        match &samples {
            PnmSamples::U8(v) => f.extend(v),
            PnmSamples::U16(v) => v.iter().for_each(|x| f.extend(x.to_be_bytes())),
            PnmSamples::F32(v) => {
                // stored bottom row first
                for row in v.chunks(w * ch).rev() {
                    for x in row {
                        f.extend(if le { x.to_bits().to_le_bytes() } else { x.to_bits().to_be_bytes() });
                    }
                }
            }
        }
        Pnm { w, h, ch, kind, maxval, samples, file: f, data }
    }
}

// ------------------------------------------------------------------ farbfeld
pub fn farbfeld(rng: &mut Rng, max: usize) -> (usize, usize, Vec<u16>, Vec<u8>) {
    let (w, h) = (rng.dim(max), rng.dim(max));
    let a = rng.texture(w * h * 8);
    let v: Vec<u16> = a.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
    let mut f = b"farbfeld".to_vec();
    f.extend((w as u32).to_be_bytes());
    f.extend((h as u32).to_be_bytes());
    v.iter().for_each(|x| f.extend(x.to_be_bytes()));
    (w, h, v, f)
}

// ------------------------------------------------------------------ Radiance HDR
pub struct Hdr {
    pub w: usize,
    pub h: usize,
    pub column_major: bool,
    /// RGBE, in image (row) order
    pub px: Vec<[u8; 4]>,
    pub meta: Vec<(String, String)>,
    pub file: Vec<u8>,
    pub data: usize,
    pub modes: [u32; 3]
}
/// value of an RGBE pixel
pub fn rgbe(p: [u8; 4]) -> [f32; 3] {
    if p[3] == 0 {
        return [0.0; 3];
    }
    let s = 2f64.powi(p[3] as i32 - 136);
    [(p[0] as f64 * s) as f32, (p[1] as f64 * s) as f32, (p[2] as f64 * s) as f32]
}
fn rle_new(rng: &mut Rng, v: &[u8], f: &mut Vec<u8>) {
    let mut i = 0;
    let style = rng.below(3);
    while i < v.len() {
        let mut run = 1;
        while i + run < v.len() && v[i + run] == v[i] && run < 127 {
            run += 1;
        }
        let use_run = match style {
            0 => run >= 3,
            1 => rng.bool(),
            _ => run > 1 && rng.one_in(3)
        };
        if use_run {
            if rng.one_in(4) {
                run = rng.range(1, run);
            }
            f.extend([128 + run as u8, v[i]]);
            i += run;
        } else {
            let left = (v.len() - i).min(128);
            let n = match rng.below(3) {
                0 => left,
                1 => 1,
                _ => rng.range(1, left)
            };
            f.push(n as u8);
            f.extend(&v[i..i + n]);
            i += n;
        }
    }
}
fn rle_old(rng: &mut Rng, v: &[[u8; 4]], f: &mut Vec<u8>, mut i: usize) {
    while i < v.len() {
        f.extend(v[i]);
        let mut run = 0;
        while i + 1 + run < v.len() && v[i + 1 + run] == v[i] {
            run += 1;
        }
        i += 1;
        if run > 0 && !rng.one_in(4) {
            if rng.one_in(4) {
                run = rng.range(1, run);
            }
            i += run;
            f.extend([1, 1, 1, (run & 255) as u8]);
            if run > 255 {
                f.extend([1, 1, 1, (run >> 8 & 255) as u8]);
            }
        }
    }
}
impl Hdr {
    pub fn random(rng: &mut Rng, max: usize) -> Hdr {
        let (w, h) = if rng.one_in(12) { (rng.range(250, 700), rng.range(1, 3)) } else { (rng.dim(max), rng.dim(max)) };
        let column_major = rng.one_in(5);
        let (len, cnt) = if column_major { (h, w) } else { (w, h) };
        let n = w * h;
        let t = rng.texture(n * 3);
        let emode = rng.below(4);
        let e0 = rng.u8();
        let mut px: Vec<[u8; 4]> = (0..n)
            .map(|i| {
                let e = match emode {
                    0 => 128,
                    1 => e0,
                    2 => rng.u8(),
                    _ => *rng.pick(&[0, 1, 96, 97, 104, 120, 127, 128, 129, 136, 159, 160, 161, 191, 255])
                };
                [t[i * 3], t[i * 3 + 1], t[i * 3 + 2], e]
            })
            .collect();
        if rng.bool() {
            // long equal stretches
            for i in 1..n {
                if !rng.one_in(9) {
                    px[i] = px[i - 1];
                }
            }
        }
        for p in px.iter_mut() {
            if p[..3] == [1, 1, 1] {
                p[1] = 2;
            }
        }
        let mut f = if rng.bool() { b"#?RADIANCE\n".to_vec() } else { b"#?RGBE\n".to_vec() };
        let mut meta = Vec::new();
        for k in ["SOFTWARE", "FORMAT", "EXPOSURE", "GAMMA", "PRIMARIES", "VIEW", "x y"] {
            if rng.one_in(4) {
                f.extend(b"# a comment = not metadata\n");
            }
            if rng.one_in(6) {
                f.extend(b"oconv something without the sign\n");
            }
            if k != "FORMAT" && rng.one_in(2) {
                continue;
            }
            let v = match k {
                "FORMAT" => "32-bit_rle_rgbe".to_string(),
                "VIEW" => "rvu -vtv -vp 1 = 2 -vd a=b".to_string(),
                "x y" => "".to_string(),
                "EXPOSURE" => format!("{}", rng.f32()),
                _ => format!("v{} w", rng.u16())
            };
            if rng.one_in(4) {
                f.extend(format!("{k} = {v}\n").bytes());
            } else {
                f.extend(format!("{k}={v}\n").bytes());
            }
            meta.push((k.to_string(), v));
        }
        f.push(b'\n');
        f.extend(if column_major { format!("+X {w} -Y {h}\n") } else { format!("-Y {h} +X {w}\n") }.bytes());
        let data = f.len();
        let mut modes = [0; 3];
        for s in 0..cnt {
            let mut line: Vec<[u8; 4]> = (0..len).map(|i| if column_major { px[i * w + s] } else { px[s * w + i] }).collect();
            let newok = (8..=0x7fff).contains(&len);
            let mode = if newok { rng.below(3) } else { rng.below(2) };
            if mode < 2 && newok && line[0][0] == 2 && line[0][1] == 2 && line[0][2] < 128 {
                // would be read as the start of a new style scanline
                line[0][2] = 200;
                let at = if column_major { s } else { s * w };
                px[at] = line[0];
            }
            modes[mode] += 1;
            match mode {
                0 => line.iter().for_each(|p| f.extend(p)),
                1 => rle_old(rng, &line, &mut f, 0),
                _ => {
                    f.extend([2, 2, (len >> 8) as u8, len as u8]);
                    for k in 0..4 {
                        let comp: Vec<u8> = line.iter().map(|p| p[k]).collect();
                        rle_new(rng, &comp, &mut f);
                    }
                }
            }
        }
        Hdr { w, h, column_major, px, meta, file: f, data, modes }
    }
    pub fn expected(&self) -> Vec<f32> {
        self.px.iter().flat_map(|p| rgbe(*p)).collect()
    }
}

// ------------------------------------------------------------------ BMP
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BmpComp {
    Rgb,
    Rle8,
    Rle4,
    Fields
}
pub struct Bmp {
    pub w: usize,
    pub h: usize,
    pub hsize: u32,
    pub bpp: u16,
    pub comp: BmpComp,
    pub top_down: bool,
    pub masks: [u32; 4],
    /// channels of the expected output: 1 gray, 3 rgb, 4 rgba
    pub ch: usize,
    /// exact rationals are not available for masked channels: (value, max)
    pub expected: Vec<(u32, u32)>,
    pub icc: Option<Vec<u8>>,
    /// red, green, blue end points as stored
    pub primaries: Option<[[u32; 3]; 3]>,
    pub file: Vec<u8>,
    pub data: usize,
    /// end of the pixel data
    pub data_end: usize,
    pub undefined: bool,
    pub tags: Vec<&'static str>
}
fn put_rle(rng: &mut Rng, idx: &mut [Option<u8>], w: usize, h: usize, four: bool, tags: &mut Vec<&'static str>) -> Vec<u8> {
    // idx is top-down; coded bottom-up
    let mut f = Vec::new();
    let mut y = h; // rows left, the current one is y-1
    let mut x = 0;
    let allow_skip = rng.one_in(3);
    loop {
        let row = y - 1;
        if x >= w || (allow_skip && rng.one_in(12)) {
            // end of line
            for v in &mut idx[row * w + x.min(w)..(row + 1) * w] {
                *v = None;
                tags.push("short-line");
            }
            if row == 0 {
                if rng.bool() {
                    f.extend([0, 0]);
                    tags.push("eol-on-last-line");
                }
                f.extend([0, 1]);
                return f;
            }
            f.extend([0, 0]);
            y -= 1;
            x = 0;
            continue;
        }
        if allow_skip && rng.one_in(14) {
            let dx = rng.below((w - x).min(255).max(1));
            let dy = rng.below((row + 1).min(3));
            f.extend([0, 2, dx as u8, dy as u8]);
            tags.push("delta");
            for v in &mut idx[row * w + x..row * w + if dy == 0 { x + dx } else { w }] {
                *v = None;
            }
            for r in 1..=dy {
                let rr = row - r;
                let to = if r == dy { x + dx } else { w };
                for v in &mut idx[rr * w..rr * w + to] {
                    *v = None;
                }
            }
            x += dx;
            y -= dy;
            continue;
        }
        if allow_skip && rng.one_in(40) {
            for v in &mut idx[row * w + x..(row + 1) * w] {
                *v = None;
            }
            for v in &mut idx[..row * w] {
                *v = None;
            }
            f.extend([0, 1]);
            tags.push("early-end");
            return f;
        }
        let left = w - x;
        let at = row * w + x;
        let val = |k: usize| idx[at + k].unwrap();
        if rng.bool() {
            // encoded run
            let mut n = 1;
            if four {
                let (a, b) = (val(0), if left > 1 { val(1) } else { 3 });
                while n < left && n < 255 && val(n) == if n & 1 == 0 { a } else { b } {
                    n += 1;
                }
                if rng.one_in(3) {
                    n = rng.range(1, n);
                }
                f.extend([n as u8, a << 4 | b]);
            } else {
                while n < left && n < 255 && val(n) == val(0) {
                    n += 1;
                }
                if rng.one_in(3) {
                    n = rng.range(1, n);
                }
                f.extend([n as u8, val(0)]);
            }
            x += n;
        } else if left >= 3 {
            let cap = if rng.bool() { 9 } else { 255 };
            let n = rng.range(3, left.min(cap));
            f.extend([0, n as u8]);
            tags.push("absolute");
            let mut b: Vec<u8> = if four { (0..n.div_ceil(2)).map(|i| val(2 * i) << 4 | if 2 * i + 1 < n { val(2 * i + 1) } else { 0 }).collect() } else { (0..n).map(val).collect() };
            if b.len() & 1 == 1 {
                b.push(0);
            }
            f.extend(b);
            x += n;
        }
    }
}
impl Bmp {
    pub fn random(rng: &mut Rng, max: usize) -> Bmp {
        let (w, h) = (rng.dim(max), rng.dim(max));
        let hsize = *rng.pick(&[12u32, 16, 40, 40, 40, 52, 56, 64, 108, 124]);
        let bpp = *rng.pick(&[1u16, 2, 4, 4, 8, 8, 16, 24, 32, 32]);
        Bmp::make(rng, w, h, hsize, bpp)
    }
    pub fn make(rng: &mut Rng, w: usize, h: usize, hsize: u32, bpp: u16) -> Bmp {
        let mut tags = Vec::new();
        let mut comp = BmpComp::Rgb;
        if bpp == 4 && hsize >= 40 && rng.bool() {
            comp = BmpComp::Rle4;
        } else if bpp == 8 && hsize >= 40 && rng.bool() {
            comp = BmpComp::Rle8;
        } else if (bpp == 16 || bpp == 32) && hsize >= 40 && hsize != 64 && rng.range(0, 2) > 0 {
            comp = BmpComp::Fields;
        }
        let rle = matches!(comp, BmpComp::Rle4 | BmpComp::Rle8);
        let top_down = !rle && hsize >= 40 && rng.one_in(3);
        let pal = bpp <= 8;
        // ---- masks
        let mut masks = [0u32; 4];
        if comp == BmpComp::Fields {
            let alpha_ok = hsize >= 56;
            let pool: &[[u32; 4]] = if bpp == 16 {
                &[
                    [0xf800, 0x7e0, 0x1f, 0],
                    [0x7c00, 0x3e0, 0x1f, 0],
                    [0x7c00, 0x3e0, 0x1f, 0x8000],
                    [0xf00, 0xf0, 0xf, 0xf000],
                    [0x1f, 0x7e0, 0xf800, 0],
                    [0xe000, 0x1c00, 0x300, 0xff],
                    [0x7, 0x38, 0x1c0, 0],
                    [0xc000, 0x3000, 0x0c00, 0x0300],
                    [0x7f00, 0xe0, 0x1f, 0x8000]
                ]
            } else {
                &[
                    [0xff0000, 0xff00, 0xff, 0xff000000],
                    [0xff0000, 0xff00, 0xff, 0],
                    [0xff, 0xff00, 0xff0000, 0xff000000],
                    [0xff000000, 0xff0000, 0xff00, 0xff],
                    [0x3ff00000, 0xffc00, 0x3ff, 0xc0000000],
                    [0x7c00, 0x3e0, 0x1f, 0x8000],
                    [0xfc000000, 0x3f0000, 0x7e00, 0x1ff],
                    [0x1, 0x6, 0x38, 0x3c0],
                    [0xffff0000, 0xfff0, 0xf, 0]
                ]
            };
            masks = *rng.pick(pool);
            if !alpha_ok {
                masks[3] = 0;
            }
        }
        // ---- palette
        let maxcol = if pal { 1usize << bpp } else { 0 };
        let gray8 = bpp == 8 && comp == BmpComp::Rgb && rng.one_in(8);
        let used = if !pal || gray8 {
            0
        } else if hsize >= 40 && rng.one_in(3) {
            rng.range(1, maxcol)
        } else {
            maxcol
        };
        let palette: Vec<[u8; 4]> = (0..used).map(|_| [rng.u8(), rng.u8(), rng.u8(), *rng.pick(&[0, 0, 255, 7])]).collect();
        // ---- pixels
        let t = rng.texture(w * h * 4);
        let mut expected = Vec::new();
        let mut ch = 3;
        let mut rows: Vec<Vec<u8>> = Vec::new();
        let mut body = Vec::new();
        let mut undefined = false;
        if pal {
            let lim = if gray8 { 256 } else { used };
            let mut idx: Vec<Option<u8>> = (0..w * h).map(|i| Some((t[i] as usize % lim) as u8)).collect();
            if rle && rng.bool() {
                for i in 1..idx.len() {
                    if !rng.one_in(6) {
                        idx[i] = idx[i - 1];
                    }
                }
            }
            if rle {
                body = put_rle(rng, &mut idx, w, h, comp == BmpComp::Rle4, &mut tags);
            } else {
                for y in 0..h {
                    let mut r = Vec::new();
                    let (mut acc, mut nb) = (0u32, 0);
                    for x in 0..w {
                        acc = acc << bpp | idx[y * w + x].unwrap() as u32;
                        nb += bpp;
                        if nb == 8 {
                            r.push(acc as u8);
                            acc = 0;
                            nb = 0;
                        }
                    }
                    if nb > 0 {
                        r.push((acc << (8 - nb)) as u8);
                    }
                    rows.push(r);
                }
            }
            for i in idx {
                if i.is_none() {
                    undefined = true;
                }
                let i = i.unwrap_or(0) as usize;
                if gray8 {
                    ch = 1;
                    expected.push((i as u32, 255));
                } else {
                    let p = palette[i];
                    expected.extend([(p[2] as u32, 255), (p[1] as u32, 255), (p[0] as u32, 255)]);
                }
            }
        } else if bpp == 24 {
            for y in 0..h {
                let mut r = Vec::new();
                for x in 0..w {
                    let p = &t[(y * w + x) * 4..];
                    r.extend(&p[..3]);
                    expected.extend([(p[2] as u32, 255), (p[1] as u32, 255), (p[0] as u32, 255)]);
                }
                rows.push(r);
            }
        } else {
            let m = if comp == BmpComp::Fields {
                masks
            } else if bpp == 16 {
                [31 << 10, 31 << 5, 31, 0]
            } else {
                [0xff0000, 0xff00, 0xff, 0]
            };
            ch = if bpp == 32 || comp == BmpComp::Fields { 4 } else { 3 };
            for y in 0..h {
                let mut r = Vec::new();
                for x in 0..w {
                    let p = &t[(y * w + x) * 4..];
                    let mut v = u32::from_le_bytes([p[0], p[1], p[2], p[3]]);
                    if bpp == 16 {
                        v &= 0xffff;
                        r.extend((v as u16).to_le_bytes());
                    } else {
                        r.extend(v.to_le_bytes());
                    }
                    for (k, mk) in m.iter().enumerate().take(ch) {
                        if *mk == 0 {
                            // absent alpha is opaque
                            expected.push(if k == 3 { (255, 255) } else { (0, 255) });
                        } else {
                            expected.push(((v & mk) >> mk.trailing_zeros(), mk >> mk.trailing_zeros()));
                        }
                    }
                }
                rows.push(r);
            }
        }
        if !rle {
            let pad_with_junk = rng.bool();
            let order: Vec<usize> = if top_down { (0..h).collect() } else { (0..h).rev().collect() };
            for y in order {
                body.extend(&rows[y]);
                while body.len() % 4 != 0 {
                    body.push(if pad_with_junk { rng.u8() } else { 0 });
                }
            }
        }
        // ---- file
        let extra_masks = if comp == BmpComp::Fields && hsize == 40 { 12 } else { 0 };
        let entry = if hsize == 12 { 3 } else { 4 };
        // no gap where it would look like a palette
        let gap = if rng.one_in(4) && !gray8 { rng.below(9) } else { 0 };
        let data = 14 + hsize as usize + extra_masks + used * entry + gap;
        let mut f = b"BM".to_vec();
        f.extend(((data + body.len()) as u32).to_le_bytes());
        f.extend([0; 4]);
        f.extend((data as u32).to_le_bytes());
        let mut icc = None;
        let mut primaries = None;
        f.extend(hsize.to_le_bytes());
        if hsize == 12 {
            f.extend((w as u16).to_le_bytes());
            f.extend((h as u16).to_le_bytes());
            f.extend(1u16.to_le_bytes());
            f.extend(bpp.to_le_bytes());
        } else {
            f.extend((w as u32).to_le_bytes());
            f.extend((if top_down { -(h as i32) } else { h as i32 }).to_le_bytes());
            f.extend(1u16.to_le_bytes());
            f.extend(bpp.to_le_bytes());
            if hsize >= 40 {
                f.extend(match comp {
                    BmpComp::Rgb => 0u32,
                    BmpComp::Rle8 => 1,
                    BmpComp::Rle4 => 2,
                    BmpComp::Fields => 3
                }
                .to_le_bytes());
                let size = if rle || rng.bool() { body.len() as u32 } else { 0 };
                f.extend(size.to_le_bytes());
                f.extend(2835u32.to_le_bytes());
                f.extend(2835u32.to_le_bytes());
                f.extend((if used == maxcol && rng.bool() { 0 } else { used as u32 }).to_le_bytes());
                f.extend(0u32.to_le_bytes());
            }
            if hsize == 64 {
                f.extend(rng.bytes(24));
            } else if hsize >= 52 {
                for m in &masks[..3] {
                    f.extend(m.to_le_bytes());
                }
                if hsize >= 56 {
                    f.extend(masks[3].to_le_bytes());
                }
            }
            if hsize == 108 || hsize == 124 {
                let embed = hsize == 124 && rng.bool();
                let calib = rng.bool();
                f.extend(if embed { 0x4D424544u32 } else if calib { 0 } else { 0x73524742 }.to_le_bytes());
                let mut pr = [[0u32; 3]; 3];
                for r in pr.iter_mut() {
                    for v in r.iter_mut() {
                        *v = rng.u32() >> 2;
                        f.extend(v.to_le_bytes());
                    }
                }
                primaries = Some(pr);
                f.extend([0; 12]);
                if hsize == 124 {
                    f.extend((*rng.pick(&[1u32, 2, 4, 8])).to_le_bytes());
                    if embed {
                        let n = rng.range(1, 300);
                        let b = rng.bytes(n);
                        let off = data + body.len() - 14;
                        f.extend((off as u32).to_le_bytes());
                        f.extend((b.len() as u32).to_le_bytes());
                        icc = Some(b);
                    } else {
                        f.extend([0; 8]);
                    }
                    f.extend([0; 4]);
                }
            }
        }
        assert_eq!(f.len(), 14 + hsize as usize);
        if extra_masks > 0 {
            for m in &masks[..3] {
                f.extend(m.to_le_bytes());
            }
        }
        for p in &palette {
            f.extend(&p[..entry]);
        }
        f.extend(rng.bytes(gap));
        assert_eq!(f.len(), data);
        f.extend(&body);
        let data_end = f.len();
        if let Some(i) = &icc {
            f.extend(i);
        }
        if undefined {
            tags.push("undefined-pixels");
        }
        if gray8 {
            tags.push("gray8");
        }
        Bmp { w, h, hsize, bpp, comp, top_down, masks, ch, expected, icc, primaries, file: f, data, data_end, undefined, tags }
    }
}

// ------------------------------------------------------------------ PSD
pub struct Psd {
    pub w: usize,
    pub h: usize,
    /// 1 gray, 3 rgb, 4 cmyk
    pub mode: u16,
    pub file_ch: usize,
    pub depth: u16,
    pub rle: bool,
    /// planar samples, file_ch planes
    pub planes: Vec<Vec<u16>>,
    pub file: Vec<u8>,
    pub data: usize
}
fn packbits(rng: &mut Rng, row: &[u8]) -> Vec<u8> {
    let mut f = Vec::new();
    let mut i = 0;
    while i < row.len() {
        if rng.one_in(20) {
            f.push(128);
        }
        let mut run = 1;
        while i + run < row.len() && row[i + run] == row[i] && run < 128 {
            run += 1;
        }
        if run >= 2 && rng.range(0, 3) > 0 {
            if rng.one_in(4) {
                run = rng.range(2, run);
            }
            f.extend([(257 - run) as u8, row[i]]);
            i += run;
        } else {
            let n = rng.range(1, (row.len() - i).min(128));
            f.push((n - 1) as u8);
            f.extend(&row[i..i + n]);
            i += n;
        }
    }
    f
}
impl Psd {
    pub fn random(rng: &mut Rng, max: usize) -> Psd {
        let (w, h) = (rng.dim(max), rng.dim(max));
        let mode = *rng.pick(&[1u16, 1, 3, 3, 3, 4]);
        let file_ch = match mode {
            1 => *rng.pick(&[1usize, 1, 2, 3]),
            3 => *rng.pick(&[3usize, 4]),
            _ => 4
        };
        let depth = *rng.pick(&[8u16, 8, 16]);
        let rle = depth == 8 && rng.range(0, 2) > 0;
        let planes: Vec<Vec<u16>> = (0..file_ch)
            .map(|c| {
                let a = rng.texture(w * h);
                let b = rng.texture(w * h);
                let ext = c == 3 && rng.one_in(2);
                (0..w * h)
                    .map(|i| {
                        let max = if depth == 16 { 65535 } else { 255 };
                        if ext && a[i] & 3 != 0 {
                            return if a[i] & 4 == 0 { 0 } else { max };
                        }
                        if depth == 16 {
                            (a[i] as u16) << 8 | b[i] as u16
                        } else {
                            a[i] as u16
                        }
                    })
                    .collect()
            })
            .collect();
        let mut f = b"8BPS".to_vec();
        f.extend(1u16.to_be_bytes());
        f.extend([0; 6]);
        f.extend((file_ch as u16).to_be_bytes());
        f.extend((h as u32).to_be_bytes());
        f.extend((w as u32).to_be_bytes());
        f.extend(depth.to_be_bytes());
        f.extend(mode.to_be_bytes());
        for _ in 0..3 {
            let n = if rng.bool() { 0 } else { rng.below(200) };
            f.extend((n as u32).to_be_bytes());
            f.extend(rng.bytes(n));
        }
        f.extend((rle as u16).to_be_bytes());
        let data = f.len();
        if rle {
            let mut counts = Vec::new();
            let mut body = Vec::new();
            for p in &planes {
                for row in p.chunks(w) {
                    let r: Vec<u8> = row.iter().map(|x| *x as u8).collect();
                    let e = packbits(rng, &r);
                    counts.extend((e.len() as u16).to_be_bytes());
                    body.extend(e);
                }
            }
            f.extend(counts);
            f.extend(body);
        } else {
            for p in &planes {
                for v in p {
                    if depth == 16 {
                        f.extend(v.to_be_bytes());
                    } else {
                        f.push(*v as u8);
                    }
                }
            }
        }
        Psd { w, h, mode, file_ch, depth, rle, planes, file: f, data }
    }
    pub fn out_ch(&self) -> usize {
        if self.mode == 1 {
            1
        } else {
            self.file_ch
        }
    }
    pub fn interleaved(&self) -> Vec<u16> {
        let c = self.out_ch();
        let n = self.w * self.h;
        let mut v = Vec::with_capacity(n * c);
        for i in 0..n {
            for p in &self.planes[..c] {
                v.push(p[i]);
            }
        }
        v
    }
}
