//! R03-R07: limits, caller buffers, header coherence, byte sources, faults.
use crate::dec::*;
use crate::robust::opts;
use std::io::{self, BufRead, BufReader, Cursor, Read, Seek, SeekFrom};
use std::sync::{atomic::{AtomicBool, Ordering::Relaxed}, Arc};
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::options::DecoderOptions;
use zvcore::alloc::measure;
use zvcore::{hash_bytes, Case, Rng};
use zvgen::corpus::*;

fn zc<'a>(f: Fmt, b: &'a [u8], o: DecoderOptions) -> Box<dyn Dec + 'a> {
    open(f, ZCursor::new(b), o)
}
/// options that never make a valid file fail
fn tame(c: &mut Case, fmt: Fmt) -> DecoderOptions {
    let mut o = opts(&mut c.rng, fmt).inflate_set_limit(1 << 28).jpeg_set_max_scans(2000);
    if fmt == Fmt::Jpeg {
        o = o.jpeg_set_out_colorspace(zune_core::colorspace::ColorSpace::RGB);
        if c.rng.one_in(3) {
            o = o.jpeg_set_out_colorspace(zune_core::colorspace::ColorSpace::RGBA);
        }
    }
    o
}
fn size(c: &mut Case) -> usize {
    if c.rng.one_in(10) {
        150
    } else {
        30
    }
}
// ------------------------------------------------------------------ R03
pub fn r03_reject(c: &mut Case) {
    let fmt = FMTS[c.idx as usize % FMTS.len()];
    let m = size(c);
    let f = valid(&mut c.rng, fmt, m);
    c.sample(|| f.what.clone());
    c.blob(&f.bytes);
    let o = tame(c, fmt);
    // what is accepted without limits stays accepted when the limits are exactly met
    let Some(free) = c.lib("decode", || run(&mut zc(fmt, &f.bytes, o))) else { return };
    let (gw, gh) = (c.rng.below(3), c.rng.below(3));
    let fit = o.set_max_width(f.w + gw).set_max_height(f.h + gh);
    let Some(inside) = c.lib("decode", || run(&mut zc(fmt, &f.bytes, fit))) else { return };
    c.check(free.same(&inside), &format!("limit-not-neutral:{}", fmt.name()), || format!("{}: limits {}x{}: {} instead of {}", f.what, f.w + gw, f.h + gh, inside.brief(), free.brief()));
    for k in 0..3 {
        let lw = if k != 1 { c.rng.below(f.w) } else { f.w + c.rng.below(100) };
        let lh = if k != 0 { c.rng.below(f.h) } else { f.h + c.rng.below(100) };
        let o = o.set_max_width(lw).set_max_height(lh);
        let api = c.rng.below(3);
        let r = c.lib("decode", || {
            measure(|| {
                let mut d = zc(fmt, &f.bytes, o);
                match api {
                    0 => d.headers().is_ok(),
                    1 => d.decode().is_ok(),
                    _ => d.decode_into(0, 0).map(|x| x.1.is_ok()).unwrap_or(false)
                }
            })
        });
        let Some((ok, peak, _)) = r else { return };
        c.check(!ok, &format!("limit-ignored:{}-{}", fmt.name(), ["width", "height", "both"][k]), || format!("{}: accepted with limits {lw}x{lh} (api {api})", f.what));
        c.check(peak < 1 << 20 || peak < f.bytes.len() * 8, &format!("reject-allocates:{}", fmt.name()), || format!("{}: {peak} bytes allocated to refuse", f.what));
        c.tag("over-limit");
        c.saw(hash_bytes(&f.bytes) ^ k as u64);
    }
}
/// patch the declared size
fn patch(f: &File, w: u64, h: u64) -> Option<Vec<u8>> {
    let mut b = f.bytes.clone();
    let find = |b: &[u8], pat: &[u8]| b.windows(pat.len()).position(|x| x == pat);
    match f.fmt {
        Fmt::Png | Fmt::Apng => {
            b[16..20].copy_from_slice(&(w as u32).to_be_bytes());
            b[20..24].copy_from_slice(&(h as u32).to_be_bytes());
            let crc = zvgen::deflate::crc32(&b[12..29]).to_be_bytes();
            b[29..33].copy_from_slice(&crc);
        }
        Fmt::Jpeg => {
            let at = (2..b.len() - 9).find(|i| b[*i] == 0xFF && matches!(b[i + 1], 0xC0..=0xC2) && b[i + 4] == 8 && b[i + 5..i + 9] == [(f.h >> 8) as u8, f.h as u8, (f.w >> 8) as u8, f.w as u8])?;
            b[at + 5..at + 7].copy_from_slice(&(h.min(65535) as u16).to_be_bytes());
            b[at + 7..at + 9].copy_from_slice(&(w.min(65535) as u16).to_be_bytes());
        }
        Fmt::Bmp => {
            let hs = u32::from_le_bytes(b[14..18].try_into().unwrap());
            if hs == 12 {
                b[18..20].copy_from_slice(&(w.min(65535) as u16).to_le_bytes());
                b[20..22].copy_from_slice(&(h.min(65535) as u16).to_le_bytes());
            } else {
                b[18..22].copy_from_slice(&(w as u32).to_le_bytes());
                b[22..26].copy_from_slice(&(h as u32).to_le_bytes());
            }
        }
        Fmt::Qoi => {
            b[4..8].copy_from_slice(&(w as u32).to_be_bytes());
            b[8..12].copy_from_slice(&(h as u32).to_be_bytes());
        }
        Fmt::Farbfeld => {
            b[8..12].copy_from_slice(&(w as u32).to_be_bytes());
            b[12..16].copy_from_slice(&(h as u32).to_be_bytes());
        }
        Fmt::Psd => {
            b[14..18].copy_from_slice(&(h as u32).to_be_bytes());
            b[18..22].copy_from_slice(&(w as u32).to_be_bytes());
        }
        Fmt::Pnm => {
            let k = b[1];
            let mut n = match k {
                b'7' => format!("P7\nWIDTH {w}\nHEIGHT {h}\nDEPTH 3\nMAXVAL 255\nTUPLTYPE RGB\nENDHDR\n"),
                b'5' | b'6' => format!("P{}\n{w} {h}\n255\n", k as char),
                _ => format!("P{}\n{w} {h}\n-1.0\n", k as char)
            }
            .into_bytes();
            n.extend(&f.bytes[f.bytes.len().saturating_sub(200)..]);
            b = n;
        }
        Fmt::Hdr => {
            let s = find(&b, b"\n\n")? + 2;
            let e = s + b[s..].iter().position(|x| *x == b'\n')?;
            let col = b[s + 1] == b'X';
            let l = if col { format!("+X {w} -Y {h}") } else { format!("-Y {h} +X {w}") };
            b.splice(s..e, l.bytes());
        }
    }
    Some(b)
}
pub fn r03_claims(c: &mut Case) {
    let fmt = FMTS[c.idx as usize % FMTS.len()];
    let f = valid(&mut c.rng, fmt, 20);
    let big = |r: &mut Rng| *r.pick(&[300u64, 5000, 16384, 16385, 30_000, 65_535, 65_536, 1 << 20, 1 << 24, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF]);
    for _ in 0..6 {
        let (w, h) = match c.rng.below(3) {
            0 => (big(&mut c.rng), c.rng.range(1, 200) as u64),
            1 => (c.rng.range(1, 200) as u64, big(&mut c.rng)),
            _ => (big(&mut c.rng), big(&mut c.rng))
        };
        let Some(b) = patch(&f, w, h) else {
            c.saw_trivial();
            continue;
        };
        c.blob(&b);
        let (lw, lh) = (*c.rng.pick(&[1usize, 64, 256]), *c.rng.pick(&[1usize, 64, 256]));
        let o = tame(c, fmt).set_max_width(lw).set_max_height(lh);
        let api = c.rng.below(3);
        let r = c.lib("decode", || {
            measure(|| {
                let mut d = zc(fmt, &b, o);
                match api {
                    0 => d.headers().is_ok(),
                    1 => d.decode().is_ok(),
                    _ => d.decode_into(0, 0).map(|x| x.1.is_ok()).unwrap_or(false)
                }
            })
        });
        let Some((ok, peak, _)) = r else { return };
        // a JPEG header holds 16 bits
        let hh = if fmt == Fmt::Bmp && h > 0x7FFF_FFFF { (1u64 << 32) - h } else { h };
        let over = w as usize > lw || hh as usize > lh;
        if over {
            c.check(!ok, &format!("claim-accepted:{}", fmt.name()), || format!("{w}x{h} accepted with limits {lw}x{lh}"));
            c.check(peak < (1 << 20) + b.len() * 8, &format!("claim-allocates:{}", fmt.name()), || format!("{w}x{h} with limits {lw}x{lh}: {peak} bytes allocated"));
            c.tag("claims-over-limit");
        }
        c.saw(hash_bytes(&b));
    }
}
/// what any file may cost under given limits
fn budget(fmt: Fmt, len: usize, w: usize, h: usize) -> usize {
    let inflate = if matches!(fmt, Fmt::Png | Fmt::Apng) { 1100 * 4 } else { 0 };
    (24 << 20) + len * (64 + inflate) + (w + 64) * (h + 64) * 96
}
pub fn r03_hostile(c: &mut Case) {
    let fmt = FMTS[c.idx as usize % FMTS.len()];
    let f = valid(&mut c.rng, fmt, 24);
    for _ in 0..8 {
        let mut b = f.bytes.clone();
        damage(&mut c.rng, fmt, &mut b);
        if c.rng.one_in(10) {
            b = magic_noise(&mut c.rng, fmt);
        }
        c.blob(&b);
        let (lw, lh) = (c.rng.range(24, 128), c.rng.range(24, 128));
        let o = opts(&mut c.rng, fmt).set_max_width(lw).set_max_height(lh);
        let into = c.rng.one_in(3);
        let r = c.lib("decode", || {
            measure(|| {
                let mut d = zc(fmt, &b, o);
                if into {
                    d.decode_into(0, 0);
                }
                let r = run(&mut d);
                (r.data.is_ok(), r.hdr.dim)
            })
        });
        let Some(((ok, dim), peak, largest)) = r else { return };
        c.check(peak < budget(fmt, b.len(), lw, lh), &format!("disproportionate:{}", fmt.name()), || format!("{peak} bytes at once, {largest} in one request, for a file of {} bytes with limits {lw}x{lh}", b.len()));
        if ok {
            if let Some((w, h)) = dim {
                c.check(w <= lw && h <= lh, &format!("over-limit-decoded:{}", fmt.name()), || format!("{w}x{h} decoded with limits {lw}x{lh}"));
            }
            c.tag("decoded");
        }
        c.saw(hash_bytes(&b));
    }
}
// ------------------------------------------------------------------ R04
/// an animation with frames that may differ from the canvas, and whose later chunks are only met frame by frame
fn frames(b: &[u8]) -> bool {
    b.starts_with(b"\x89PNG") && b.windows(4).any(|x| x == b"fcTL")
}
fn r04_one(c: &mut Case, fmt: Fmt, b: &[u8], what: &str, o: DecoderOptions, damaged: bool) {
    c.blob(b);
    let Some((want, hdr)) = c.lib("decode", || {
        let mut d = zc(fmt, b, o);
        (d.decode(), d.hdr())
    }) else {
        return;
    };
    if frames(b) {
        // the reported size is that of the canvas, a frame may be smaller
        c.tag("animated");
        if want.is_ok() {
            let (Some(n), Ok(d)) = (hdr.size, &want) else { return };
            c.check(d.len() * d.elem() <= n, "reported-size:apng-frame", || format!("{what}: {n} reported, {} delivered", d.len() * d.elem()));
            let Some(r) = c.lib("decode_into", || zc(fmt, b, o).decode_into(0, 0x5A)) else { return };
            if let Some((_, Err(e))) = r {
                c.fail("into-refuses:apng-frame", format!("{what}: {e}"));
            }
            c.saw(hash_bytes(b));
        }
        return;
    }
    let Ok(want) = want else {
        c.tag("refused");
        // then decode_into does not succeed either
        let Some(r) = c.lib("decode_into", || zc(fmt, b, o).decode_into(0, 0x5A)) else { return };
        if let Some((_, Ok(()))) = r {
            c.fail(format!("into-accepts:{}", fmt.name()), format!("{what}: decode refuses, decode_into does not"));
        }
        return;
    };
    let unit = if fmt == Fmt::Farbfeld || matches!(fmt, Fmt::Png | Fmt::Apng) { want.elem() } else { 1 };
    c.check(hdr.size == Some(want.len() * unit), &format!("reported-size:{}", fmt.name()), || format!("{what}: {:?} reported, {} delivered", hdr.size, want.len() * unit));
    // PNG counts bytes and writes native-endian samples
    let flat = matches!(fmt, Fmt::Png | Fmt::Apng);
    // ... PNG leaves 16-bit samples in the byte order asked for; decode gives native ones
    let wb = match (&want, flat, o.byte_endian() == zune_core::bit_depth::ByteEndian::BE) {
        (Data::U16(v), true, true) => v.iter().flat_map(|x| x.to_be_bytes()).collect(),
        (Data::U16(v), true, false) => v.iter().flat_map(|x| x.to_le_bytes()).collect(),
        _ => want.bytes()
    };
    let es = if flat { 1 } else { want.elem() };
    for extra in [0isize, c.rng.range(1, 90) as isize, -1, -(c.rng.range(1, 40) as isize)] {
        let fill = if c.rng.bool() { 0x5A } else { 0xC3 };
        let Some(r) = c.lib("decode_into", || zc(fmt, b, o).decode_into(extra, fill)) else { return };
        let Some((buf, r)) = r else { continue };
        let got = buf.bytes();
        if extra < 0 {
            c.check(r.is_err(), &format!("small-buffer-accepted:{}", fmt.name()), || format!("{what}: {} elements too few accepted", -extra));
            c.tag("too-small");
        } else {
            match r {
                Err(e) => c.fail(format!("into-refuses:{}", fmt.name()), format!("{what}: +{extra}: {e}")),
                Ok(()) => {
                    let n = wb.len().min(got.len());
                    // what a damaged file has no pixels for, decode makes zero and decode_into leaves alone
                    let left_alone = damaged && got[..n].iter().zip(&wb[..n]).all(|(a, b)| a == b || (*a == fill && *b == 0));
                    if left_alone && got[..n] != wb[..n] {
                        c.tag("partly-untouched");
                    }
                    c.check(got[..n] == wb[..n] || left_alone, &format!("into-differs:{}", fmt.name()), || format!("{what}: +{extra} fill {fill:#x}: {}", zvcore::diff_msg(&got[..n], &wb[..n])));
                    c.check(got.len() == wb.len() + extra as usize * es, &format!("into-size:{}", fmt.name()), || format!("{what}: {} {}", got.len(), wb.len()));
                    c.check(got[n..].iter().all(|x| *x == fill), &format!("into-writes-beyond:{}", fmt.name()), || format!("{what}: +{extra}: bytes beyond {n} changed"));
                    c.tag("decoded-into");
                }
            }
        }
    }
    c.saw(hash_bytes(b));
}
const INTO: [Fmt; 7] = [Fmt::Png, Fmt::Apng, Fmt::Jpeg, Fmt::Bmp, Fmt::Qoi, Fmt::Farbfeld, Fmt::Hdr];
pub fn r04_valid(c: &mut Case) {
    let fmt = INTO[c.idx as usize % INTO.len()];
    let m = size(c);
    let f = valid(&mut c.rng, fmt, m);
    c.sample(|| f.what.clone());
    let o = opts(&mut c.rng, fmt);
    r04_one(c, fmt, &f.bytes, &f.what, o, false);
}
pub fn r04_damaged(c: &mut Case) {
    let fmt = INTO[c.idx as usize % INTO.len()];
    let f = valid(&mut c.rng, fmt, 24);
    for _ in 0..6 {
        let mut b = f.bytes.clone();
        damage(&mut c.rng, fmt, &mut b);
        let o = opts(&mut c.rng, fmt).set_strict_mode(c.rng.one_in(4)).set_max_width(300).set_max_height(300);
        r04_one(c, fmt, &b, &f.what, o, true);
        if c.failed() {
            return;
        }
    }
}
// ------------------------------------------------------------------ R05
fn r05_one(c: &mut Case, fmt: Fmt, b: &[u8], what: &str, o: DecoderOptions, damaged: bool) {
    c.blob(b);
    let k = c.rng.range(1, 4);
    let asks = c.rng.bool();
    let r = c.lib("decode", || {
        let mut fresh = zc(fmt, b, o);
        let before = fresh.hdr();
        let mut d1 = zc(fmt, b, o);
        let plain = run(&mut d1);
        let mut d2 = zc(fmt, b, o);
        let mut hs = vec![];
        for _ in 0..k {
            let r = d2.headers();
            hs.push((r.is_ok(), d2.hdr(), d2.meta()));
            if r.is_err() {
                // what follows a refusal is nobody's promise
                break;
            }
            if asks {
                d2.poke();
            }
        }
        let after = run(&mut d2);
        let again = run(&mut zc(fmt, b, o));
        let only = {
            let r = fresh.headers();
            (r.is_ok(), fresh.hdr(), fresh.meta())
        };
        (before, plain, hs, after, again, only)
    });
    let Some((before, plain, hs, after, again, only)) = r else { return };
    let n = fmt.name();
    c.check(before.dim.is_none() && before.size.is_none() && (fmt == Fmt::Farbfeld || before.cs.is_none()), &format!("answers-before-headers:{n}"), || format!("{before:?}"));
    c.check(plain.same(&again) && format!("{:?}", plain.data) == format!("{:?}", again.data), &format!("not-repeatable:{n}"), || format!("{what}: {} / {}", plain.brief(), again.brief()));
    let anim = frames(b);
    let refused = hs.iter().any(|h| !h.0);
    c.check(refused || plain.same(&after) || (anim && damaged), &format!("headers-first-differs:{n}"), || format!("{what}: headers read {k} times: {} / {}", after.brief(), plain.brief()));
    if let Ok(d) = &plain.data {
        for h in hs.iter().chain(std::iter::once(&only)) {
            if anim && damaged {
                break;
            }
            c.check(h.0, &format!("headers-refused:{n}"), || format!("{what}: decode_headers fails but decode works"));
            c.check(h.1 == plain.hdr, &format!("header-vs-decode:{n}"), || format!("{what}: {:?} / {:?}", h.1, plain.hdr));
            if fmt != Fmt::Jpeg && fmt != Fmt::Png && fmt != Fmt::Apng {
                c.check(h.2 == plain.meta, &format!("header-meta-vs-decode:{n}"), || format!("{what}: {} / {}", h.2, plain.meta));
            }
        }
        let h = plain.hdr;
        match (h.dim, h.cs) {
            (Some((w, hh)), Some(cs)) => {
                let want = w * hh * cs.num_components();
                c.check(if anim { d.len() <= want } else { d.len() == want }, &format!("samples-delivered:{n}"), || format!("{what}: {} samples for {w}x{hh} {cs:?}", d.len()));
            }
            _ => c.fail(format!("no-answers-after-decode:{n}"), format!("{what}: {h:?}"))
        }
        let e = d.elem();
        if let Some(bd) = h.depth {
            let want = match bd {
                BitDepth::Eight => 1,
                BitDepth::Sixteen => 2,
                _ => 4
            };
            c.check(e == want, &format!("depth-delivered:{n}"), || format!("{what}: {bd:?} reported, {e} bytes a sample"));
        }
        c.tag("decoded");
    } else {
        c.tag("refused");
    }
    c.saw(hash_bytes(b));
}
pub fn r05_valid(c: &mut Case) {
    let fmt = FMTS[c.idx as usize % FMTS.len()];
    let m = size(c);
    let f = valid(&mut c.rng, fmt, m);
    c.sample(|| f.what.clone());
    let o = opts(&mut c.rng, fmt);
    r05_one(c, fmt, &f.bytes, &f.what, o, false);
}
pub fn r05_damaged(c: &mut Case) {
    let fmt = FMTS[c.idx as usize % FMTS.len()];
    let f = valid(&mut c.rng, fmt, 24);
    for _ in 0..5 {
        let mut b = f.bytes.clone();
        damage(&mut c.rng, fmt, &mut b);
        let o = opts(&mut c.rng, fmt).set_max_width(300).set_max_height(300);
        r05_one(c, fmt, &b, &f.what, o, true);
        if c.failed() {
            return;
        }
    }
}
// ------------------------------------------------------------------ R06 sources
/// hands out pieces of random size, sometimes asks to be called again
pub struct Choppy {
    b: Vec<u8>,
    p: u64,
    rng: Rng,
    interrupts: usize,
    piece: usize,
    left: usize,
    /// fail for good at this read call (R07)
    pub fail_at: Option<(Fault, u64)>,
    pub calls: u64,
    pub tripped: bool,
    /// set when the failure has been seen by the reader
    pub hit: Arc<AtomicBool>
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// at the n-th call
    Call,
    /// when byte n is reached
    Byte
}
impl Choppy {
    pub fn new(b: &[u8], seed: u64, piece: usize, interrupts: usize) -> Choppy {
        Choppy { b: b.to_vec(), p: 0, rng: Rng::new(seed), interrupts, piece, left: 0, fail_at: None, calls: 0, tripped: false, hit: Arc::default() }
    }
    fn gate(&mut self) -> io::Result<()> {
        self.calls += 1;
        if let Some((k, n)) = self.fail_at {
            let hit = self.tripped || if k == Fault::Call { self.calls > n } else { self.p >= n };
            if hit {
                self.tripped = true;
                self.hit.store(true, Relaxed);
                return Err(io::Error::new(io::ErrorKind::Other, "disk on fire"));
            }
        }
        if self.interrupts > 0 && self.rng.one_in(self.interrupts) {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        Ok(())
    }
    fn room(&self) -> usize {
        let end = match self.fail_at {
            Some((Fault::Byte, n)) => n.min(self.b.len() as u64),
            _ => self.b.len() as u64
        };
        end.saturating_sub(self.p) as usize
    }
}
impl Read for Choppy {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        self.gate()?;
        let n = self.room().min(buf.len()).min(self.rng.range(1, self.piece));
        let p = self.p.min(self.b.len() as u64) as usize;
        buf[..n].copy_from_slice(&self.b[p..p + n]);
        self.p += n as u64;
        self.left = 0;
        Ok(n)
    }
}
impl BufRead for Choppy {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.gate()?;
        if self.left == 0 {
            self.left = self.rng.range(1, self.piece);
        }
        let n = self.room().min(self.left);
        self.left = n;
        let p = self.p.min(self.b.len() as u64) as usize;
        Ok(&self.b[p..p + n])
    }
    fn consume(&mut self, n: usize) {
        self.p += n as u64;
        self.left -= n.min(self.left);
    }
}
impl Seek for Choppy {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let v = match s {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(n) => self.b.len() as i128 + n as i128,
            SeekFrom::Current(n) => self.p as i128 + n as i128
        };
        if v < 0 || v > i64::MAX as i128 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek"));
        }
        self.p = v as u64;
        self.left = 0;
        Ok(self.p)
    }
}
fn scratch(c: &Case) -> std::path::PathBuf {
    let d = std::env::var("VERIF_WORK").unwrap_or_else(|_| "/tmp".into());
    std::path::PathBuf::from(d).join(format!("src-{}-{}-{}", std::process::id(), c.family, c.idx))
}
fn r06_one(c: &mut Case, fmt: Fmt, b: &[u8], what: &str, o: DecoderOptions) {
    c.blob(b);
    let Some(base) = c.lib("decode", || run(&mut zc(fmt, b, o))) else { return };
    let cap = *c.rng.pick(&[1usize, 2, 3, 5, 8, 13, 64, 100, 8192]);
    let seed = c.rng.u64();
    let piece = *c.rng.pick(&[1usize, 2, 7, 40, 5000]);
    let path = scratch(c);
    for k in 0..9 {
        let name = ["owned cursor", "std cursor", "std cursor over a vector", "buffered reader", "buffered file", "short reads", "interrupted reads", "buffered short reads", "boxed slice"][k];
        if k == 4 && !(c.idx % 5 == 0) {
            continue;
        }
        let r = c.lib(name, || match k {
            0 => run(&mut open(fmt, ZCursor::new(b.to_vec()), o)),
            1 => run(&mut open(fmt, Cursor::new(b), o)),
            2 => run(&mut open(fmt, Cursor::new(b.to_vec()), o)),
            3 => run(&mut open(fmt, BufReader::with_capacity(cap, Cursor::new(b)), o)),
            4 => {
                std::fs::write(&path, b).unwrap();
                let r = run(&mut open(fmt, BufReader::with_capacity(cap, std::fs::File::open(&path).unwrap()), o));
                let _ = std::fs::remove_file(&path);
                r
            }
            5 => run(&mut open(fmt, Choppy::new(b, seed, piece, 0), o)),
            6 => run(&mut open(fmt, Choppy::new(b, seed, piece, 4), o)),
            7 => run(&mut open(fmt, BufReader::with_capacity(cap, Choppy::new(b, seed, piece, 9)), o)),
            _ => run(&mut open(fmt, ZCursor::new(b.to_vec().into_boxed_slice()), o))
        });
        let Some(r) = r else { return };
        c.check(r.same(&base), &format!("source-matters:{}-{}", fmt.name(), name.replace(' ', "-")), || format!("{what}: cap {cap} piece {piece}: {} instead of {}", r.brief(), base.brief()));
        c.tag(name);
        c.saw(hash_bytes(b) ^ (k as u64) << 50 ^ cap as u64);
    }
    c.tag(if base.data.is_ok() { "decodes" } else { "refused" });
}
pub fn r06_valid(c: &mut Case) {
    let fmt = FMTS[c.idx as usize % FMTS.len()];
    let m = size(c);
    let f = valid(&mut c.rng, fmt, m);
    c.sample(|| f.what.clone());
    let o = opts(&mut c.rng, fmt);
    r06_one(c, fmt, &f.bytes, &f.what, o);
}
pub fn r06_damaged(c: &mut Case) {
    let fmt = FMTS[c.idx as usize % FMTS.len()];
    let f = valid(&mut c.rng, fmt, 24);
    let mut b = f.bytes.clone();
    damage(&mut c.rng, fmt, &mut b);
    let o = opts(&mut c.rng, fmt).set_max_width(300).set_max_height(300);
    r06_one(c, fmt, &b, &f.what, o);
}
// ------------------------------------------------------------------ R07
/// does this prefix lack pixels?
fn lossy(f: &File, cut: usize) -> bool {
    if let Some((s, e)) = f.span {
        return cut >= s && cut < e;
    }
    if f.fmt == Fmt::Png {
        let t = zvgen::png::chunk_table(&f.bytes);
        let mut z = vec![];
        for (at, n, l) in t {
            if &n == b"IDAT" {
                let e = (at + 8 + l).min(cut);
                if e > at + 8 {
                    z.extend(&f.bytes[at + 8..e]);
                }
            }
        }
        // bytes the prefix can produce against what the whole produces
        let part = inflate_prefix(&z);
        let mut all = vec![];
        for (at, n, l) in zvgen::png::chunk_table(&f.bytes) {
            if &n == b"IDAT" {
                all.extend(&f.bytes[at + 8..at + 8 + l]);
            }
        }
        return part < inflate_prefix(&all) && cut > 33;
    }
    false
}
fn inflate_prefix(z: &[u8]) -> usize {
    use miniz_oxide::inflate::core::{decompress, inflate_flags::*, DecompressorOxide};
    let mut d = Box::<DecompressorOxide>::default();
    let mut out = vec![0u8; 1 << 22];
    let (_, _, n) = decompress(&mut d, z, &mut out, 0, TINFL_FLAG_PARSE_ZLIB_HEADER | TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF | TINFL_FLAG_HAS_MORE_INPUT);
    n
}
fn lenient_ok(c: &mut Case, fmt: Fmt, what: &str, r: &Outcome) {
    if let Ok(d) = &r.data {
        if let (Some((w, h)), Some(cs)) = (r.hdr.dim, r.hdr.cs) {
            c.check(d.len() == w * h * cs.num_components(), &format!("partial-size:{}", fmt.name()), || format!("{what}: {} samples for {w}x{h} {cs:?}", d.len()));
        }
        c.tag("partial-image");
    }
}
pub fn r07_truncate(c: &mut Case) {
    let fmt = FMTS[c.idx as usize % FMTS.len()];
    let f = valid(&mut c.rng, fmt, 24);
    c.sample(|| f.what.clone());
    let base = tame(c, fmt);
    for k in 0..8 {
        let n = f.bytes.len();
        let cut = match f.span {
            Some((s, e)) if k < 5 => {
                if k < 2 {
                    e - 1 - c.rng.below((e - s).min(4))
                } else {
                    c.rng.range(s, e - 1)
                }
            }
            _ => c.rng.below(n)
        };
        let b = &f.bytes[..cut];
        c.blob(b);
        let into = c.rng.one_in(4);
        for strict in [true, false] {
            let o = base.set_strict_mode(strict);
            if into {
                let Some(r) = c.lib("decode_into", || zc(fmt, b, o).decode_into(0, 0)) else { return };
                if let Some((_, r)) = r {
                    if strict && lossy(&f, cut) {
                        c.check(r.is_err(), &format!("strict-accepts-incomplete-into:{}", fmt.name()), || format!("{}: {cut} of {n} bytes (pixels {:?})", f.what, f.span));
                    }
                }
                continue;
            }
            let Some(r) = c.lib("decode", || run(&mut zc(fmt, b, o))) else { return };
            if strict && lossy(&f, cut) {
                c.check(r.data.is_err(), &format!("strict-accepts-incomplete:{}", fmt.name()), || format!("{}: {cut} of {n} bytes (pixels {:?})", f.what, f.span));
                c.tag("incomplete-strict");
            }
            if !strict {
                lenient_ok(c, fmt, &f.what, &r);
            }
        }
        c.saw(hash_bytes(b));
    }
}
pub fn r07_fault(c: &mut Case) {
    let fmt = FMTS[c.idx as usize % FMTS.len()];
    let f = valid(&mut c.rng, fmt, 24);
    c.sample(|| f.what.clone());
    let base = tame(c, fmt);
    c.blob(&f.bytes);
    let piece = *c.rng.pick(&[1usize, 3, 20, 5000]);
    for _ in 0..6 {
        let n = f.bytes.len();
        let fault = if c.rng.bool() { Fault::Byte } else { Fault::Call };
        let at = if fault == Fault::Byte { c.rng.below(n) } else { c.rng.below(if piece == 5000 { 40 } else { n.min(400) }) } as u64;
        let strict = c.rng.bool();
        let o = base.set_strict_mode(strict);
        let buffered = c.rng.one_in(3);
        let seed = c.rng.u64();
        let r = c.lib("decode", || {
            let mut s = Choppy::new(&f.bytes, seed, piece, 0);
            s.fail_at = Some((fault, at));
            let hit = s.hit.clone();
            let r = if buffered {
                run(&mut open(fmt, BufReader::with_capacity(16, s), o))
            } else {
                run(&mut open(fmt, s, o))
            };
            (r, hit.load(Relaxed))
        });
        let Some((r, hit)) = r else { return };
        // only a lenient JPEG may make do with what it has; frames that came before the failure stay good
        if hit && !(fmt == Fmt::Jpeg && !strict) {
            c.check(r.data.is_err() || r.more.iter().any(|m| m.is_err()), &format!("failure-hidden:{}", fmt.name()), || format!("{}: source fails at {at} of {n} ({fault:?}), nothing reported", f.what));
            c.tag("failure-seen");
        }
        if strict && fault == Fault::Byte && lossy(&f, at as usize) {
            c.check(r.data.is_err(), &format!("strict-accepts-failing-source:{}", fmt.name()), || format!("{}: source fails at byte {at} of {n} (pixels {:?}), decoded anyway", f.what, f.span));
            c.tag("failing-strict");
        }
        if !strict {
            lenient_ok(c, fmt, &f.what, &r);
        }
        c.tag(if r.data.is_ok() { "survived" } else { "error" });
        c.saw(hash_bytes(&f.bytes) ^ at << 1 ^ (fault == Fault::Byte) as u64);
    }
}

// ------------------------------------------------------------------ D12
fn d12_one(c: &mut Case, fmt: Fmt, b: &[u8], what: &str, o: DecoderOptions, conforming: bool) {
    c.blob(b);
    let Some((s, l)) = c.lib("decode", || (run(&mut zc(fmt, b, o.set_strict_mode(true))), run(&mut zc(fmt, b, o.set_strict_mode(false))))) else { return };
    let n = fmt.name();
    if let Ok(d) = &s.data {
        match &l.data {
            Ok(e) => {
                c.check(d == e, &format!("strict-pixels:{n}"), || format!("{what}: strict {} default {}", s.brief(), l.brief()));
                // what later frames' chunks change is read by one and refused by the other
                let later = frames(b) && !conforming;
                c.check(later || s.hdr == l.hdr, &format!("strict-header:{n}"), || format!("{what}: {:?} / {:?}", s.hdr, l.hdr));
                c.tag("both");
            }
            Err(e) => c.fail(format!("strict-wider:{n}"), format!("{what}: the strict decoder accepts what the default refuses ({e})"))
        }
        for (a, b) in s.more.iter().zip(&l.more) {
            if let (Ok(a), Ok(b)) = (a, b) {
                c.check(a == b, &format!("strict-frames:{n}"), || what.to_string());
            }
        }
    } else {
        c.check(!conforming || l.data.is_err(), &format!("conforming-refused:{n}"), || format!("{what}: strict {} default {}", s.brief(), l.brief()));
        c.tag(if l.data.is_ok() { "only-default" } else { "neither" });
    }
    c.saw(hash_bytes(b));
}
pub fn d12_valid(c: &mut Case) {
    let fmt = FMTS[c.idx as usize % FMTS.len()];
    let m = size(c);
    let f = valid(&mut c.rng, fmt, m);
    c.sample(|| f.what.clone());
    let mut o = tame(c, fmt);
    if fmt == Fmt::Jpeg {
        o = o.jpeg_set_out_colorspace(zune_core::colorspace::ColorSpace::RGB);
    }
    d12_one(c, fmt, &f.bytes, &f.what, o, true);
}
pub fn d12_damaged(c: &mut Case) {
    let fmt = FMTS[c.idx as usize % FMTS.len()];
    let f = valid(&mut c.rng, fmt, 24);
    c.sample(|| f.what.clone());
    for _ in 0..3 {
        let mut b = f.bytes.clone();
        damage(&mut c.rng, fmt, &mut b);
        let o = opts(&mut c.rng, fmt).set_max_width(300).set_max_height(300);
        d12_one(c, fmt, &b, &f.what, o, false);
    }
}
/// departures a decoder tolerates by default, without a change to the pixels, and refuses when strict
pub fn d12_tolerated(c: &mut Case) {
    use zvgen::{png, raster};
    let (fmt, good, bad, what): (Fmt, Vec<u8>, Vec<u8>, &str) = match c.rng.below(8) {
        0 => {
            let q = valid(&mut c.rng, Fmt::Qoi, 30).bytes;
            let mut b = q.clone();
            b[13] = c.rng.range(2, 255) as u8;
            (Fmt::Qoi, q, b, "colour-space byte")
        }
        1 => {
            let q = valid(&mut c.rng, Fmt::Qoi, 30).bytes;
            let mut b = q.clone();
            let n = b.len();
            b[n - 1 - c.rng.below(8)] ^= c.rng.range(1, 255) as u8;
            (Fmt::Qoi, q, b, "end bytes")
        }
        2 => loop {
            let b = raster::Bmp::random(&mut c.rng, 30);
            if b.bpp > 8 || b.hsize < 40 || b.icc.is_some() || b.data == 14 + b.hsize as usize {
                continue;
            }
            let had = u32::from_le_bytes(b.file[46..50].try_into().unwrap());
            let max = 1u32 << b.bpp;
            if had != 0 && had != max {
                continue;
            }
            let mut f = b.file.clone();
            let n = if c.rng.bool() { max + 1 + c.rng.below(1000) as u32 } else { c.rng.u32() | 0x8000_0000 };
            f[46..50].copy_from_slice(&n.to_le_bytes());
            break (Fmt::Bmp, b.file.clone(), f, "colour count");
        },
        3 => loop {
            let b = raster::Bmp::random(&mut c.rng, 30);
            if b.comp != raster::BmpComp::Rle8 || b.data_end != b.file.len() || !b.file.ends_with(&[0, 1]) || b.tags.contains(&"eol-on-last-line") {
                continue;
            }
            let n = b.file.len() - 2;
            break (Fmt::Bmp, b.file.clone(), b.file[..n].to_vec(), "no end code");
        },
        k => {
            let mut s = png::Spec::random(&mut c.rng, png::Opt { max_dim: 30, interlace: None, meta: false });
            let _ = &mut s;
            let mut chunks = s.chunks(&mut c.rng);
            let at = 1;
            let before = png::assemble(&chunks);
            match k {
                4 => {
                    let n = *c.rng.pick(&[0usize, 1, 3, 5, 8, 40]);
                    let d = c.rng.bytes(n);
                    chunks.insert(at, png::chunk(b"gAMA", d));
                    (Fmt::Png, before, png::assemble(&chunks), "gAMA length")
                }
                5 => {
                    let n = *c.rng.pick(&[0usize, 1, 6, 8, 40]);
                    let d = c.rng.bytes(n);
                    chunks.insert(at, png::chunk(b"tIME", d));
                    (Fmt::Png, before, png::assemble(&chunks), "tIME length")
                }
                6 => {
                    let n = c.rng.range(0, 40);
                    let mut d = c.rng.bytes(n);
                    if let Some(x) = d.first_mut() {
                        *x |= 0x80;
                    }
                    chunks.insert(at, png::chunk(b"eXIf", d));
                    (Fmt::Png, before, png::assemble(&chunks), "eXIf magic")
                }
                _ => {
                    let mut b = before.clone();
                    let t = png::chunk_table(&b);
                    let (p, name, n) = *c.rng.pick(&t);
                    if &name == b"IEND" {
                        return;
                    }
                    b[p + 8 + n + c.rng.below(4)] ^= c.rng.range(1, 255) as u8;
                    (Fmt::Png, before, b, "checksum")
                }
            }
        }
    };
    c.sample(|| format!("{} {what}", fmt.name()));
    c.blob(&bad);
    let mut o = DecoderOptions::default();
    if c.rng.bool() {
        o = o.png_set_add_alpha_channel(true);
    }
    let Some((g, l, s)) = c.lib("decode", || (run(&mut zc(fmt, &good, o)), run(&mut zc(fmt, &bad, o)), run(&mut zc(fmt, &bad, o.set_strict_mode(true))))) else { return };
    let same = match (&g.data, &l.data) {
        (Ok(a), Ok(b)) => a == b && g.hdr == l.hdr,
        _ => false
    };
    c.check(same, &format!("tolerated-pixels:{}:{what}", fmt.name()), || format!("intact {} departing {}", g.brief(), l.brief()));
    c.check(s.data.is_err(), &format!("strict-tolerates:{}:{what}", fmt.name()), || s.brief());
    c.tag(what);
    c.saw(hash_bytes(&bad));
}
