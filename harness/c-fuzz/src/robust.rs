//! R01 (and, under a sanitizer, R02): hostile bytes, options and call orders.
use crate::dec::*;
use zune_core::bytestream::ZCursor;
use zune_core::bit_depth::ByteEndian;
use zune_core::colorspace::{ColorSpace, ALL_COLORSPACES};
use zune_core::options::DecoderOptions;
use zvcore::{hash_bytes, Case, Rng};
use zvgen::corpus::*;
use zvgen::deflate;

pub use crate::opts::{limits, opts};
/// drive a decoder through a random order of calls
fn plan(rng: &mut Rng, d: &mut Box<dyn Dec + '_>) -> (u64, bool) {
    let mut h = 0u64;
    let mut ok = false;
    let mut mix = |v: u64| h = h.rotate_left(7) ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for _ in 0..rng.range(1, 5) {
        match rng.below(7) {
            0 => mix(d.headers().is_ok() as u64),
            1 => {
                let x = d.hdr();
                mix(x.dim.map(|v| v.0 as u64).unwrap_or(0));
            }
            2 => mix(d.meta().len() as u64),
            3 => d.poke(),
            4 => {
                let extra = *rng.pick(&[0isize, 0, 1, 7, -1, -3, -64]);
                if let Some((b, r)) = d.decode_into(extra, 0x5A) {
                    ok |= r.is_ok();
                    mix(b.len() as u64 ^ r.is_ok() as u64);
                }
            }
            _ => {
                let r = d.decode();
                ok |= r.is_ok();
                mix(r.map(|v| v.len() as u64).unwrap_or(1));
            }
        }
    }
    // whatever happened before, decoding comes to an end
    let r = d.decode();
    ok |= r.is_ok();
    let mut k = 0;
    while d.more() && k < 12 && r.is_ok() {
        if d.decode().is_err() {
            break;
        }
        k += 1;
    }
    mix(k);
    d.poke();
    mix(d.meta().len() as u64);
    let x = d.hdr();
    mix(x.size.unwrap_or(0) as u64);
    (h, ok)
}
pub fn attack(c: &mut Case, fmt: Fmt, b: &[u8]) {
    let o = opts(&mut c.rng, fmt);
    let o = limits(&mut c.rng, o);
    let how = c.rng.below(4);
    let cap = c.rng.range(1, 40);
    let mut rng = Rng::new(c.rng.u64());
    c.blob(b);
    let r = c.lib(fmt.name(), || match how {
        0 => plan(&mut rng, &mut open(fmt, std::io::BufReader::with_capacity(cap, std::io::Cursor::new(b)), o)),
        1 => plan(&mut rng, &mut open(fmt, std::io::Cursor::new(b), o)),
        _ => plan(&mut rng, &mut open(fmt, ZCursor::new(b), o))
    });
    let Some((h, ok)) = r else { return };
    if ok {
        c.tag("decoded");
    } else {
        c.tag("refused");
    }
    c.saw(hash_bytes(b) ^ h);
}
fn damaged(c: &mut Case, fmt: Fmt) {
    let max = if c.rng.one_in(8) { 120 } else { 24 };
    let f = valid(&mut c.rng, fmt, max);
    c.sample(|| f.what.clone());
    for _ in 0..8 {
        let mut b = f.bytes.clone();
        damage(&mut c.rng, fmt, &mut b);
        attack(c, fmt, &b);
        if c.failed() {
            return;
        }
    }
}
macro_rules! fam {
    ($($n:ident $f:expr),*) => { $(pub fn $n(c: &mut Case) { damaged(c, $f) })* };
}
fam!(png Fmt::Png, apng Fmt::Apng, jpeg Fmt::Jpeg, bmp Fmt::Bmp, qoi Fmt::Qoi, pnm Fmt::Pnm, farbfeld Fmt::Farbfeld, hdr Fmt::Hdr, psd Fmt::Psd);

pub fn noise(c: &mut Case) {
    for _ in 0..8 {
        let fmt = *c.rng.pick(&FMTS);
        let b = magic_noise(&mut c.rng, fmt);
        attack(c, fmt, &b);
        // and as any other format
        let other = *c.rng.pick(&FMTS);
        attack(c, other, &b);
        if c.failed() {
            return;
        }
    }
}
fn samples(fmt: Fmt) -> &'static [(String, Vec<u8>)] {
    static S: std::sync::OnceLock<Vec<(Fmt, Vec<(String, Vec<u8>)>)>> = std::sync::OnceLock::new();
    let all = S.get_or_init(|| FMTS.iter().map(|f| (*f, shipped(*f, 60_000))).collect());
    &all.iter().find(|x| x.0 == fmt).unwrap().1
}
pub fn shipped_files(c: &mut Case) {
    for _ in 0..4 {
        let fmt = *c.rng.pick(&[Fmt::Png, Fmt::Jpeg, Fmt::Bmp, Fmt::Bmp, Fmt::Qoi]);
        let s = samples(fmt);
        if s.is_empty() {
            c.saw_trivial();
            return;
        }
        let (n, b) = &s[c.rng.below(s.len())];
        let mut b = b.clone();
        c.sample(|| n.clone());
        if !c.rng.one_in(10) {
            damage(&mut c.rng, fmt, &mut b);
        }
        attack(c, fmt, &b);
        if c.failed() {
            return;
        }
    }
}
pub fn gif(c: &mut Case) {
    let mut b = if c.rng.bool() { b"GIF89a".to_vec() } else { b"GIF87a".to_vec() };
    let n = *c.rng.pick(&[0usize, 3, 7, 20, 800]);
    let v = c.rng.bytes(n);
    b.extend(v);
    if b.len() > 10 && c.rng.bool() {
        b[7] = 0;
        b[9] = 0;
    }
    c.blob(&b);
    let extra = c.rng.below(3);
    let limits = c.rng.bool();
    let r = c.lib("gif", || {
        let mut o = DecoderOptions::default();
        if limits {
            o = o.set_max_width(1000).set_max_height(1000);
        }
        let mut d = zune_gif::GifDecoder::new_with_options(ZCursor::new(&b), o.set_max_width(1 << 12).set_max_height(1 << 12));
        let h = d.decode_headers().is_ok();
        let n = d.output_buf_size().unwrap_or(0);
        let mut v = vec![0u8; (n + extra).saturating_sub(1).min(1 << 26)];
        let r = d.decode_into(&mut v, None).is_ok();
        (h, r)
    });
    if r.is_none() {
        return;
    }
    c.tag("gif");
    c.saw(hash_bytes(&b));
}
pub fn inflate(c: &mut Case) {
    use zune_inflate::{DeflateDecoder, DeflateOptions};
    let (raw, data) = deflate::random_stream(&mut c.rng, 3000);
    for _ in 0..8 {
        let kind = c.rng.below(3);
        let mut b = match kind {
            0 => raw.clone(),
            1 => deflate::zlib_wrap(&raw, &data),
            _ => deflate::gzip_wrap(&mut c.rng, &raw, &data)
        };
        match c.rng.below(6) {
            0 => {
                let n = c.rng.below(60);
                b = c.rng.bytes(n);
            }
            1 => {
                let n = c.rng.below(40);
                let mut v = c.rng.bytes(n);
                let keep = b.len().min(c.rng.below(14));
                let mut h = b[..keep].to_vec();
                h.append(&mut v);
                b = h;
            }
            _ => damage(&mut c.rng, Fmt::Farbfeld, &mut b)
        }
        let mut o = DeflateOptions::default().set_confirm_checksum(c.rng.bool()).set_limit(*c.rng.pick(&[0, 1, 50, 1 << 16, 1 << 24]));
        if c.rng.one_in(3) {
            o = o.set_size_hint(*c.rng.pick(&[0, 1, 2, 37000, 1 << 20]));
        }
        c.blob(&b);
        let r = c.lib("inflate", || {
            let mut d = DeflateDecoder::new_with_options(&b, o);
            match kind {
                0 => d.decode_deflate().map_err(|e| format!("{e:?}")),
                1 => d.decode_zlib().map_err(|e| format!("{e:?}")),
                _ => d.decode_gzip().map_err(|e| format!("{e:?}"))
            }
        });
        let Some(r) = r else { return };
        c.tag(if r.is_ok() { "inflated" } else { "refused" });
        c.saw(hash_bytes(&b));
    }
}
