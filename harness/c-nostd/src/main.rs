//! R12: the library with and without the standard library. Built twice; the build without it writes
//! down a digest of every outcome, the build with it compares.
#![allow(dead_code, unused_imports, unused_variables)]
#[path = "../../c-fuzz/src/dec.rs"]
mod dec;
#[path = "../../c-fuzz/src/opts.rs"]
mod opts;
#[cfg(feature = "std")]
mod decode {
    // the odd sources of c-fuzz are not needed here; the standard readers are covered there
}
#[cfg(not(feature = "std"))]
#[path = "../../c-fuzz/src/stream.rs"]
mod stream;
use dec::*;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace as C;
use zune_core::options::EncoderOptions;
use zvcore::{hash_bytes, Case, Family, Rng};
use zvgen::corpus::*;

const KINDS: [Fmt; 8] = [Fmt::Png, Fmt::Apng, Fmt::Jpeg, Fmt::Bmp, Fmt::Qoi, Fmt::Pnm, Fmt::Farbfeld, Fmt::Psd];
fn outcome(c: &mut Case, fmt: Fmt, b: &[u8], o: zune_core::options::DecoderOptions) {
    let Some(r) = c.lib("decode", || run(&mut open(fmt, ZCursor::new(b), o))) else { return };
    let mut h = hash_bytes(b);
    c.tag(&format!("{} {}", fmt.name(), if r.data.is_ok() { "accepted" } else { "refused" }));
    // errors may be worded differently
    let d = |r: &R<Data>| match r {
        Ok(d) => hash_bytes(&d.bytes()) ^ d.elem() as u64,
        Err(_) => 1
    };
    c.digest(&format!("pixels:{}", fmt.name()), d(&r.data));
    for m in &r.more {
        c.digest(&format!("frame:{}", fmt.name()), d(m));
    }
    if r.data.is_ok() {
        c.digest(&format!("facts:{}", fmt.name()), hash_bytes(format!("{:?} {}", r.hdr, r.meta).as_bytes()));
    }
    h ^= d(&r.data).rotate_left(9);
    c.saw(h);
    // into a caller's buffer
    if c.rng.bool() {
        let extra = if c.rng.bool() { 0 } else { c.rng.irange(-3, 9) as isize };
        let Some(r) = c.lib("decode-into", || open(fmt, ZCursor::new(b), o).decode_into(extra, 0x5A)) else { return };
        if let Some((v, r)) = r {
            c.digest(&format!("into:{}", fmt.name()), if r.is_ok() { hash_bytes(&v.bytes()) } else { 1 });
        }
    }
}
fn valid_files(c: &mut Case) {
    let fmt = KINDS[c.idx as usize % KINDS.len()];
    let m = if c.rng.one_in(10) { 150 } else { 32 };
    let f = valid(&mut c.rng, fmt, m);
    c.sample(|| f.what.clone());
    c.blob(&f.bytes);
    let mut o = opts::opts(&mut c.rng, fmt);
    if c.rng.one_in(4) {
        o = opts::limits(&mut c.rng, o);
    }
    outcome(c, fmt, &f.bytes, o);
}
fn damaged(c: &mut Case) {
    let fmt = KINDS[c.idx as usize % KINDS.len()];
    let mut b = if c.rng.one_in(12) { magic_noise(&mut c.rng, fmt) } else { valid(&mut c.rng, fmt, 32).bytes };
    if c.rng.bool() {
        for _ in 0..c.rng.range(1, 3) {
            damage(&mut c.rng, fmt, &mut b);
        }
    } else {
        let n = c.rng.below(b.len() + 1);
        b.truncate(n);
    }
    c.blob(&b);
    let o = opts::opts(&mut c.rng, fmt);
    let o = opts::limits(&mut c.rng, o);
    outcome(c, fmt, &b, o);
}
fn encoders(c: &mut Case) {
    let kind = c.idx % 5;
    let name = ["png", "qoi", "ppm", "farbfeld", "jxl"][kind as usize];
    let big = c.rng.one_in(12);
    let (w, h) = if big { (c.rng.range(1, 300), c.rng.range(1, 300)) } else { (c.rng.range(1, 40), c.rng.range(1, 40)) };
    let r = &mut c.rng;
    let (cs, bd) = match kind {
        1 => (*r.pick(&[C::RGB, C::RGBA]), BitDepth::Eight),
        3 => (C::RGBA, BitDepth::Sixteen),
        _ => (*r.pick(&[C::Luma, C::LumaA, C::RGB, C::RGBA]), *r.pick(&[BitDepth::Eight, BitDepth::Sixteen]))
    };
    let px = r.texture(w * h * cs.num_components() * bd.size_of());
    let threads = *r.pick(&[1u8, 2, 8]);
    let effort = r.below(10) as u8;
    let o = EncoderOptions::new(w, h, cs, bd).set_num_threads(threads).set_effort(effort);
    let what = format!("{name} {w}x{h} {cs:?} {bd:?}");
    c.sample(|| what.clone());
    fn enc<T: zune_core::bytestream::ZByteWriterTrait>(kind: u64, px: &[u8], o: EncoderOptions, t: T) -> Result<usize, String> {
        fn e<E: std::fmt::Debug>(x: E) -> String {
            format!("{x:?}")
        }
        match kind {
            0 => zune_png::PngEncoder::new(px, o).encode(t).map_err(e),
            1 => zune_qoi::QoiEncoder::new(px, o).encode(t).map_err(e),
            2 => zune_ppm::PPMEncoder::new(px, o).encode(t).map_err(e),
            3 => zune_farbfeld::FarbFeldEncoder::new(px, o).encode(t).map_err(e),
            _ => zune_jpegxl::JxlSimpleEncoder::new(px, o).encode(t).map_err(e)
        }
    }
    let mut v = vec![];
    let Some(r) = c.lib("encode", || enc(kind, &px, o, &mut v)) else { return };
    c.check(r == Ok(v.len()), &format!("count:{name}"), || format!("{what}: {r:?}, {} delivered", v.len()));
    c.digest(&format!("file:{name}"), hash_bytes(&v));
    c.saw(hash_bytes(&v));
    c.tag(name);
    // a buffer of any size takes the file or says that it does not fit
    let room = match c.rng.below(3) {
        0 => v.len(),
        1 => v.len() + c.rng.below(20),
        _ => c.rng.below(v.len())
    };
    let mut b = vec![0x5Au8; room];
    let Some(r) = c.lib("encode", || enc(kind, &px, o, &mut b[..])) else { return };
    if room >= v.len() {
        c.check(r == Ok(v.len()) && b[..v.len()] == v[..] && b[v.len()..].iter().all(|x| *x == 0x5A), &format!("buffer:{name}"), || format!("{what} into {room} for {}: {r:?}", v.len()));
    } else {
        c.check(r.is_err(), &format!("short-buffer:{name}"), || format!("{what} into {room} for {}: {r:?}", v.len()));
    }
}
const FAMILIES: &[Family] = &[
    Family { property: "R12", name: "valid", n: (4000, 100_000), rule: "valid files of eight formats with any options, built with and without the standard library", f: valid_files },
    Family { property: "R12", name: "damaged", n: (4000, 100_000), rule: "damaged and cut files, any options", f: damaged },
    Family { property: "R12", name: "encoders", n: (2500, 50_000), rule: "random images through five encoders, into vectors and buffers of any size", f: encoders },
    #[cfg(not(feature = "std"))]
    Family { property: "R10", name: "bare-reader", n: (8000, 200_000), rule: "random call sequences on the reader built without the standard library", f: stream::reader },
    #[cfg(not(feature = "std"))]
    Family { property: "R10", name: "bare-far", n: (3000, 30_000), rule: "reads, peeks and skips from positions next to the largest there is", f: stream::far },
    #[cfg(not(feature = "std"))]
    Family { property: "R10", name: "bare-raw", n: (8000, 200_000), rule: "random sequences of the reader trait's own methods without the standard library", f: stream::raw },
    #[cfg(not(feature = "std"))]
    Family { property: "R10", name: "bare-writer", n: (8000, 200_000), rule: "random write sequences without the standard library", f: stream::writer }
];
fn main() {
    zvcore::main(FAMILIES)
}
