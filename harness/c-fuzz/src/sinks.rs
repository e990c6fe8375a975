//! R08: sinks that fail, run out of room, write short or get interrupted.
use std::io::{self, Write};
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZByteWriterTrait;
use zune_core::colorspace::ColorSpace;
use zune_core::options::EncoderOptions;
use zvcore::{hash_bytes, Case, Rng};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Enc {
    Png,
    Qoi,
    Ppm,
    Farbfeld,
    Hdr,
    Jxl
}
const ENCS: [Enc; 6] = [Enc::Png, Enc::Qoi, Enc::Ppm, Enc::Farbfeld, Enc::Hdr, Enc::Jxl];
struct Job {
    enc: Enc,
    o: EncoderOptions,
    px: Vec<u8>
}
fn job(rng: &mut Rng, enc: Enc) -> Job {
    let (w, h) = (rng.range(1, 40), rng.range(1, 40));
    let (cs, bd) = match enc {
        Enc::Png => (*rng.pick(&[ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA]), *rng.pick(&[BitDepth::Eight, BitDepth::Sixteen])),
        Enc::Qoi => (*rng.pick(&[ColorSpace::RGB, ColorSpace::RGBA]), BitDepth::Eight),
        Enc::Ppm => {
            let cs = *rng.pick(&[ColorSpace::Luma, ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::LumaA]);
            (cs, *rng.pick(&[BitDepth::Eight, BitDepth::Sixteen]))
        }
        Enc::Farbfeld => (ColorSpace::RGBA, BitDepth::Sixteen),
        Enc::Hdr => (ColorSpace::RGB, BitDepth::Float32),
        Enc::Jxl => (*rng.pick(&[ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA]), *rng.pick(&[BitDepth::Eight, BitDepth::Sixteen]))
    };
    let n = w * h * cs.num_components() * bd.size_of();
    let px = if enc == Enc::Hdr { (0..n / 4).flat_map(|_| (rng.f32() * 100.0).to_ne_bytes()).collect() } else { rng.texture(n) };
    let o = EncoderOptions::new(w, h, cs, bd).set_num_threads(*rng.pick(&[1, 2]));
    Job { enc, o, px }
}
fn encode<T: ZByteWriterTrait>(j: &Job, t: T) -> Result<usize, String> {
    fn e<E: std::fmt::Debug>(x: E) -> String {
        format!("{x:?}")
    }
    match j.enc {
        Enc::Png => zune_png::PngEncoder::new(&j.px, j.o).encode(t).map_err(e),
        Enc::Qoi => zune_qoi::QoiEncoder::new(&j.px, j.o).encode(t).map_err(e),
        Enc::Ppm => zune_ppm::PPMEncoder::new(&j.px, j.o).encode(t).map_err(e),
        Enc::Farbfeld => zune_farbfeld::FarbFeldEncoder::new(&j.px, j.o).encode(t).map_err(e),
        Enc::Hdr => {
            let f: Vec<f32> = j.px.chunks_exact(4).map(|c| f32::from_ne_bytes(c.try_into().unwrap())).collect();
            zune_hdr::HdrEncoder::new(&f, j.o).encode(t).map_err(e)
        }
        Enc::Jxl => zune_jpegxl::JxlSimpleEncoder::new(&j.px, j.o).encode(t).map_err(e)
    }
}
struct Sink<'a> {
    out: &'a mut Vec<u8>,
    rng: Rng,
    piece: usize,
    interrupts: usize,
    fail_byte: usize,
    fail_call: usize,
    kind: io::ErrorKind,
    zero: bool,
    calls: usize
}
impl Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        if self.out.len() >= self.fail_byte || self.calls > self.fail_call {
            return if self.zero { Ok(0) } else { Err(io::Error::from(self.kind)) };
        }
        if self.interrupts > 0 && self.rng.one_in(self.interrupts) {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let n = b.len().min(self.fail_byte - self.out.len()).min(self.rng.range(1, self.piece));
        self.out.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub fn r08(c: &mut Case) {
    let enc = ENCS[c.idx as usize % ENCS.len()];
    let j = job(&mut c.rng, enc);
    let n = format!("{enc:?}").to_lowercase();
    let what = format!("{n} {}x{} {:?} {:?}", j.o.width(), j.o.height(), j.o.colorspace(), j.o.depth());
    c.sample(|| what.clone());
    let mut whole = vec![];
    let Some(r) = c.lib("encode", || encode(&j, &mut whole)) else { return };
    let total = whole.len();
    match r {
        Err(e) => {
            c.fail(format!("refused:{n}"), format!("{what}: {e}"));
            return;
        }
        Ok(k) => {
            c.check(k == total, &format!("count:{n}"), || format!("{what}: {k} reported, {total} delivered"));
        }
    }
    // a vector that already holds something is appended to
    let mut pre = vec![7u8; 13];
    let Some(r) = c.lib("encode", || encode(&j, &mut pre)) else { return };
    c.check(r == Ok(total) && pre[13..] == whole[..] && pre[..13] == [7u8; 13], &format!("append:{n}"), || format!("{what}: {r:?}"));
    // bounded memory
    for k in 0..7 {
        let room = match k {
            0 => total,
            1 => total + c.rng.range(1, 50),
            2 => total - 1,
            3 => total.saturating_sub(c.rng.range(1, 12)),
            4 => c.rng.below(total.min(30)),
            _ => c.rng.below(total)
        };
        let mut buf = vec![0xA5u8; room];
        let Some(r) = c.lib("encode", || encode(&j, &mut buf[..])) else { return };
        if room >= total {
            c.check(r == Ok(total) && buf[..total] == whole[..] && buf[total..].iter().all(|x| *x == 0xA5), &format!("slice-sink:{n}"), || format!("{what}: room {room} of {total}: {r:?}"));
        } else {
            c.check(r.is_err(), &format!("no-room-reported-as-success:{n}"), || format!("{what}: room {room} of {total}: {r:?}"));
            c.tag("no-room");
        }
        c.saw(hash_bytes(&whole) ^ room as u64);
    }
    // a cursor over a vector
    let mut cur = io::Cursor::new(Vec::new());
    let Some(r) = c.lib("encode", || encode(&j, &mut cur)) else { return };
    c.check(r == Ok(total) && cur.get_ref()[..] == whole[..], &format!("cursor-sink:{n}"), || format!("{what}: {r:?}"));
    for k in 0..8 {
        let mut out = vec![];
        let piece = *c.rng.pick(&[1usize, 2, 5, 64, 1 << 20]);
        let (mut fb, mut fc, mut ints) = (usize::MAX, usize::MAX, 0);
        match k {
            0 => {}
            1 | 2 => ints = c.rng.range(2, 6),
            3 | 4 => fb = c.rng.below(total),
            5 => fb = total - 1,
            6 => fc = c.rng.below(6),
            _ => fc = c.rng.below(60)
        }
        let zero = c.rng.one_in(3);
        let kind = *c.rng.pick(&[io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::StorageFull, io::ErrorKind::WouldBlock, io::ErrorKind::UnexpectedEof]);
        let seed = c.rng.u64();
        let mut calls = 0;
        let r = c.lib("encode", || {
            let mut s = Sink { out: &mut out, rng: Rng::new(seed), piece, interrupts: ints, fail_byte: fb, fail_call: fc, kind, zero, calls: 0 };
            let r = encode(&j, &mut s);
            calls = s.calls;
            r
        });
        let Some(r) = r else { return };
        let failed = fb < total || calls > fc;
        let how = format!("{what}: piece {piece} interrupts {ints} fails at byte {fb} call {fc} ({kind:?}, zero {zero}), {} of {total} delivered", out.len());
        if failed {
            c.check(r.is_err(), &format!("failing-sink-reported-as-success:{n}"), || format!("{how}: {r:?}"));
            c.tag("failing-sink");
        } else {
            c.check(r == Ok(total), &format!("short-writes:{n}"), || format!("{how}: {r:?}"));
            c.check(out == whole, &format!("short-writes-bytes:{n}"), || how.clone());
            c.tag("short-writes");
        }
        c.check(whole.starts_with(&out), &format!("sink-bytes:{n}"), || format!("{how}: not a prefix"));
        c.saw(hash_bytes(&whole) ^ (k as u64) << 40 ^ fb as u64);
    }
}
/// every single byte position of a small file
pub fn r08_every(c: &mut Case) {
    let enc = ENCS[c.idx as usize % ENCS.len()];
    let mut j = job(&mut c.rng, enc);
    while j.px.len() > 600 {
        j = job(&mut c.rng, enc);
    }
    let n = format!("{enc:?}").to_lowercase();
    let mut whole = vec![];
    let Some(Ok(_)) = c.lib("encode", || encode(&j, &mut whole)) else {
        c.saw_trivial();
        return;
    };
    for room in 0..whole.len() {
        let mut buf = vec![0u8; room];
        let Some(r) = c.lib("encode", || encode(&j, &mut buf[..])) else { return };
        if !c.check(r.is_err(), &format!("no-room-reported-as-success:{n}"), || format!("{:?} {:?} {}x{}: room {room} of {}: {r:?}", j.o.colorspace(), j.o.depth(), j.o.width(), j.o.height(), whole.len())) {
            return;
        }
        c.saw(hash_bytes(&whole) ^ room as u64);
    }
    c.tag_n("byte-positions", whole.len() as u64);
}
