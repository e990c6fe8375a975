//! R10: the byte reader and writer against a plain byte string.
#[cfg(feature = "std")]
use crate::decode::Choppy;
#[cfg(feature = "std")]
use std::io::{BufReader, Cursor};
use zune_core::bytestream::{ZByteReaderTrait, ZCursor, ZReader, ZSeekFrom, ZWriter};
use zvcore::{hash_bytes, Case, Rng};

struct Model<'a> {
    b: &'a [u8],
    p: u64
}
impl Model<'_> {
    fn left(&self) -> usize {
        (self.b.len() as u64).saturating_sub(self.p) as usize
    }
    fn rest(&self) -> &[u8] {
        &self.b[(self.p.min(self.b.len() as u64)) as usize..]
    }
}
macro_rules! ints {
    ($c:ident, $r:ident, $m:ident, $name:ident, $past:ident, $k:expr, $($i:expr => $t:ty, $be:ident, $le:ident, $bee:ident, $lee:ident);*) => {
        match $k {
            $($i => {
                const N: usize = std::mem::size_of::<$t>();
                let err = $c.rng.bool();
                let big = $c.rng.bool();
                let want: Option<$t> = if $m.left() >= N {
                    let a: [u8; N] = $m.rest()[..N].try_into().unwrap();
                    Some(if big { <$t>::from_be_bytes(a) } else { <$t>::from_le_bytes(a) })
                } else { None };
                if err {
                    let g = if big { $r.$bee() } else { $r.$lee() };
                    let g = g.ok();
                    $c.check(g == want, &format!("int-or-error:{}", $name), || format!("u{} big {big}: {g:?} want {want:?} at {} of {}", N * 8, $m.p, $m.b.len()));
                    if want.is_some() { $m.p += N as u64 }
                } else {
                    let g = if big { $r.$be() } else { $r.$le() };
                    $c.check(g == want.unwrap_or(0), &format!("int-or-zero:{}", $name), || format!("u{} big {big}: {g:#x} want {want:?} at {} of {}", N * 8, $m.p, $m.b.len()));
                    if want.is_some() { $m.p += N as u64 } else { $past = true }
                }
            })*
            _ => unreachable!()
        }
    };
}
fn drive<T: ZByteReaderTrait>(c: &mut Case, name: &str, b: &[u8], short: bool, t: T) {
    let mut r = ZReader::new(t);
    let mut m = Model { b, p: 0 };
    let len = b.len() as u64;
    let mut h = hash_bytes(b);
    for step in 0..c.rng.range(5, 40) {
        let mut past = false;
        let op = c.rng.below(18);
        h = h.rotate_left(5) ^ op as u64 ^ m.p;
        match op {
            0 | 1 => {
                let want = m.rest().first().copied();
                let g = r.read_u8();
                c.check(g == want.unwrap_or(0), &format!("read-u8:{name}"), || format!("{g} want {want:?} at {} of {len}", m.p));
                if want.is_some() {
                    m.p += 1
                } else {
                    past = true
                }
            }
            2 => {
                let want = m.rest().first().copied();
                let g = r.read_u8_err().ok();
                c.check(g == want, &format!("read-u8-err:{name}"), || format!("{g:?} want {want:?} at {} of {len}", m.p));
                if want.is_some() {
                    m.p += 1
                }
            }
            3 | 4 | 5 => {
                let k = c.rng.below(3);
                ints!(c, r, m, name, past, k,
                    0 => u16, get_u16_be, get_u16_le, get_u16_be_err, get_u16_le_err;
                    1 => u32, get_u32_be, get_u32_le, get_u32_be_err, get_u32_le_err;
                    2 => u64, get_u64_be, get_u64_le, get_u64_be_err, get_u64_le_err);
            }
            6 => {
                let n = if c.rng.one_in(5) { c.rng.below(200) } else { c.rng.below(9) };
                let g = r.skip(n);
                m.p += n as u64;
                c.check(g.as_ref().ok() == Some(&m.p), &format!("skip:{name}"), || format!("skip {n}: {g:?} want {}", m.p));
            }
            7 => {
                let n = c.rng.below(12) as u64;
                let g = r.rewind(n as usize);
                if n <= m.p {
                    m.p -= n;
                    c.check(g.as_ref().ok() == Some(&m.p), &format!("rewind:{name}"), || format!("rewind {n}: {g:?} want {}", m.p));
                } else {
                    c.check(g.is_err(), &format!("rewind-before-start:{name}"), || format!("rewind {n} from {}: {g:?}", m.p));
                }
            }
            8 => {
                let (from, want) = match c.rng.below(3) {
                    0 => {
                        // far beyond the end is a place like any other
                        let p = if c.rng.one_in(12) { *c.rng.pick(&[1u64 << 31, 1 << 32, 1 << 40, i64::MAX as u64 - 5000]) } else { c.rng.below(b.len() + 20) as u64 };
                        (ZSeekFrom::Start(p), p as i64)
                    }
                    1 => {
                        let d = c.rng.irange(-(len as i64) - 3, 5);
                        (ZSeekFrom::End(d), len as i64 + d)
                    }
                    _ => {
                        let d = c.rng.irange(-10, 10);
                        (ZSeekFrom::Current(d), m.p as i64 + d)
                    }
                };
                let g = r.seek(from);
                if want >= 0 {
                    m.p = want as u64;
                    c.check(g.as_ref().ok() == Some(&m.p), &format!("seek:{name}"), || format!("{g:?} want {want}"));
                } else {
                    c.check(g.is_err(), &format!("seek-negative:{name}"), || format!("{g:?} want an error"));
                }
            }
            9 => {
                let p = c.rng.below(b.len() + 10);
                let g = r.set_position(p);
                m.p = p as u64;
                c.check(g.is_ok(), &format!("set-position:{name}"), || format!("{g:?}"));
            }
            10 | 11 => {
                let n = c.rng.below(24);
                let mut v = vec![0x77; n];
                let g = r.read_exact_bytes(&mut v);
                if n <= m.left() {
                    c.check(g.is_ok() && v == m.rest()[..n], &format!("read-exact:{name}"), || format!("{n} at {} of {len}: {g:?}", m.p));
                    m.p += n as u64;
                } else {
                    c.check(g.is_err(), &format!("read-exact-past-end:{name}"), || format!("{n} at {} of {len}: {g:?}", m.p));
                }
            }
            12 => {
                let n = c.rng.below(24);
                let mut v = vec![0x77; n];
                let g = r.read_bytes(&mut v);
                let most = n.min(m.left());
                match g {
                    Ok(k) => {
                        let good = if short { k <= most && (k > 0 || most == 0) } else { k <= most && (k > 0 || most == 0) };
                        c.check(good && v[..k] == m.rest()[..k.min(m.left())], &format!("read-some:{name}"), || format!("{n} at {} of {len}: {k}", m.p));
                        m.p += k as u64;
                    }
                    Err(e) => c.fail(format!("read-some:{name}"), format!("{e:?}"))
                }
            }
            13 | 14 => {
                let (p, n) = (c.rng.below(10), c.rng.below(20));
                let want = m.b.get(m.p as usize + p..m.p as usize + p + n);
                let g = r.peek_at(p, n);
                match (&g, want) {
                    (Ok(g), Some(w)) => {
                        let g = g.to_vec();
                        c.check(g == w, &format!("peek:{name}"), || format!("peek {p} {n} at {} of {len}", m.p));
                    }
                    (Err(_), None) => {}
                    // nothing was asked for past the end
                    (Ok(g), None) if n == 0 && g.is_empty() => {}
                    _ => {
                        let s = format!("peek {p} {n} at {} of {len}: ok {}", m.p, g.is_ok());
                        c.fail(format!("peek:{name}"), s)
                    }
                }
            }
            15 => {
                let want = m.p >= len;
                let g = r.eof();
                c.check(g.as_ref().ok() == Some(&want), &format!("eof:{name}"), || format!("{g:?} at {} of {len}", m.p));
            }
            16 => {
                let want: Option<[u8; 5]> = m.rest().get(..5).map(|x| x.try_into().unwrap());
                if c.rng.bool() {
                    let g = r.read_fixed_bytes_or_error::<5>().ok();
                    c.check(g == want, &format!("fixed-or-error:{name}"), || format!("{g:?} want {want:?}"));
                    if want.is_some() {
                        m.p += 5
                    }
                } else {
                    let g = r.read_fixed_bytes_or_zero::<5>();
                    c.check(g == want.unwrap_or([0; 5]), &format!("fixed-or-zero:{name}"), || format!("{g:?} want {want:?} at {} of {len}", m.p));
                    if want.is_some() {
                        m.p += 5
                    } else {
                        past = true
                    }
                }
            }
            _ => {}
        }
        let g = r.position().ok();
        if past {
            // a read that could not be satisfied may stop anywhere between here and the end of what was asked
            let ok = g.map(|g| g >= m.p && g <= m.p + 8).unwrap_or(false);
            c.check(ok, &format!("position-after-past-end:{name}"), || format!("{g:?} from {}", m.p));
            m.p = g.unwrap_or(m.p);
        } else {
            c.check(g == Some(m.p), &format!("position:{name}"), || format!("op {op}: {g:?} want {} of {len}, step {step}", m.p));
        }
        c.saw(h);
        if c.failed() {
            return;
        }
    }
    c.tag(name);
}
pub fn reader(c: &mut Case) {
    let n = if c.rng.one_in(6) { c.rng.below(4) } else { c.rng.below(90) };
    let b = c.rng.bytes(n);
    c.blob(&b);
    let seed = c.rng.u64();
    let cap = *c.rng.pick(&[1usize, 2, 3, 7, 16, 4096]);
    let piece = *c.rng.pick(&[1usize, 2, 5, 100]);
    // without the standard library there are only the two cursors
    let k = if cfg!(feature = "std") { c.idx % 7 } else { c.idx % 2 };
    let r = zvcore::catch(|| match k {
        0 => drive(c, "slice", &b, false, ZCursor::new(&b[..])),
        1 => drive(c, "vector", &b, false, ZCursor::new(b.clone())),
        #[cfg(feature = "std")]
        2 => drive(c, "std-cursor", &b, false, Cursor::new(&b[..])),
        #[cfg(feature = "std")]
        3 => drive(c, "buffered", &b, true, BufReader::with_capacity(cap, Cursor::new(&b[..]))),
        #[cfg(feature = "std")]
        4 => drive(c, "short-reads", &b, true, Choppy::new(&b, seed, piece, 0)),
        #[cfg(feature = "std")]
        5 => drive(c, "interrupted", &b, true, BufReader::with_capacity(cap, Choppy::new(&b, seed, piece, 3))),
        #[cfg(feature = "std")]
        _ => drive(c, "interrupted-direct", &b, true, Choppy::new(&b, seed, piece, 3)),
        #[cfg(not(feature = "std"))]
        _ => unreachable!("{seed} {piece}")
    });
    if let Err(p) = r {
        c.fail(p.sig(), format!("reader: panicked at {}:{}: {}", p.file, p.line, p.msg));
    }
}
/// the trait's own methods
pub fn raw(c: &mut Case) {
    let n = c.rng.below(60);
    let b = c.rng.bytes(n);
    c.blob(&b);
    let seed = c.rng.u64();
    let piece = *c.rng.pick(&[1usize, 2, 5, 100]);
    fn go<T: ZByteReaderTrait>(c: &mut Case, name: &str, b: &[u8], mut t: T) {
        let mut p = 0usize;
        for _ in 0..c.rng.range(3, 20) {
            let left = b.len() - p;
            let n = c.rng.below(12);
            let mut v = vec![0x77u8; n];
            match c.rng.below(6) {
                0 => {
                    let g = t.peek_bytes(&mut v);
                    match g {
                        Ok(k) => {
                            c.check(k <= n.min(left) && (k > 0 || n.min(left) == 0) && v[..k] == b[p..p + k], &format!("peek-some:{name}"), || format!("{k} of {n} at {p}"));
                        }
                        Err(e) => c.fail(format!("peek-some:{name}"), format!("{e:?}"))
                    }
                }
                1 => {
                    let g = t.peek_exact_bytes(&mut v);
                    if n <= left {
                        c.check(g.is_ok() && v == b[p..p + n], &format!("peek-exact:{name}"), || format!("{g:?} {n} at {p}"));
                    } else {
                        c.check(g.is_err(), &format!("peek-exact:{name}"), || format!("{n} at {p} of {}", b.len()));
                    }
                }
                2 => {
                    let mut a = [0x77u8; 6];
                    t.read_const_bytes_no_error(&mut a);
                    if left >= 6 {
                        c.check(a == b[p..p + 6], &format!("const-no-error:{name}"), || format!("{a:?} at {p}"));
                        p += 6;
                    } else {
                        c.check(a == [0x77; 6], &format!("const-no-error-untouched:{name}"), || format!("{a:?} at {p} of {}", b.len()));
                    }
                }
                3 => {
                    let g = t.read_exact_bytes(&mut v);
                    if n <= left {
                        c.check(g.is_ok() && v == b[p..p + n], &format!("exact:{name}"), || format!("{g:?}"));
                        p += n;
                    } else {
                        c.check(g.is_err(), &format!("exact:{name}"), || format!("{n} at {p} of {}", b.len()));
                    }
                }
                4 => {
                    let g = t.is_eof().ok();
                    c.check(g == Some(left == 0), &format!("is-eof:{name}"), || format!("{g:?}"));
                }
                _ => {
                    if c.rng.one_in(4) {
                        let mut sink = vec![1, 2, 3];
                        let g = t.read_remaining(&mut sink).ok();
                        c.check(g == Some(left) && sink[3..] == b[p..] && sink[..3] == [1, 2, 3], &format!("remaining:{name}"), || format!("{g:?} want {left}"));
                        p = b.len();
                    }
                }
            }
            let g = t.z_position().ok();
            c.check(g == Some(p as u64), &format!("raw-position:{name}"), || format!("{g:?} want {p} of {}", b.len()));
            c.saw(hash_bytes(b) ^ p as u64);
            if c.failed() {
                return;
            }
        }
        c.tag(name);
    }
    let k = if cfg!(feature = "std") { c.idx % 5 } else { 0 };
    let r = zvcore::catch(|| match k {
        0 => go(c, "slice", &b, ZCursor::new(&b[..])),
        #[cfg(feature = "std")]
        1 => go(c, "std-cursor", &b, Cursor::new(b.clone())),
        #[cfg(feature = "std")]
        2 => go(c, "buffered", &b, BufReader::with_capacity(3, Cursor::new(&b[..]))),
        #[cfg(feature = "std")]
        3 => go(c, "short-reads", &b, Choppy::new(&b, seed, piece, 0)),
        #[cfg(feature = "std")]
        _ => go(c, "interrupted", &b, Choppy::new(&b, seed, piece, 3)),
        #[cfg(not(feature = "std"))]
        _ => unreachable!("{seed} {piece}")
    });
    if let Err(p) = r {
        c.fail(p.sig(), format!("reader: panicked at {}:{}: {}", p.file, p.line, p.msg));
    }
}
/// a random series of writes; Err stops it
fn writes(rng: &mut Rng, want: &mut Vec<u8>, room: usize, w: &mut ZWriter<impl zune_core::bytestream::ZByteWriterTrait>) -> Result<(usize, bool), String> {
    let mut full = false;
    for _ in 0..rng.range(1, 30) {
        let v = rng.u64();
        let before = want.len();
        let (r, exact): (Result<(), ()>, Vec<u8>) = match rng.below(10) {
            0 => (w.write_u8_err(v as u8).map_err(|_| ()), vec![v as u8]),
            1 => (w.write_u16_be_err(v as u16).map_err(|_| ()), (v as u16).to_be_bytes().to_vec()),
            2 => (w.write_u16_le_err(v as u16).map_err(|_| ()), (v as u16).to_le_bytes().to_vec()),
            3 => (w.write_u32_be_err(v as u32).map_err(|_| ()), (v as u32).to_be_bytes().to_vec()),
            4 => (w.write_u32_le_err(v as u32).map_err(|_| ()), (v as u32).to_le_bytes().to_vec()),
            5 => (w.write_u64_be_err(v).map_err(|_| ()), v.to_be_bytes().to_vec()),
            6 => (w.write_u64_le_err(v).map_err(|_| ()), v.to_le_bytes().to_vec()),
            7 => {
                let n = rng.below(30);
                let b = rng.bytes(n);
                (w.write_all(&b).map_err(|_| ()), b)
            }
            8 => {
                let b = [v as u8, 1, 2];
                (w.write_const_bytes(&b).map_err(|_| ()), b.to_vec())
            }
            _ => {
                let n = rng.below(30);
                let b = rng.bytes(n);
                match w.write(&b) {
                    Ok(k) => {
                        if k > b.len() || before + k > room {
                            return Err(format!("write of {} reports {k}", b.len()));
                        }
                        want.extend(&b[..k]);
                        if w.bytes_written() != want.len() {
                            return Err(format!("bytes_written {} after {} bytes", w.bytes_written(), want.len()));
                        }
                        continue;
                    }
                    Err(_) => return Err("write failed".into())
                }
            }
        };
        if before + exact.len() <= room {
            if r.is_err() {
                return Err(format!("refused {} bytes with {} of {room} used", exact.len(), before));
            }
            want.extend(&exact);
            if w.bytes_written() != want.len() {
                return Err(format!("bytes_written {} after {} bytes", w.bytes_written(), want.len()));
            }
        } else {
            if r.is_ok() {
                return Err(format!("accepted {} bytes with {} of {room} used", exact.len(), before));
            }
            full = true;
            break;
        }
    }
    Ok((w.bytes_written(), full))
}
pub fn writer(c: &mut Case) {
    let room = if c.rng.bool() { c.rng.below(80) } else { 4000 };
    let kind = if cfg!(feature = "std") { c.idx % 3 } else { c.idx % 2 };
    let mut rng = Rng::new(c.rng.u64());
    let mut want = vec![];
    let mut out: Vec<u8> = vec![];
    let mut buf = vec![0u8; room];
    let r = c.lib("writer", || match kind {
        0 => {
            let mut w = ZWriter::new(&mut out);
            let r = writes(&mut rng, &mut want, usize::MAX, &mut w);
            r
        }
        1 => {
            let mut w = ZWriter::new(&mut buf[..]);
            writes(&mut rng, &mut want, room, &mut w)
        }
        #[cfg(not(feature = "std"))]
        _ => unreachable!(),
        #[cfg(feature = "std")]
        _ => {
            let mut w = ZWriter::new(Cursor::new(Vec::new()));
            let r = writes(&mut rng, &mut want, usize::MAX, &mut w);
            out = w.inner().into_inner();
            r
        }
    });
    let Some(r) = r else { return };
    let name = ["vector", "slice", "std-cursor"][kind as usize];
    match r {
        Err(e) => c.fail(format!("writer:{name}"), e),
        Ok((_, full)) => {
            let got = if kind == 1 { &buf[..want.len()] } else { &out[..] };
            c.check(got == &want[..], &format!("writer-bytes:{name}"), || zvcore::diff_msg(got, &want));
            if full {
                c.tag("ran-out");
            }
        }
    }
    c.tag(name);
    c.saw(hash_bytes(&want));
}

/// every kind of read from places next to the largest there is
pub fn far(c: &mut Case) {
    let n = c.rng.below(20);
    let b = c.rng.bytes(n);
    let p = if c.rng.bool() { u64::MAX - c.rng.below(10) as u64 } else { i64::MAX as u64 - c.rng.below(4) as u64 + c.rng.below(8) as u64 };
    let op = c.rng.below(12);
    let len = c.rng.below(24);
    fn go<T: ZByteReaderTrait>(t: T, p: u64, op: usize, len: usize) -> Result<(), String> {
        let mut r = ZReader::new(t);
        if r.seek(ZSeekFrom::Start(p)).is_err() {
            return Ok(());
        }
        let mut v = vec![0u8; len];
        let ok = match op {
            0 => r.read_u8() == 0,
            1 => r.read_u8_err().is_err(),
            2 => r.get_u16_be() == 0 && r.get_u64_le() == 0,
            3 => r.get_u32_le_err().is_err(),
            4 => len == 0 || r.read_exact_bytes(&mut v).is_err(),
            5 => !matches!(r.read_bytes(&mut v), Ok(k) if k > 0),
            6 => !matches!(r.peek_at(0, len), Ok(x) if !x.is_empty()),
            7 => r.eof().map(|x| x).unwrap_or(true),
            8 => r.read_fixed_bytes_or_error::<7>().is_err(),
            9 => r.read_fixed_bytes_or_zero::<7>() == [0; 7],
            10 => {
                // all that is left is nothing
                let mut s = vec![1];
                let mut t = r.consume();
                let _ = t.read_remaining(&mut s);
                r = ZReader::new(t);
                s == [1]
            }
            _ => {
                let a = r.skip(len).is_ok();
                let _ = r.rewind(len);
                let x = r.position().unwrap_or(p);
                !a || x == p
            }
        };
        if ok { Ok(()) } else { Err(format!("operation {op} with {len} gave something")) }
    }
    let k = if cfg!(feature = "std") { c.idx % 3 } else { c.idx % 2 };
    let name = ["slice", "vector", "std-cursor"][k as usize];
    let r = c.lib("reader", || match k {
        0 => go(ZCursor::new(&b[..]), p, op, len),
        1 => go(ZCursor::new(b.clone()), p, op, len),
        #[cfg(not(feature = "std"))]
        _ => unreachable!(),
        #[cfg(feature = "std")]
        _ => go(Cursor::new(&b[..]), p, op, len)
    });
    let Some(r) = r else { return };
    if let Err(e) = r {
        c.fail(format!("far:{name}"), format!("at {p} of {}: {e}", b.len()));
    }
    c.tag(name);
    c.saw(p ^ (op as u64) << 50 ^ len as u64);
}
