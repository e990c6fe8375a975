use flate2::{Compression, FlushCompress};
use std::io::{Read, Write};
use zune_inflate::{DeflateDecoder, DeflateEncoder, DeflateOptions};
use zvcore::*;
use zvgen::deflate as zd;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Wrap {
    Raw,
    Zlib,
    Gzip
}
fn payload(rng: &mut Rng, thorough: bool) -> Vec<u8> {
    let max = if thorough { 3_000_000 } else { 400_000 };
    let n = match rng.below(8) {
        0 => rng.below(4),
        1 => rng.below(64),
        2 | 3 => rng.below(3000),
        4 => *rng.pick(&[65534usize, 65535, 65536, 65537, 32768, 32767, 131070, 131071, 5552, 5553]),
        5 => rng.below(max),
        _ => rng.below(70_000)
    };
    rng.texture(n)
}
/// compress `data` with a foreign compressor
fn compress(c: &mut Case, data: &[u8], wrap: Wrap) -> (Vec<u8>, String) {
    let rng = &mut c.rng;
    match rng.below(3) {
        0 => {
            let lvl = rng.range(0, 9) as u32;
            let flush_every = if rng.bool() { usize::MAX } else { rng.range(1, 5000) };
            let how = format!("flate2 level {lvl} flush {flush_every}");
            let mut out = vec![];
            match wrap {
                Wrap::Gzip => {
                    let mut b = flate2::GzBuilder::new();
                    if rng.bool() {
                        b = b.filename("some name").comment("c");
                    }
                    if rng.bool() {
                        let n = rng.below(100);
                        b = b.extra(rng.bytes(n));
                    }
                    let mut e = b.write(&mut out, Compression::new(lvl));
                    for ch in data.chunks(flush_every.min(1 << 30)) {
                        e.write_all(ch).unwrap();
                        if flush_every != usize::MAX {
                            e.flush().unwrap();
                        }
                    }
                    e.finish().unwrap();
                }
                _ => {
                    let mut cmp = flate2::Compress::new(Compression::new(lvl), wrap == Wrap::Zlib);
                    out.reserve(data.len() + data.len() / 2 + 1024 + if flush_every < 100 { data.len() * 8 } else { 0 });
                    for ch in data.chunks(flush_every.min(1 << 30)) {
                        let mut p = 0;
                        let fl = if flush_every == usize::MAX { FlushCompress::None } else if rng.bool() { FlushCompress::Full } else { FlushCompress::Sync };
                        loop {
                            let before = cmp.total_in();
                            let bo = cmp.total_out();
                            cmp.compress_vec(&ch[p..], &mut out, fl).unwrap();
                            p += (cmp.total_in() - before) as usize;
                            if p == ch.len() && (fl == FlushCompress::None || cmp.total_out() == bo || out.len() < out.capacity()) {
                                break;
                            }
                            out.reserve(1 << 16);
                        }
                    }
                    loop {
                        let s = cmp.compress_vec(&[], &mut out, FlushCompress::Finish).unwrap();
                        if s == flate2::Status::StreamEnd {
                            break;
                        }
                        out.reserve(1 << 16);
                    }
                }
            }
            (out, how)
        }
        _ => {
            let lvl = rng.range(1, 12) as i32;
            let mut e = libdeflater::Compressor::new(libdeflater::CompressionLvl::new(lvl).unwrap());
            let mut out = vec![0; e.zlib_compress_bound(data.len()) + 64];
            let n = match wrap {
                Wrap::Raw => e.deflate_compress(data, &mut out),
                Wrap::Zlib => e.zlib_compress(data, &mut out),
                Wrap::Gzip => e.gzip_compress(data, &mut out)
            }
            .unwrap();
            out.truncate(n);
            (out, format!("libdeflate level {lvl}"))
        }
    }
}
fn zune(d: &[u8], o: DeflateOptions, w: Wrap) -> Result<Vec<u8>, String> {
    let mut x = DeflateDecoder::new_with_options(d, o);
    match w {
        Wrap::Raw => x.decode_deflate(),
        Wrap::Zlib => x.decode_zlib(),
        Wrap::Gzip => x.decode_gzip()
    }
    .map_err(|e| format!("{:?}", e.error))
}
fn ref_miniz(d: &[u8], w: Wrap, cap: usize) -> Option<Vec<u8>> {
    let mut o = vec![];
    match w {
        Wrap::Raw => flate2::read::DeflateDecoder::new(d).take(cap as u64).read_to_end(&mut o),
        Wrap::Zlib => flate2::read::ZlibDecoder::new(d).take(cap as u64).read_to_end(&mut o),
        Wrap::Gzip => flate2::read::GzDecoder::new(d).take(cap as u64).read_to_end(&mut o)
    }
    .ok()?;
    if o.len() == cap {
        return None;
    }
    Some(o)
}
fn ref_libdeflate(d: &[u8], w: Wrap, cap: usize) -> Option<Vec<u8>> {
    let mut x = libdeflater::Decompressor::new();
    let mut o = vec![0; cap];
    let n = match w {
        Wrap::Raw => x.deflate_decompress(d, &mut o),
        Wrap::Zlib => x.zlib_decompress(d, &mut o),
        Wrap::Gzip => x.gzip_decompress(d, &mut o)
    }
    .ok()?;
    o.truncate(n);
    Some(o)
}
fn opts(rng: &mut Rng, len: usize) -> (DeflateOptions, String) {
    let mut o = DeflateOptions::default();
    let mut s = String::new();
    if rng.bool() {
        let h = *rng.pick(&[0usize, 1, 5, 37, len, len.saturating_sub(1), len + 1, len / 2, 1 << 20]);
        o = o.set_size_hint(h);
        s += &format!(" hint {h}");
    }
    if rng.bool() {
        let l = *rng.pick(&[len, len + 1, len * 2 + 100, usize::MAX]);
        o = o.set_limit(l);
        s += &format!(" limit {l}");
    }
    if rng.one_in(4) {
        o = o.set_confirm_checksum(false);
        s += " noconfirm";
    }
    (o, s)
}
fn make(c: &mut Case) -> (Vec<u8>, Vec<u8>, Wrap, String) {
    let wrap = *c.rng.pick(&[Wrap::Raw, Wrap::Zlib, Wrap::Gzip]);
    if c.rng.bool() {
        let max = if c.rng.one_in(8) { 300_000 } else { 40_000 };
        let (raw, data) = zd::random_stream(&mut c.rng, max);
        let s = match wrap {
            Wrap::Raw => raw,
            Wrap::Zlib => zd::zlib_wrap(&raw, &data),
            Wrap::Gzip => zd::gzip_wrap(&mut c.rng, &raw, &data)
        };
        (s, data, wrap, "random code trees".into())
    } else {
        let th = c.thorough;
        let data = payload(&mut c.rng, th);
        let (s, how) = compress(c, &data, wrap);
        (s, data, wrap, how)
    }
}
fn exact(c: &mut Case) {
    let (s, data, wrap, how) = make(c);
    // the generator's claim is confirmed by a reference before the code under test is judged
    match ref_miniz(&s, wrap, data.len() + 1) {
        Some(r) if r == data => {}
        _ => match ref_libdeflate(&s, wrap, data.len() + 64) {
            Some(r) if r == data => c.tag("confirmed-by-libdeflate-only"),
            _ => {
                c.tag("reference-unconfirmed");
                return;
            }
        }
    }
    c.blob(&s);
    let (o, os) = opts(&mut c.rng, data.len());
    let hash = hash_bytes(&s);
    let tail = c.rng.one_in(5);
    let mut s2 = s.clone();
    if tail {
        // bytes after the stream end belong to someone else
        let k = c.rng.range(1, 40);
        let t = c.rng.bytes(k);
        s2.extend(t);
    }
    let got = c.lib("decode", || zune(&s2, o, wrap));
    c.sample(|| format!("{wrap:?} {how}{os}: {} -> {} bytes", s.len(), data.len()));
    match got {
        None => {}
        Some(Ok(v)) if v == data => {}
        Some(Ok(v)) => c.fail(format!("wrong-bytes-{wrap:?}"), format!("{how}{os} tail {tail}: {}", diff_msg(&v, &data))),
        Some(Err(e)) => c.fail(format!("valid-rejected-{wrap:?}"), format!("{how}{os} tail {tail}, {} bytes for {}: {e}", s.len(), data.len()))
    }
    if data.is_empty() {
        c.saw_trivial()
    } else {
        c.saw(hash)
    }
    c.tag(&format!("wrap-{wrap:?}"));
    c.tag(&how.split(' ').take(1).collect::<String>());
}
/// corrupt or truncated streams
fn damaged(c: &mut Case) {
    let (s, data, wrap, how) = make(c);
    if s.len() > 200_000 {
        return;
    }
    match ref_miniz(&s, wrap, data.len() + 1) {
        Some(r) if r == data => {}
        _ => return
    }
    for _ in 0..12 {
        let mut d = s.clone();
        let what;
        let mut must_fail = false;
        match c.rng.below(6) {
            0 => {
                let n = if c.rng.bool() { c.rng.below(d.len()) } else { d.len() - c.rng.range(1, d.len().min(12)) };
                d.truncate(n);
                what = "truncated";
                // every byte of a stream is needed, unless only padding is cut (never for whole bytes)
                must_fail = true;
            }
            1 if wrap != Wrap::Raw => {
                let t = if wrap == Wrap::Zlib { 4 } else { 8 };
                let n = d.len();
                let i = n - 1 - c.rng.below(t);
                d[i] ^= 1 << c.rng.below(8);
                what = "trailer";
                must_fail = true;
            }
            2 => {
                let i = c.rng.below(d.len().min(40));
                d[i] ^= 1 << c.rng.below(8);
                what = "header-bit";
            }
            3 => {
                let i = c.rng.below(d.len());
                d[i] = c.rng.u8();
                what = "byte";
            }
            4 => {
                let i = c.rng.below(d.len());
                let n = c.rng.range(1, 20).min(d.len() - i);
                d.drain(i..i + n);
                what = "deleted";
            }
            _ => {
                let i = c.rng.below(d.len());
                d[i] ^= 1 << c.rng.below(8);
                what = "bit";
            }
        }
        if d == s {
            continue;
        }
        c.blob(&d);
        let cap = data.len() * 4 + 2_000_000;
        let o = DeflateOptions::default().set_limit(cap);
        let Some(got) = c.lib("decode damaged", || zune(&d, o, wrap)) else { return };
        c.saw(hash_bytes(&d));
        c.tag(what);
        if let Ok(v) = got {
            c.tag("accepted");
            if must_fail {
                c.fail(format!("accepted-{what}-{wrap:?}"), format!("{how}: {} of {} bytes, returned {} bytes (original {})", d.len(), s.len(), v.len(), data.len()));
                return;
            }
            if wrap != Wrap::Raw && v != data {
                // an accepted zlib/gzip stream must match the checksum it carries
                let m = ref_miniz(&d, wrap, v.len() + 1);
                let l = ref_libdeflate(&d, wrap, v.len() + 1);
                if m.as_ref() != Some(&v) && l.as_ref() != Some(&v) {
                    c.fail(format!("accepted-wrong-{wrap:?}"), format!("{how} {what}: {} bytes returned; references: miniz {:?}, libdeflate {:?}", v.len(), m.map(|x| x.len()), l.map(|x| x.len())));
                    return;
                }
            } else if wrap == Wrap::Raw {
                let m = ref_miniz(&d, wrap, v.len() + 1);
                let l = ref_libdeflate(&d, wrap, v.len() + 1);
                if m.is_none() && l.is_none() {
                    c.fail("accepted-invalid-Raw".to_string(), format!("{how} {what}: zune accepted a stream both references reject ({} bytes out)", v.len()));
                    return;
                }
                if m.as_ref() != Some(&v) && l.as_ref() != Some(&v) {
                    c.fail("accepted-wrong-Raw".to_string(), format!("{how} {what}: differs from both references"));
                    return;
                }
            }
        } else {
            c.tag("refused");
        }
    }
}
/// streams whose checksums match the data but whose code tables, block types or headers are invalid
fn crafted(c: &mut Case) {
    let mut w = zd::BitW::new();
    let kind = c.rng.below(7);
    let mut body = vec![];
    let name;
    match kind {
        0 => {
            name = "reserved-block";
            w.bits(1, 1);
            w.bits(3, 2);
            for _ in 0..40 {
                w.bits(c.rng.u64() & 255, 8)
            }
        }
        1 => {
            name = "far-distance";
            // fixed block: n literals then a match reaching before the start
            w.bits(1, 1);
            w.bits(1, 2);
            let (l, _) = zd::fixed_lens();
            let lc = zd::canonical(&l);
            let n = c.rng.below(60);
            for _ in 0..n {
                w.code(lc[65], 8);
                body.push(65)
            }
            w.code(lc[257], 7); // length 3
            let far = n + 1 + c.rng.below(2000);
            let ds = (0..30).rev().find(|&i| zd::DBASE[i] as usize <= far).unwrap();
            w.code(ds as u32, 5);
            w.bits((far - zd::DBASE[ds] as usize) as u64, zd::DEXTRA[ds] as u32);
            for _ in 0..c.rng.below(60) {
                w.code(lc[66], 8);
            }
            w.code(lc[256], 7);
        }
        2 => {
            name = "bad-stored-len";
            w.bits(1, 1);
            w.bits(0, 2);
            w.align(0);
            let n = c.rng.range(1, 100);
            let k = 1u64 << c.rng.below(16);
            w.bits(n as u64, 16);
            w.bits((!(n as u64) & 0xffff) ^ k, 16);
            for _ in 0..n {
                w.bits(7, 8);
                body.push(7)
            }
        }
        3 | 4 => {
            name = if kind == 3 { "oversubscribed-codelen" } else { "incomplete-codelen" };
            w.bits(1, 1);
            w.bits(2, 2);
            w.bits(0, 5);
            w.bits(0, 5);
            w.bits(15, 4);
            for i in 0..19 {
                // over: three codes of length 1; incomplete: two codes of length 7 only
                let v = if kind == 3 { (i < 3) as u64 } else if i < 2 { 7 } else { 0 };
                w.bits(v, 3)
            }
            for _ in 0..400 {
                w.bits(c.rng.u64() & 255, 8)
            }
        }
        5 => {
            name = "bad-distance-symbol";
            w.bits(1, 1);
            w.bits(1, 2);
            let (l, _) = zd::fixed_lens();
            let lc = zd::canonical(&l);
            for _ in 0..40 {
                w.code(lc[65], 8);
                body.push(65)
            }
            w.code(lc[257], 7);
            w.code(30 + c.rng.below(2) as u32, 5); // symbols 30, 31 are reserved
            for _ in 0..40 {
                w.code(lc[66], 8);
            }
            w.code(lc[256], 7);
        }
        _ => {
            name = "bad-length-symbol";
            w.bits(1, 1);
            w.bits(1, 2);
            let (l, _) = zd::fixed_lens();
            let lc = zd::canonical(&l);
            for _ in 0..40 {
                w.code(lc[65], 8);
                body.push(65)
            }
            w.code(lc[286 + c.rng.below(2)], 8);
            w.code(0, 5);
            for _ in 0..40 {
                w.code(lc[66], 8);
            }
            w.code(lc[256], 7);
        }
    }
    let raw = w.finish();
    c.blob(&raw);
    c.saw(hash_bytes(&raw));
    c.tag(name);
    c.sample(|| format!("{name}: {:02x?}", &raw[..raw.len().min(24)]));
    let cap = 10_000_000;
    if ref_miniz(&raw, Wrap::Raw, cap).is_some() || ref_libdeflate(&raw, Wrap::Raw, 1_000_000).is_some() {
        c.tag("crafted-accepted-by-a-reference");
        return;
    }
    if let Some(Ok(v)) = c.lib("decode crafted", || zune(&raw, DeflateOptions::default().set_limit(cap), Wrap::Raw)) {
        c.fail(format!("accepted-{name}"), format!("returned {} bytes as success", v.len()));
    }
    // invalid zlib/gzip container headers around valid data
    let d = c.rng.texture(300);
    let st = zd::stored(&d);
    let z = zd::zlib_wrap(&st, &d);
    let g = zd::gzip_wrap(&mut c.rng, &st, &d);
    let mut z2 = z.clone();
    let which = c.rng.below(3);
    let (what, bad, wrap) = match which {
        0 => {
            z2[0] = (z2[0] & 0xf0) | *c.rng.pick(&[0u8, 7, 9, 15]);
            ("zlib-method", fix_fcheck(z2), Wrap::Zlib)
        }
        1 => {
            z2[1] ^= 1 << c.rng.below(5);
            ("zlib-fcheck", z2, Wrap::Zlib)
        }
        _ => {
            let mut g2 = g.clone();
            match c.rng.below(4) {
                0 => g2[0] ^= 1,
                1 => g2[1] ^= 1 << c.rng.below(8),
                2 => g2[2] = *c.rng.pick(&[0u8, 7, 9]),
                _ => g2[3] |= 0x80
            }
            ("gzip-header", g2, Wrap::Gzip)
        }
    };
    c.blob(&bad);
    c.tag(what);
    if let Some(Ok(_)) = c.lib("decode bad container", || zune(&bad, DeflateOptions::default(), wrap)) {
        c.fail(format!("accepted-{what}"), "container header is invalid but decoding succeeded");
    }
}
fn fix_fcheck(mut z: Vec<u8>) -> Vec<u8> {
    z[1] &= 0xe0;
    let v = z[0] as u16 * 256 + z[1] as u16;
    z[1] |= ((31 - v % 31) % 31) as u8;
    z
}
/// every single-bit flip of short zlib/gzip streams
fn bitflips(c: &mut Case) {
    let wrap = *c.rng.pick(&[Wrap::Zlib, Wrap::Gzip]);
    let (raw, data) = zd::random_stream(&mut c.rng, 60);
    let s = if wrap == Wrap::Zlib {
        zd::zlib_wrap(&raw, &data)
    } else {
        let mut v = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 0];
        v.extend_from_slice(&raw);
        v.extend_from_slice(&zd::crc32(&data).to_le_bytes());
        v.extend_from_slice(&(data.len() as u32).to_le_bytes());
        v
    };
    if s.len() > 400 || ref_miniz(&s, wrap, 100_000).as_ref() != Some(&data) {
        return;
    }
    c.sample(|| format!("{wrap:?} stream of {} bytes, every bit flipped and every prefix", s.len()));
    for bit in 0..s.len() * 8 {
        let mut d = s.clone();
        d[bit / 8] ^= 1 << (bit % 8);
        c.saw(hash_bytes(&d));
        let Some(r) = c.lib("bit flip", || zune(&d, DeflateOptions::default().set_limit(1 << 20), wrap)) else {
            c.blob(&d);
            return;
        };
        if let Ok(v) = r {
            if v != data && ref_miniz(&d, wrap, v.len() + 1).as_ref() != Some(&v) {
                c.blob(&d);
                c.fail(format!("accepted-bitflip-{wrap:?}"), format!("bit {bit} of {} bytes flipped: success with different data", s.len()));
                return;
            }
        }
    }
    for n in 0..s.len() {
        c.saw(hash_bytes(&s[..n]));
        let Some(r) = c.lib("prefix", || zune(&s[..n], DeflateOptions::default(), wrap)) else {
            c.blob(&s[..n]);
            return;
        };
        if r.is_ok() {
            c.blob(&s[..n]);
            c.fail(format!("accepted-truncated-{wrap:?}"), format!("prefix of {n} of {} bytes accepted", s.len()));
            return;
        }
    }
}
fn limits(c: &mut Case) {
    let limit = *c.rng.pick(&[0usize, 1, 100, 1000, 4096, 65536, 300_000]);
    let slack = 256 * 1024;
    let n = limit + slack + c.rng.range(1, 2_000_000);
    let style = c.rng.below(4);
    let data = match style {
        0 => vec![c.rng.u8(); n],
        1 => c.rng.bytes(n),
        2 => {
            // literal-only, compressible alphabet
            let a = c.rng.bytes(3);
            (0..n).map(|_| *c.rng.pick(&a)).collect()
        }
        _ => c.rng.texture(n)
    };
    let wrap = *c.rng.pick(&[Wrap::Raw, Wrap::Zlib, Wrap::Gzip]);
    let (s, how) = if style == 2 {
        // literals only, fixed codes or dynamic without matches
        let mut w = zd::BitW::new();
        w.bits(1, 1);
        w.bits(1, 2);
        let (l, _) = zd::fixed_lens();
        let lc = zd::canonical(&l);
        for &b in &data {
            w.code(lc[b as usize], l[b as usize] as u32)
        }
        w.code(lc[256], 7);
        let raw = w.finish();
        (
            match wrap {
                Wrap::Raw => raw,
                Wrap::Zlib => zd::zlib_wrap(&raw, &data),
                Wrap::Gzip => zd::gzip_wrap(&mut c.rng, &raw, &data)
            },
            "fixed literals only".to_string()
        )
    } else {
        compress(c, &data, wrap)
    };
    c.blob(&s);
    let o = DeflateOptions::default().set_limit(limit).set_size_hint(1000);
    c.saw(hash_bytes(&s) ^ limit as u64);
    c.sample(|| format!("{wrap:?} {how}: {n} bytes under a limit of {limit}"));
    let r = c.lib("limit", || alloc::measure(|| {
        let mut x = DeflateDecoder::new_with_options(&s, o);
        let r = match wrap {
            Wrap::Raw => x.decode_deflate(),
            Wrap::Zlib => x.decode_zlib(),
            Wrap::Gzip => x.decode_gzip()
        };
        r.map_err(|e| e.data.len())
    }));
    let Some((r, peak, _)) = r else { return };
    match r {
        Ok(v) => c.fail("limit-ignored".to_string(), format!("{how}: limit {limit}, decoded {} bytes without an error", v.len())),
        Err(k) => {
            if k > limit + slack {
                c.fail("limit-overshoot".to_string(), format!("{how}: limit {limit}, produced {k} bytes before stopping"));
            } else if peak > 8 * (limit + slack) + (2 << 20) {
                c.fail("limit-memory".to_string(), format!("{how}: limit {limit}, allocated {peak} bytes"));
            }
        }
    }
}
fn enc(c: &mut Case) {
    let n = match c.rng.below(6) {
        0 => c.idx as usize % 300,
        1 => *c.rng.pick(&[65534usize, 65535, 65536, 65537, 131069, 131070, 131071, 131075, 196605, 655350, 655351]),
        2 => c.rng.below(200),
        3 => c.rng.below(200_000),
        _ => c.rng.below(5000)
    };
    let n = if c.thorough && c.rng.one_in(10) { 65535 * c.rng.range(1, 80) + c.rng.below(3) } else { n };
    let data = c.rng.texture(n);
    c.blob(&data);
    c.saw(hash_bytes(&data));
    c.sample(|| format!("{n} bytes"));
    let Some(z) = c.lib("encode", || DeflateEncoder::new(&data).encode_zlib()) else { return };
    if ref_miniz(&z, Wrap::Zlib, n + 1).as_ref() != Some(&data) {
        c.fail("miniz-cannot-read", format!("{n} bytes"));
    } else if ref_libdeflate(&z, Wrap::Zlib, n + 1).as_ref() != Some(&data) {
        c.fail("libdeflate-cannot-read", format!("{n} bytes"));
    }
    match c.lib("decode own", || zune(&z, DeflateOptions::default(), Wrap::Zlib)) {
        Some(Ok(v)) if v == data => {}
        Some(r) => c.fail("own-decoder-disagrees", format!("{n} bytes: {:?}", r.map(|v| v.len()))),
        None => {}
    }
    // no bytes beyond the checksum
    if z.len() >= 4 && z[z.len() - 4..] != zd::adler32(&data).to_be_bytes() {
        c.fail("checksum-not-last", format!("{n} bytes"));
    }
}
static F: &[Family] = &[
    Family { property: "R11", name: "inflate", n: (1500, 40_000), rule: "cases of this program's other families run again and again; bytes, files and threads held must not grow", f: zvcore::balanced },
    Family { property: "C01", name: "exact", n: (6000, 200_000), rule: "random payload or random token stream, compressed by flate2/libdeflate or by a writer with random code trees, confirmed by a reference decompressor; non-trivial when the payload is not empty; distinct by stream bytes", f: exact },
    Family { property: "C02", name: "damaged", n: (2500, 60_000), rule: "valid stream with random edits, judged against miniz and libdeflate; distinct by stream bytes", f: damaged },
    Family { property: "C02", name: "crafted", n: (3000, 60_000), rule: "streams with one invalid construct both references refuse", f: crafted },
    Family { property: "C02", name: "bitflips", n: (150, 3000), rule: "every single-bit flip and every prefix of a short stream", f: bitflips },
    Family { property: "C02", name: "limits", n: (150, 3000), rule: "streams expanding at least 256 KiB past the limit", f: limits },
    Family { property: "C03", name: "enc", n: (4000, 60_000), rule: "random payloads with lengths around stored-block boundaries, decoded by two references and the library", f: enc }
];
fn main() {
    zvcore::main(F)
}
