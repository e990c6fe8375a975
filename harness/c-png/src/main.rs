use zune_core::bit_depth::{BitDepth, ByteEndian};
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_core::result::DecodingResult;
use zune_png::{PngDecoder, PngEncoder};
use zvcore::{diff_msg, hash_bytes, Case, Family, Rng};
use zvgen::png::*;

fn cs_of(n: usize) -> ColorSpace {
    match n {
        1 => ColorSpace::Luma,
        2 => ColorSpace::LumaA,
        3 => ColorSpace::RGB,
        _ => ColorSpace::RGBA
    }
}
fn kind_name(s: &Spec) -> String {
    format!("ct{}d{}{}{}", s.img.ct, s.img.depth, if s.interlace { "i" } else { "" }, if s.trns.is_some() { "t" } else { "" })
}
/// second opinion on the model: the png crate's expansion of the same file
fn png_crate(b: &[u8]) -> Option<(u32, u32, Vec<u16>)> {
    let mut d = png::Decoder::new(std::io::Cursor::new(b));
    d.set_transformations(png::Transformations::EXPAND);
    let mut r = d.read_info().ok()?;
    let mut buf = vec![0; r.output_buffer_size()?];
    let i = r.next_frame(&mut buf).ok()?;
    buf.truncate(i.buffer_size());
    let px = if i.bit_depth == png::BitDepth::Sixteen {
        buf.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect()
    } else {
        buf.iter().map(|x| *x as u16).collect()
    };
    Some((i.width, i.height, px))
}
fn to_bytes(px: &[u16], depth: u8, e: ByteEndian) -> Vec<u8> {
    if depth < 16 {
        px.iter().map(|x| *x as u8).collect()
    } else {
        px.iter().flat_map(|x| if e == ByteEndian::BE { x.to_be_bytes() } else { x.to_le_bytes() }).collect()
    }
}
fn check_image(c: &mut Case, s: &Spec, b: &[u8]) {
    let kn = kind_name(s);
    let want0 = s.expected(false);
    match c.oracle(|| png_crate(b)) {
        Some(Some((w, h, px))) if (w as usize, h as usize) == (s.img.w, s.img.h) && px == want0 => c.tag("confirmed-by-png-crate"),
        _ => {
            // the png crate refuses nothing the generator writes, except a palette in odd places
            c.tag("reference-disagrees");
            return;
        }
    }
    // one plain configuration, then random ones
    let n = if c.thorough { 6 } else { 3 };
    for k in 0..n {
        let (add_alpha, strip, endian, simd, crc) = if k == 0 {
            (false, false, ByteEndian::BE, true, true)
        } else {
            let r = &mut c.rng;
            (r.one_in(3), r.one_in(3), if r.bool() { ByteEndian::BE } else { ByteEndian::LE }, r.bool(), r.bool())
        };
        let mut o = DecoderOptions::default()
            .png_set_add_alpha_channel(add_alpha)
            .png_set_strip_to_8bit(strip)
            .set_byte_endian(endian)
            .set_use_unsafe(simd)
            .png_set_confirm_crc(crc)
            .inflate_set_confirm_adler(crc);
        o = o.set_strict_mode(c.rng.bool());
        let mut want = s.expected(add_alpha);
        let mut depth = s.img.depth.max(8);
        if strip && depth == 16 {
            want.iter_mut().for_each(|x| *x >>= 8);
            depth = 8;
        }
        let nch = s.out_channels(add_alpha);
        let cfg = format!("{kn} {}x{} alpha={add_alpha} strip={strip} {endian:?} simd={simd}", s.img.w, s.img.h);
        let api = c.rng.below(4);
        let tail = if api == 3 { c.rng.range(1, 50) } else { 0 };
        let name = ["decode", "decode_raw", "decode_into", "decode_into+"][api];
        let r = c.lib(&format!("{name} {cfg}"), || {
            let mut d = PngDecoder::new_with_options(ZCursor::new(b), o);
            d.decode_headers().map_err(|e| format!("{e:?}"))?;
            let facts = (d.dimensions(), d.colorspace(), d.depth(), d.output_buffer_size());
            let bytes = match api {
                0 => match d.decode().map_err(|e| format!("{e:?}"))? {
                    DecodingResult::U8(v) => Ok(v.into_iter().map(|x| x as u16).collect::<Vec<u16>>()),
                    DecodingResult::U16(v) => Ok(v),
                    _ => Err("odd result type".to_string())
                }
                .map(|v| (v, true)),
                1 => d.decode_raw().map(|v| (v.into_iter().map(|x| x as u16).collect(), false)).map_err(|e| format!("{e:?}")),
                _ => {
                    let n = d.output_buffer_size().unwrap();
                    let mut out = vec![0xA5u8; n + tail];
                    d.decode_into(&mut out).map_err(|e| format!("{e:?}"))?;
                    if out[n..].iter().any(|x| *x != 0xA5) {
                        return Err("wrote beyond the reported size".to_string());
                    }
                    out.truncate(n);
                    Ok((out.into_iter().map(|x| x as u16).collect(), false))
                }
            }?;
            Ok::<_, String>((facts, bytes))
        });
        let Some(r) = r else { return };
        let optag = format!("{}{}{}", if add_alpha { "+alpha" } else { "" }, if strip { "+strip" } else { "" }, if depth == 16 && endian == ByteEndian::LE { "+le" } else { "" });
        let (facts, (got, samples)) = match r {
            Ok(x) => x,
            Err(e) => {
                c.fail(format!("refused:{kn}{optag}:{name}"), format!("{cfg}: valid file refused: {e}"));
                continue;
            }
        };
        c.check(facts.0 == Some((s.img.w, s.img.h)), "dimensions", || format!("{cfg}: {:?}", facts.0));
        c.check(facts.1 == Some(cs_of(nch)), &format!("colorspace{optag}"), || format!("{cfg}: {:?}", facts.1));
        let wd = if s.img.depth == 16 { BitDepth::Sixteen } else { BitDepth::Eight };
        if !strip {
            c.check(facts.2 == Some(wd), "depth", || format!("{cfg}: {:?}", facts.2));
        }
        let ok = if samples {
            if depth == 16 {
                got == want
            } else {
                got == want
            }
        } else {
            let wb: Vec<u16> = to_bytes(&want, depth, endian).into_iter().map(|x| x as u16).collect();
            if got != wb {
                let m = diff_msg(&got, &wb);
                c.fail(format!("pixels:{kn}{optag}"), format!("{name} {cfg}: {m}"));
            }
            continue_saw(c, s, k, api);
            continue;
        };
        if !ok {
            let m = diff_msg(&got, &want);
            c.fail(format!("pixels:{kn}{optag}"), format!("{name} {cfg}: {m}"));
        }
        continue_saw(c, s, k, api);
    }
}
fn continue_saw(c: &mut Case, s: &Spec, k: usize, api: usize) {
    let h = zvcore::hash_bytes(&s.img.samples.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>());
    c.saw(h ^ ((s.img.w as u64) << 40) ^ (k as u64) << 8 ^ api as u64 ^ (s.img.ct as u64) << 16 ^ (s.img.depth as u64) << 24);
}
const BASE: Opt = Opt { max_dim: 40, interlace: None, meta: false };
fn d01_exact(c: &mut Case) {
    let o = if c.idx % 12 == 0 { Opt { max_dim: 400, ..BASE } } else { BASE };
    let s = Spec::random(&mut c.rng, o);
    let b = s.write(&mut c.rng);
    c.blob(&b);
    let k = kind_name(&s);
    c.tag(&k);
    c.sample(|| format!("{k} {}x{} {} bytes", s.img.w, s.img.h, b.len()));
    check_image(c, &s, &b);
}
fn d01_grid(c: &mut Case) {
    // every colour type/depth, both interlacings, every size up to 9x9 (one cell per case)
    let i = c.idx as usize;
    let (ct, depth) = KINDS[i % 15];
    let j = i / 15;
    let inter = j % 2 == 1;
    let k = (j / 2) % 81;
    let (w, h) = (k % 9 + 1, k / 9 + 1);
    let s = Spec::random_of(&mut c.rng, ct, depth, w, h, Opt { max_dim: 9, interlace: Some(inter), meta: false });
    let b = s.write(&mut c.rng);
    c.blob(&b);
    check_image(c, &s, &b);
}
fn d01_wide(c: &mut Case) {
    let (ct, depth) = *c.rng.pick(&KINDS);
    let (mut w, mut h) = if c.rng.bool() { (c.rng.range(200, 3000), c.rng.range(1, 6)) } else { (c.rng.range(1, 4), c.rng.range(100, 1000)) };
    if c.idx % 50 == 7 {
        // up to the decoder's default limits
        let long = if c.rng.bool() { 16384 } else { c.rng.range(8000, 16384) };
        (w, h) = if c.rng.bool() { (long, c.rng.range(1, 3)) } else { (c.rng.range(1, 3), long) };
    }
    let s = Spec::random_of(&mut c.rng, ct, depth, w, h, BASE);
    let b = s.write(&mut c.rng);
    c.blob(&b);
    check_image(c, &s, &b);
}

// ------------------------------------------------------------------ D02
fn confirm() -> DecoderOptions {
    DecoderOptions::default().png_set_confirm_crc(true).inflate_set_confirm_adler(true)
}
fn decode_px(b: &[u8], o: DecoderOptions) -> Result<(usize, usize, Vec<u16>), String> {
    let mut d = PngDecoder::new_with_options(ZCursor::new(b), o);
    let v = d.decode().map_err(|e| format!("{e:?}"))?;
    let (w, h) = d.dimensions().unwrap();
    Ok((
        w,
        h,
        match v {
            DecodingResult::U8(v) => v.into_iter().map(|x| x as u16).collect(),
            DecodingResult::U16(v) => v,
            _ => return Err("type".into())
        }
    ))
}
fn judge_damage(c: &mut Case, s: &Spec, bad: &[u8], what: &str, strict: bool) {
    let Some(r) = c.lib(what, || decode_px(bad, DecoderOptions::default().set_strict_mode(strict).png_set_confirm_crc(true).inflate_set_confirm_adler(true))) else { return };
    c.saw(hash_bytes(bad));
    match r {
        Err(_) => c.tag("refused"),
        Ok((w, h, px)) => {
            let want = s.expected(false);
            if (w, h) == (s.img.w, s.img.h) && px == want {
                c.tag("same-image");
            } else {
                c.blob(bad);
                c.fail(format!("accepted:{}", what.split(' ').next().unwrap()), format!("{what}: returned a {w}x{h} image that differs: {}", diff_msg(&px, &want)));
            }
        }
    }
}
fn d02_damage(c: &mut Case) {
    let s = Spec::random(&mut c.rng, Opt { max_dim: 24, interlace: None, meta: false });
    let chunks = s.chunks(&mut c.rng);
    let b = assemble(&chunks);
    let t = chunk_table(&b);
    let crit: Vec<_> = t.iter().filter(|x| x.1[0] & 32 == 0).cloned().collect();
    let n = if c.thorough { 20 } else { 8 };
    for _ in 0..n {
        let mut bad = b.clone();
        let strict = c.rng.bool();
        match c.rng.below(6) {
            0 | 1 => {
                // any byte(s) of a critical chunk: type, data or checksum
                let (o, name, l) = *c.rng.pick(&crit);
                let m = c.rng.range(1, 3);
                let mut at = vec![];
                for _ in 0..m {
                    let p = o + 4 + c.rng.below(l + 8);
                    let x = if c.rng.bool() { 1 << c.rng.below(8) } else { c.rng.range(1, 255) as u8 };
                    bad[p] ^= x;
                    at.push(p - o);
                }
                if bad == b {
                    continue;
                }
                judge_damage(c, &s, &bad, &format!("altered {} at {at:?}", String::from_utf8_lossy(&name)), strict);
            }
            2 => {
                // length field
                let (o, name, _) = *c.rng.pick(&crit);
                let p = o + c.rng.below(4);
                bad[p] ^= c.rng.range(1, 255) as u8;
                judge_damage(c, &s, &bad, &format!("length of {}", String::from_utf8_lossy(&name)), strict);
            }
            3 => {
                // file cut short
                let cut = c.rng.below(b.len());
                bad.truncate(cut);
                judge_damage(c, &s, &bad, "cut file", strict);
            }
            4 => {
                // stream cut short inside well-formed chunks
                let mut ch = chunks.clone();
                let last = ch.iter().rposition(|x| &x.name == b"IDAT").unwrap();
                let total: usize = ch.iter().filter(|x| &x.name == b"IDAT").map(|x| x.data.len()).sum();
                let mut drop = c.rng.range(1, total);
                let mut i = last;
                loop {
                    if &ch[i].name == b"IDAT" {
                        let d = drop.min(ch[i].data.len());
                        let l = ch[i].data.len() - d;
                        ch[i].data.truncate(l);
                        drop -= d;
                    }
                    if drop == 0 || i == 0 {
                        break;
                    }
                    i -= 1;
                }
                if c.rng.bool() {
                    ch.retain(|x| &x.name != b"IDAT" || !x.data.is_empty());
                }
                judge_damage(c, &s, &assemble(&ch), "cut stream", strict);
            }
            _ => {
                // deflate data altered, chunk checksum made to match
                let mut ch = chunks.clone();
                let ids: Vec<usize> = (0..ch.len()).filter(|i| &ch[*i].name == b"IDAT" && !ch[*i].data.is_empty()).collect();
                let i = *c.rng.pick(&ids);
                let p = c.rng.below(ch[i].data.len());
                ch[i].data[p] ^= c.rng.range(1, 255) as u8;
                judge_damage(c, &s, &assemble(&ch), "stream altered", strict);
            }
        }
    }
}
fn d02_rows(c: &mut Case) {
    // the compressed stream is sound but holds too few rows, or a row with an undefined filter
    let s = Spec::random(&mut c.rng, Opt { max_dim: 24, interlace: None, meta: false });
    let mut raw = {
        let r = &mut c.rng;
        s.img.scanlines(s.interlace, || r.below(5) as u8)
    };
    let kind;
    if c.rng.bool() {
        let n = c.rng.range(1, raw.len());
        raw.truncate(raw.len() - n);
        kind = "short rows";
    } else {
        if s.interlace {
            return;
        }
        let row = raw.len() / s.img.h;
        let y = c.rng.below(s.img.h);
        raw[y * row] = c.rng.range(5, 255) as u8;
        kind = "bad filter";
    }
    let z = zlib(&mut c.rng, &raw);
    let mut ch = vec![s.ihdr()];
    ch.extend(s.colour_chunks());
    ch.push(chunk(b"IDAT", z));
    ch.push(chunk(b"IEND", vec![]));
    let b = assemble(&ch);
    judge_damage(c, &s, &b, kind, false);
    if kind == "bad filter" {
        let r = c.lib(kind, || decode_px(&b, confirm()));
        if let Some(Ok(_)) = r {
            c.fail("accepted:bad-filter", "row with an undefined filter type accepted");
        }
    }
}
fn d02_crcoff(c: &mut Case) {
    let s = Spec::random(&mut c.rng, Opt { max_dim: 24, interlace: None, meta: true });
    let b = s.write(&mut c.rng);
    let mut bad = b.clone();
    let t = chunk_table(&b);
    let mut n = 0;
    for (o, _, l) in &t {
        if c.rng.bool() {
            let p = o + 8 + l;
            let v = c.rng.bytes(4);
            if bad[p..p + 4] != v {
                n += 1;
            }
            bad[p..p + 4].copy_from_slice(&v);
        }
    }
    let o = DecoderOptions::default().png_set_confirm_crc(false).inflate_set_confirm_adler(c.rng.bool());
    let Some(r) = c.lib("crc off", || decode_px(&bad, o)) else { return };
    if n == 0 {
        c.saw_trivial();
    } else {
        c.saw(hash_bytes(&bad));
    }
    let want = s.expected(false);
    match r {
        Ok((_, _, px)) if px == want => {}
        Ok((_, _, px)) => c.fail("crcoff-pixels", diff_msg(&px, &want)),
        Err(e) => c.fail("crcoff-refused", format!("{} wrong stored checksums, confirmation off: {e}", n))
    }
    // and with confirmation on, the same file must not pass when any stored checksum is wrong
    if n > 0 {
        let Some(r) = c.lib("crc on", || decode_px(&bad, confirm())) else { return };
        match r {
            Err(_) => {}
            Ok((_, _, px)) => {
                c.check(px == want, "crcon-pixels", || "differs".into());
                // only possible when the damaged chunk lies after everything the decoder reads
                c.tag("crc-on-accepted");
            }
        }
    }
}

// ------------------------------------------------------------------ D03
fn d03_frames(c: &mut Case) {
    let kinds: &[(u8, u8)] = &KINDS;
    let a = Anim::random(&mut c.rng, 20, kinds);
    let b = a.write(&mut c.rng, true);
    c.blob(&b);
    let kn = kind_name(&a.base);
    c.tag(&kn);
    let add_alpha = c.rng.one_in(4);
    let o = DecoderOptions::default().png_set_add_alpha_channel(add_alpha);
    let raw_api = c.rng.bool();
    let Some(r) = c.lib("frames", || {
        let mut d = PngDecoder::new_with_options(ZCursor::new(&b), o);
        d.decode_headers().map_err(|e| format!("{e:?}"))?;
        let anim = d.is_animated();
        let mut out = vec![];
        while d.more_frames() {
            d.decode_headers().map_err(|e| format!("frame {} headers: {e:?}", out.len()))?;
            let i = d.frame_info().ok_or("no frame info")?;
            let px: Vec<u16> = if raw_api {
                let v = d.decode_raw().map_err(|e| format!("frame {}: {e:?}", out.len()))?;
                if d.depth() == Some(BitDepth::Sixteen) {
                    v.chunks(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect()
                } else {
                    v.into_iter().map(|x| x as u16).collect()
                }
            } else {
                match d.decode().map_err(|e| format!("frame {}: {e:?}", out.len()))? {
                    DecodingResult::U8(v) => v.into_iter().map(|x| x as u16).collect(),
                    DecodingResult::U16(v) => v,
                    _ => return Err("type".into())
                }
            };
            out.push((i, px));
            if out.len() > 60 {
                return Err("frames never end".to_string());
            }
        }
        Ok((anim, out))
    }) else {
        return;
    };
    let api = if raw_api { "raw" } else { "decode" };
    let (anim, out) = match r {
        Ok(x) => x,
        Err(e) => {
            c.fail(format!("apng-refused:{api}"), format!("{kn} {}x{} default_is_frame={} {} frames: {e}", a.base.img.w, a.base.img.h, a.default_is_frame, a.frames.len()));
            return;
        }
    };
    c.check(anim, "not-animated", || kn.clone());
    let want_n = a.frames.len() + !a.default_is_frame as usize;
    c.check(out.len() == want_n, "frame-count", || format!("got {} frames, stored {want_n}", out.len()));
    let skip = !a.default_is_frame as usize;
    if skip == 1 && !out.is_empty() {
        let (i, px) = &out[0];
        c.check(!i.is_part_of_seq, "default-image-flag", || "default image reported as part of the sequence".into());
        let w = a.base.expected(add_alpha);
        c.check(*px == w, &format!("frame-pixels:{api}"), || format!("default image: {}", diff_msg(px, &w)));
    }
    for (k, (f, (i, px))) in a.frames.iter().zip(out.iter().skip(skip)).enumerate() {
        let got = (i.width, i.height, i.x_offset, i.y_offset, i.delay_num, i.delay_denom, i.dispose_op as u8, i.blend_op as u8, i.is_part_of_seq);
        let want = (f.img.w, f.img.h, f.x, f.y, f.delay.0, f.delay.1, f.dispose, f.blend, true);
        c.check(got == want, "frame-info", || format!("frame {k}: got {got:?} want {want:?}"));
        let w = a.base.expected_img(&f.img, add_alpha);
        c.check(*px == w, &format!("frame-pixels:{api}"), || {
            format!("{kn} interlace={} frame {k} {}x{} of {}x{}: {}", a.base.interlace, f.img.w, f.img.h, a.base.img.w, a.base.img.h, diff_msg(px, &w))
        });
        c.saw(hash_bytes(&b) ^ k as u64);
    }
}
/// APNG rendering per the specification. Returns per frame (lowest, highest) admissible samples.
struct Canvas {
    w: usize,
    n: usize,
    lo: Vec<u8>,
    hi: Vec<u8>
}
impl Canvas {
    fn draw(&mut self, f: &Frame, px: &[u16], gamma: f64) {
        let n = self.n;
        let alpha = n == 2 || n == 4;
        for y in 0..f.img.h {
            for x in 0..f.img.w {
                let s = &px[(y * f.img.w + x) * n..][..n];
                let o = ((y + f.y) * self.w + x + f.x) * n;
                let a = if alpha { s[n - 1] } else { 255 };
                if f.blend == 0 || a == 255 {
                    for k in 0..n {
                        self.lo[o + k] = s[k] as u8;
                        self.hi[o + k] = s[k] as u8;
                    }
                } else if a != 0 {
                    let fa = a as f64 / 255.0;
                    let (bl, bh) = (self.lo[o + n - 1] as f64 / 255.0, self.hi[o + n - 1] as f64 / 255.0);
                    let lin = |v: f64| (v / 255.0).powf(1.0 / gamma);
                    for k in 0..n - 1 {
                        let (mut lo, mut hi) = (f64::MAX, f64::MIN);
                        for ba in [bl, bh] {
                            for bg in [self.lo[o + k], self.hi[o + k]] {
                                let oa = fa + ba * (1.0 - fa);
                                let m = (lin(s[k] as f64) * fa + lin(bg as f64) * ba * (1.0 - fa)) / oa;
                                let v = m.powf(gamma) * 255.0;
                                lo = lo.min(v);
                                hi = hi.max(v);
                            }
                        }
                        self.lo[o + k] = (lo - 0.6).ceil().clamp(0.0, 255.0) as u8;
                        self.hi[o + k] = (hi + 0.6).floor().clamp(0.0, 255.0) as u8;
                    }
                    let (l, h) = ((fa + bl * (1.0 - fa)) * 255.0, (fa + bh * (1.0 - fa)) * 255.0);
                    self.lo[o + n - 1] = (l - 0.6).ceil().clamp(0.0, 255.0) as u8;
                    self.hi[o + n - 1] = (h + 0.6).floor().clamp(0.0, 255.0) as u8;
                }
            }
        }
    }
}
fn d03_blend(c: &mut Case) {
    let kinds: Vec<(u8, u8)> = KINDS.iter().copied().filter(|k| k.1 < 16).collect();
    let mut a = Anim::random(&mut c.rng, 16, &kinds);
    a.default_is_frame = true;
    a.frames[0].img = a.base.img.clone();
    // one animation in two has no disposal; the other half exercises what post-processing documents:
    // "previous" starts from the given frame, "background" clears the frame's region first
    let with_dispose = c.rng.bool();
    if !with_dispose {
        a.frames.iter_mut().for_each(|f| f.dispose = 0);
    }
    let one = c.rng.bool();
    if one {
        a.frames.truncate(2);
    }
    let b = a.write(&mut c.rng, false);
    c.blob(&b);
    let add_alpha = c.rng.bool();
    let o = DecoderOptions::default().png_set_add_alpha_channel(add_alpha);
    let gamma = *c.rng.pick(&[None, Some(1.0f32), Some(0.45455), Some(0.7)]);
    let g = gamma.unwrap_or(1.0 / 2.2) as f64;
    let n = a.base.out_channels(add_alpha);
    let sz = a.base.img.w * a.base.img.h * n;
    let start: Vec<u8> = if c.rng.bool() { vec![0; sz] } else { c.rng.texture(sz) };
    let prevs: Vec<u8> = c.rng.texture(sz);
    let Some(r) = c.lib("post_process", || {
        let mut d = PngDecoder::new_with_options(ZCursor::new(&b), o);
        d.decode_headers().map_err(|e| format!("{e:?}"))?;
        let info = d.info().unwrap().clone();
        let cs = d.colorspace().unwrap();
        let mut canvas = start.clone();
        let mut out = vec![];
        while d.more_frames() {
            d.decode_headers().map_err(|e| format!("{e:?}"))?;
            let f = d.frame_info().unwrap();
            let px = d.decode_raw().map_err(|e| format!("{e:?}"))?;
            zune_png::post_process_image(&info, cs, &f, &px, Some(&prevs), &mut canvas, gamma).map_err(|e| format!("{e:?}"))?;
            out.push(canvas.clone());
        }
        Ok::<_, String>(out)
    }) else {
        return;
    };
    let out = match r {
        Ok(x) => x,
        Err(e) => {
            c.fail("post-process-refused", e);
            return;
        }
    };
    let mut cv = Canvas { w: a.base.img.w, n, lo: start.clone(), hi: start };
    for (k, (f, got)) in a.frames.iter().zip(&out).enumerate() {
        let px = a.base.expected_img(&f.img, add_alpha);
        match f.dispose {
            1 => {
                cv.lo.fill(0);
                cv.hi.fill(0);
            }
            2 => {
                cv.lo.copy_from_slice(&prevs);
                cv.hi.copy_from_slice(&prevs);
            }
            _ => {}
        }
        cv.draw(f, &px, g);
        if f.dispose == 1 {
            // what happens outside the frame's region is the recorded finding's business (api-loop)
            for i in 0..got.len() {
                let (x, y) = (i / n % cv.w, i / n / cv.w);
                if x < f.x || y < f.y || x >= f.x + f.img.w || y >= f.y + f.img.h {
                    cv.lo[i] = got[i];
                    cv.hi[i] = got[i];
                }
            }
        }
        let bad = got.iter().enumerate().position(|(i, v)| *v < cv.lo[i] || *v > cv.hi[i]);
        c.saw(hash_bytes(got) ^ k as u64);
        c.tag(if f.blend == 1 { "over" } else { "source" });
        if let Some(i) = bad {
            c.fail(
                format!("canvas:{}", if f.blend == 1 { "over" } else { "source" }),
                format!("frame {k} n={n} sample {i} gamma={gamma:?}: got {} want {}..{} ({}x{} at {},{} in {}x{})", got[i], cv.lo[i], cv.hi[i], f.img.w, f.img.h, f.x, f.y, a.base.img.w, a.base.img.h)
            );
            return;
        }
    }
}
fn d03_loop(c: &mut Case) {
    // the loop documented for post_process_image, on one fixed animation: a green canvas, then a
    // small frame to be cleared afterwards, then a transparent frame
    let img = |w: usize, h: usize, px: [u16; 4]| Img { w, h, ct: 6, depth: 8, samples: px.repeat(w * h) };
    let base = Spec { img: img(4, 4, [0, 200, 0, 255]), ..Default::default() };
    let f = |img: Img, x, y, dispose, blend| Frame { img, x, y, delay: (1, 1), dispose, blend };
    let a = Anim {
        frames: vec![
            f(base.img.clone(), 0, 0, 0, 0),
            f(img(2, 2, [200, 0, 0, 255]), 1, 1, 1 + (c.idx % 2) as u8, 0),
            f(img(1, 1, [0, 0, 0, 0]), 0, 0, 0, 1)
        ],
        base,
        default_is_frame: true,
        plays: 0
    };
    let b = a.write(&mut c.rng, false);
    let Some(r) = c.lib("documented loop", || {
        let mut d = PngDecoder::new(ZCursor::new(&b));
        d.decode_headers().map_err(|e| format!("{e:?}"))?;
        let info = d.info().unwrap().clone();
        let cs = d.colorspace().unwrap();
        let mut bg: Option<Vec<u8>> = None;
        let mut canvas = vec![0; 64];
        let mut out = vec![];
        while d.more_frames() {
            d.decode_headers().map_err(|e| format!("{e:?}"))?;
            let f = d.frame_info().unwrap();
            let px = d.decode_raw().map_err(|e| format!("{e:?}"))?;
            zune_png::post_process_image(&info, cs, &f, &px, bg.as_deref(), &mut canvas, None).map_err(|e| format!("{e:?}"))?;
            bg = Some(canvas.clone());
            out.push(canvas.clone());
        }
        Ok::<_, String>(out)
    }) else {
        return;
    };
    c.saw(c.idx);
    let inner = |i: usize| (5..7).contains(&i) || (9..11).contains(&i);
    let want: Vec<u8> = (0..16)
        .flat_map(|i| match (inner(i), c.idx % 2) {
            (true, 0) => [0u8, 0, 0, 0],
            _ => [0, 200, 0, 255]
        })
        .collect();
    match r {
        Ok(o) if o.len() == 3 && o[2] == want => {}
        Ok(o) => c.fail(format!("documented-loop:dispose{}", 1 + c.idx % 2), format!("third canvas {:?}", o.last())),
        Err(e) => c.fail(format!("documented-loop:dispose{}", 1 + c.idx % 2), e)
    }
}
fn d03_image(c: &mut Case) {
    // the whole animation through zune-image: one finished canvas per frame
    use zune_image::traits::DecoderTrait;
    let kinds: Vec<(u8, u8)> = KINDS.iter().copied().filter(|k| k.1 < 16).collect();
    let mut a = Anim::random(&mut c.rng, 16, &kinds);
    a.frames.iter_mut().for_each(|f| {
        if f.delay.1 == 0 {
            f.delay.1 = 1
        }
    });
    let b = a.write(&mut c.rng, false);
    c.blob(&b);
    let n = a.base.out_channels(false);
    let Some(r) = c.lib("Image from animation", || {
        let mut d = PngDecoder::new_with_options(ZCursor::new(&b), DecoderOptions::default().png_set_decode_animated(true));
        let img = DecoderTrait::decode(&mut d).map_err(|e| format!("{e:?}"))?;
        let cs = img.colorspace();
        Ok::<_, String>((img.dimensions(), cs, img.frames_ref().iter().map(|f| f.flatten::<u8>()).collect::<Vec<_>>()))
    }) else {
        return;
    };
    let (dims, cs, got) = match r {
        Ok(x) => x,
        Err(e) => {
            c.fail("image-refused", e);
            return;
        }
    };
    c.check(dims == (a.base.img.w, a.base.img.h) && cs == cs_of(n), "image-facts", || format!("{dims:?} {cs:?}"));
    c.check(got.len() == a.frames.len(), "image-frame-count", || format!("default_is_frame={} got {} want {}", a.default_is_frame, got.len(), a.frames.len()));
    if got.len() != a.frames.len() {
        return;
    }
    let sz = a.base.img.w * a.base.img.h * n;
    let mut cv = Canvas { w: a.base.img.w, n, lo: vec![0; sz], hi: vec![0; sz] };
    for (k, (f, g)) in a.frames.iter().zip(&got).enumerate() {
        let saved = (cv.lo.clone(), cv.hi.clone());
        let px = a.base.expected_img(&f.img, false);
        cv.draw(f, &px, 1.0 / 2.2);
        c.saw(hash_bytes(g) ^ k as u64);
        let prev = if k == 0 { "first".into() } else { format!("after-dispose{}", a.frames[k - 1].dispose) };
        c.tag(&prev);
        if g.len() != sz {
            c.fail("image-frame-size", format!("{} want {sz}", g.len()));
            return;
        }
        if let Some(i) = g.iter().enumerate().position(|(i, v)| *v < cv.lo[i] || *v > cv.hi[i]) {
            c.fail(format!("image-canvas:{prev}:blend{}", f.blend), format!("frame {k} n={n} sample {i}: got {} want {}..{}", g[i], cv.lo[i], cv.hi[i]));
            return;
        }
        match f.dispose {
            1 => {
                for y in 0..f.img.h {
                    let o = ((y + f.y) * cv.w + f.x) * n;
                    cv.lo[o..o + f.img.w * n].fill(0);
                    cv.hi[o..o + f.img.w * n].fill(0);
                }
            }
            2 => {
                // the specification treats "previous" on the first frame as "background"
                cv.lo = saved.0;
                cv.hi = saved.1;
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ D06 (PNG part)
fn d06_png(c: &mut Case) {
    let mut s = Spec::random(&mut c.rng, Opt { max_dim: 12, interlace: None, meta: true });
    s.meta = Meta::random(&mut c.rng, c.idx % 3 == 0);
    let b = s.write(&mut c.rng);
    c.blob(&b);
    let strict = c.rng.bool();
    let first = c.rng.bool();
    let Some(r) = c.lib("metadata", || {
        let mut d = PngDecoder::new_with_options(ZCursor::new(&b), DecoderOptions::default().set_strict_mode(strict));
        if first {
            d.decode_headers().map_err(|e| format!("{e:?}"))?;
        }
        let before = if first { d.info().cloned() } else { None };
        let px = d.decode_raw().map_err(|e| format!("{e:?}"))?;
        let i = d.info().unwrap().clone();
        if let Some(b) = before {
            if b.exif != i.exif || b.icc_profile != i.icc_profile || b.gamma != i.gamma {
                return Err("metadata changed by decoding".into());
            }
        }
        Ok::<_, String>((i, px))
    }) else {
        return;
    };
    let (i, px) = match r {
        Ok(x) => x,
        Err(e) => {
            c.fail("meta-refused", format!("{e}; {:?}", s.meta.text.len()));
            return;
        }
    };
    let m = &s.meta;
    c.saw(hash_bytes(&b));
    c.check(px == to_bytes(&s.expected(false), s.img.depth, ByteEndian::BE), "meta-pixels", || "pixels changed by metadata".into());
    let g = m.gamma.map(|g| g as f32 / 100000.0);
    c.check(i.gamma.map(|x| (x * 100000.0).round() as i64) == g.map(|x| (x * 100000.0).round() as i64), "gamma", || format!("{:?} {:?}", i.gamma, m.gamma));
    c.check(i.exif == m.exif, "exif", || format!("{:?} {:?}", i.exif.as_ref().map(|x| x.len()), m.exif.as_ref().map(|x| x.len())));
    c.check(i.icc_profile == m.icc, "icc", || format!("{:?} {:?}", i.icc_profile.as_ref().map(|x| x.len()), m.icc.as_ref().map(|x| x.len())));
    let t = i.time_info.map(|t| (t.year, t.month, t.day, t.hour, t.minute, t.second));
    c.check(t == m.time, "time", || format!("{t:?} {:?}", m.time));
    let sorted = |mut v: Vec<(Vec<u8>, Vec<u8>)>| {
        v.sort();
        v
    };
    let tx = sorted(i.text_chunk.iter().map(|x| (x.keyword.clone(), x.text.clone())).collect());
    c.check(tx == sorted(m.text.clone()), "text", || format!("got {} want {}", tx.len(), m.text.len()));
    let zt = sorted(i.ztxt_chunk.iter().map(|x| (x.keyword.clone(), x.text.clone())).collect());
    c.check(zt == sorted(m.ztxt.clone()), "ztxt", || format!("got {} want {}", zt.len(), m.ztxt.len()));
    let it = sorted(i.itxt_chunk.iter().map(|x| (x.keyword.clone(), x.text.clone())).collect());
    let wi = sorted(m.itxt.iter().map(|x| (x.0.clone(), x.3.clone())).collect());
    c.check(it == wi, "itxt", || format!("got {:?} want {:?}", it.first().map(|x| String::from_utf8_lossy(&x.1).to_string()), wi.first().map(|x| String::from_utf8_lossy(&x.1).to_string())));
    for k in [m.exif.is_some(), m.icc.is_some(), !m.text.is_empty()] {
        c.tag(if k { "present" } else { "absent" });
    }
}
fn d06_png_malformed(c: &mut Case) {
    // malformed optional chunks never change pixels: decode gives the same pixels (lenient mode)
    let s = Spec::random(&mut c.rng, Opt { max_dim: 12, interlace: None, meta: false });
    let names: [&[u8; 4]; 10] = [b"tEXt", b"zTXt", b"iTXt", b"iCCP", b"eXIf", b"gAMA", b"tIME", b"pHYs", b"acTL", b"teSt"];
    let mut ch = s.chunks(&mut c.rng);
    let name = *c.rng.pick(&names);
    let n = match c.rng.below(4) {
        0 => 0,
        1 => c.rng.below(5),
        _ => c.rng.below(120)
    };
    let mut d = if c.rng.bool() { c.rng.bytes(n) } else { (0..n).map(|_| c.rng.range(1, 255) as u8).collect() };
    if c.rng.bool() && n > 3 {
        d[1] = 0;
    }
    let well_formed = match name {
        b"gAMA" => n == 4,
        b"acTL" => n == 8,
        _ => false
    };
    if well_formed {
        return;
    }
    let l = d.len();
    ch.insert(1, chunk(name, d));
    let b = assemble(&ch);
    c.blob(&b);
    let nm = String::from_utf8_lossy(name).to_string();
    let Some(r) = c.lib(&format!("malformed {nm} of {l} bytes"), || decode_px(&b, DecoderOptions::default().set_strict_mode(false))) else { return };
    c.saw(hash_bytes(&b));
    c.tag(&nm);
    let want = s.expected(false);
    match r {
        Ok((_, _, px)) => {
            c.check(px == want, &format!("malformed-changes-pixels:{nm}"), || diff_msg(&px, &want));
        }
        Err(e) => c.fail(format!("malformed-refused:{nm}"), format!("{nm} of {l} bytes makes the image undecodable: {e}"))
    }
}

// ------------------------------------------------------------------ E01
fn e01_encode(c: &mut Case) {
    let max = if c.idx % 10 == 0 { 300 } else { 40 };
    let (mut w, mut h) = (c.rng.dim(max), c.rng.dim(max));
    if c.idx % 200 == 17 {
        // dimensions beyond 16 bits
        let long = if c.rng.bool() { c.rng.range(65530, 65545) } else { c.rng.range(65536, 140000) };
        (w, h) = if c.rng.bool() { (long, c.rng.range(1, 2)) } else { (c.rng.range(1, 2), long) };
    }
    let n = c.rng.range(1, 4);
    let deep = c.rng.bool();
    let len = w * h * n * (1 + deep as usize);
    let data = c.rng.texture(len);
    let exif = if c.rng.one_in(3) { Some(exif_blob(&mut c.rng)) } else { None };
    let opt = EncoderOptions::new(w, h, cs_of(n), if deep { BitDepth::Sixteen } else { BitDepth::Eight });
    let Some(r) = c.lib("encode", || {
        let mut out = vec![];
        let mut e = PngEncoder::new(&data, opt);
        if let Some(x) = &exif {
            e.add_exif_segment(x);
        }
        e.encode(&mut out).map(|k| (k, out)).map_err(|e| format!("{e:?}"))
    }) else {
        return;
    };
    let (k, out) = match r {
        Ok(x) => x,
        Err(e) => {
            c.fail("encode-refused", format!("{w}x{h} {n}ch deep={deep}: {e}"));
            return;
        }
    };
    c.blob(&out);
    c.saw(hash_bytes(&data) ^ (w as u64) << 32 ^ n as u64);
    c.tag(&format!("{n}ch{}", if deep { 16 } else { 8 }));
    c.check(k == out.len(), "byte-count", || format!("reported {k}, wrote {}", out.len()));
    // structure
    let t = chunk_table(&out);
    let names: Vec<&[u8; 4]> = t.iter().map(|x| &x.1).collect();
    c.check(out.starts_with(&SIG) && names.first() == Some(&b"IHDR") && names.last() == Some(&b"IEND"), "structure", || format!("{names:?}"));
    let end = t.last().map(|x| x.0 + 12 + x.2);
    c.check(end == Some(out.len()), "trailing-bytes", || format!("{end:?} {}", out.len()));
    for (o, name, l) in &t {
        let crc = zvgen::deflate::crc32(&out[o + 4..o + 8 + l]);
        c.check(out[o + 8 + l..o + 12 + l] == crc.to_be_bytes(), "chunk-crc", || String::from_utf8_lossy(name).to_string());
    }
    let idats: Vec<usize> = (0..names.len()).filter(|i| names[*i] == b"IDAT").collect();
    c.check(!idats.is_empty() && idats.windows(2).all(|w| w[1] == w[0] + 1), "idat-run", || format!("{names:?}"));
    let ex = t.iter().find(|x| &x.1 == b"eXIf").map(|(o, _, l)| out[o + 8..o + 8 + l].to_vec());
    c.check(ex == exif, "exif-chunk", || "exif block differs".into());
    // independent decoder, strict checks, no transformations
    let ind = c.oracle(|| {
        let mut d = png::Decoder::new(std::io::Cursor::new(&out));
        d.set_transformations(png::Transformations::IDENTITY);
        d.ignore_checksums(false);
        let mut r = d.read_info().map_err(|e| e.to_string())?;
        let mut buf = vec![0; r.output_buffer_size().unwrap()];
        let i = r.next_frame(&mut buf).map_err(|e| e.to_string())?;
        r.finish().map_err(|e| e.to_string())?;
        Ok::<_, String>((i.width as usize, i.height as usize, i.color_type, i.bit_depth, buf))
    });
    if let Some(ind) = ind {
        match ind {
            Ok((iw, ih, ict, ibd, buf)) => {
                let want_ct = [png::ColorType::Grayscale, png::ColorType::GrayscaleAlpha, png::ColorType::Rgb, png::ColorType::Rgba][n - 1];
                let want_bd = if deep { png::BitDepth::Sixteen } else { png::BitDepth::Eight };
                c.check((iw, ih, ict, ibd) == (w, h, want_ct, want_bd), "facts", || format!("{iw}x{ih} {ict:?} {ibd:?}"));
                c.check(buf == data, "pixels-independent", || diff_msg(&buf, &data));
            }
            Err(e) => c.fail("independent-refuses", e)
        }
    }
    let Some(own) = c.lib("decode own output", || {
        let mut d = PngDecoder::new_with_options(ZCursor::new(&out), confirm().set_max_width(1 << 20).set_max_height(1 << 20));
        let px = d.decode_raw().map_err(|e| format!("{e:?}"))?;
        Ok::<_, String>((d.dimensions(), d.colorspace(), d.depth(), px))
    }) else {
        return;
    };
    match own {
        Ok((d, cs, dp, px)) => {
            c.check(d == Some((w, h)) && cs == Some(cs_of(n)) && dp == Some(if deep { BitDepth::Sixteen } else { BitDepth::Eight }), "own-facts", || format!("{d:?} {cs:?} {dp:?}"));
            c.check(px == data, "own-pixels", || diff_msg(&px, &data));
        }
        Err(e) => c.fail("own-refuses", e)
    }
}
fn e01_unsupported(c: &mut Case) {
    let all = [ColorSpace::BGR, ColorSpace::BGRA, ColorSpace::ARGB, ColorSpace::CMYK, ColorSpace::YCbCr, ColorSpace::YCCK, ColorSpace::HSL, ColorSpace::HSV, ColorSpace::Unknown, ColorSpace::MultiBand(std::num::NonZeroU32::new(5).unwrap())];
    let (w, h) = (c.rng.dim(20), c.rng.dim(20));
    let (cs, depth, delta, what) = match c.rng.below(3) {
        0 => (*c.rng.pick(&all), BitDepth::Eight, 0i64, "colorspace"),
        1 => (cs_of(c.rng.range(1, 4)), BitDepth::Float32, 0, "float"),
        _ => (cs_of(c.rng.range(1, 4)), BitDepth::Eight, *c.rng.pick(&[-1i64, 1, 7, -3]), "length")
    };
    let len = (w * h * cs.num_components() * depth.size_of()) as i64 + delta;
    let data = c.rng.bytes(len.max(0) as usize);
    let opt = EncoderOptions::new(w, h, cs, depth);
    if len < 0 {
        return;
    }
    let Some(r) = c.lib(&format!("encode unsupported {what} {cs:?}"), || {
        let mut out = vec![];
        PngEncoder::new(&data, opt).encode(&mut out).map(|_| out).map_err(|e| format!("{e:?}"))
    }) else {
        return;
    };
    c.saw(hash_bytes(&data) ^ cs.num_components() as u64);
    c.tag(what);
    if r.is_ok() {
        c.fail(format!("unsupported-accepted:{what}"), format!("{cs:?} {depth:?} delta {delta}"));
    }
}

static F: &[Family] = &[
    Family { property: "R11", name: "png", n: (1500, 40_000), rule: "cases of this program's other families run again and again; bytes, files and threads held must not grow", f: zvcore::balanced },
    Family { property: "D01", name: "exact", n: (2500, 60000), rule: "random spec-valid PNG of every kind, decoded under random options; a decode is non-trivial when the png crate confirmed the model", f: d01_exact },
    Family { property: "D01", name: "grid", n: (2430, 24300), rule: "every kind x interlacing x size up to 9x9", f: d01_grid },
    Family { property: "D01", name: "wide", n: (250, 5000), rule: "very wide or very tall images", f: d01_wide },
    Family { property: "D02", name: "damage", n: (2500, 60000), rule: "damaged file decoded with confirmation on; distinct damaged files", f: d02_damage },
    Family { property: "D02", name: "rows", n: (1500, 20000), rule: "sound stream with missing rows or undefined filter", f: d02_rows },
    Family { property: "D02", name: "crcoff", n: (1500, 20000), rule: "random stored checksums, confirmation off; non-trivial when at least one is wrong", f: d02_crcoff },
    Family { property: "D03", name: "frames", n: (1500, 30000), rule: "random animation; one observation per frame", f: d03_frames },
    Family { property: "D03", name: "blend", n: (1500, 30000), rule: "post-processing of dispose-none frames; one observation per canvas", f: d03_blend },
    Family { property: "D03", name: "api-loop", n: (2, 2), rule: "the documented post-processing loop on a fixed animation, one per dispose operation", f: d03_loop },
    Family { property: "D03", name: "image", n: (1500, 30000), rule: "animation through zune-image; one observation per canvas", f: d03_image },
    Family { property: "D06", name: "png", n: (2500, 30000), rule: "random metadata chunks", f: d06_png },
    Family { property: "D06", name: "png-malformed", n: (2000, 30000), rule: "one malformed optional chunk", f: d06_png_malformed },
    Family { property: "E01", name: "encode", n: (2500, 40000), rule: "random pixels of every supported kind", f: e01_encode },
    Family { property: "E01", name: "unsupported", n: (600, 6000), rule: "inputs the encoder must refuse", f: e01_unsupported },
];
fn main() {
    let _ = Rng::new(0);
    zvcore::main(F);
}
