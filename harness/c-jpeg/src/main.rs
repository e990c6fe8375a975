mod strict;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_jpeg::JpegDecoder;
use zvcore::{hash_bytes, Case, Family};
use zvgen::jpeg::*;

struct Out {
    w: usize,
    h: usize,
    px: Vec<u8>
}
fn zdec(b: &[u8], cs: ColorSpace) -> Result<Out, String> {
    zdec_o(b, DecoderOptions::default().jpeg_set_out_colorspace(cs))
}
fn zdec_o(b: &[u8], o: DecoderOptions) -> Result<Out, String> {
    let mut d = JpegDecoder::new_with_options(ZCursor::new(b), o);
    let px = d.decode().map_err(|e| format!("{e:?}"))?;
    let (w, h) = d.dimensions().ok_or("no dimensions")?;
    Ok(Out { w, h, px })
}
/// libjpeg (mozjpeg) in the file's own colour space
fn mdec(b: &[u8], cs: mozjpeg::ColorSpace) -> Option<(usize, usize, Vec<u8>)> {
    let mut d = mozjpeg::Decompress::new_mem(b).ok()?;
    d.dct_method(mozjpeg::decompress::DctMethod::IntegerSlow);
    d.do_fancy_upsampling(true);
    d.do_block_smoothing(false);
    let mut s = d.to_colorspace(cs).ok()?;
    let (w, h) = (s.width(), s.height());
    let px = s.read_scanlines::<u8>().ok()?;
    s.finish().ok()?;
    Some((w, h, px))
}
fn native(j: &Jpeg) -> (ColorSpace, mozjpeg::ColorSpace) {
    use mozjpeg::ColorSpace::*;
    match (j.comps.len(), j.adobe) {
        (1, _) => (ColorSpace::Luma, JCS_GRAYSCALE),
        (3, Some(0)) => (ColorSpace::RGB, JCS_RGB),
        (3, _) => (ColorSpace::YCbCr, JCS_YCbCr),
        (4, Some(2)) => (ColorSpace::YCCK, JCS_YCCK),
        _ => (ColorSpace::CMYK, JCS_CMYK)
    }
}
/// worst distance of `px` (n interleaved channels) from the hulls: (max, x, y, channel)
fn distance(h: &[Hull], px: &[u8], w: usize) -> (f32, usize, usize, usize) {
    let n = h.len();
    let mut worst = (0.0, 0, 0, 0);
    for (i, p) in px.chunks_exact(n).enumerate() {
        for k in 0..n {
            let v = p[k] as f32;
            let d = (h[k].lo[i] - v).max(v - h[k].hi[i]);
            if d > worst.0 {
                worst = (d, i % w, i / w, k);
            }
        }
    }
    worst
}
fn rgb_hulls(h: &[Hull], slack: f32) -> Vec<Hull> {
    let n = h[0].lo.len();
    let mut o: Vec<Hull> = (0..3).map(|_| Hull { lo: vec![0.0; n], hi: vec![0.0; n] }).collect();
    let c = |v: f32| v.clamp(0.0, 255.0);
    for i in 0..n {
        let (yl, yh) = (h[0].lo[i] - slack, h[0].hi[i] + slack);
        let (bl, bh) = (c(h[1].lo[i] - slack) - 128.0, c(h[1].hi[i] + slack) - 128.0);
        let (rl, rh) = (c(h[2].lo[i] - slack) - 128.0, c(h[2].hi[i] + slack) - 128.0);
        o[0].lo[i] = c(yl + 1.402 * rl);
        o[0].hi[i] = c(yh + 1.402 * rh);
        o[1].lo[i] = c(yl - 0.344136 * bh - 0.714136 * rh);
        o[1].hi[i] = c(yh - 0.344136 * bl - 0.714136 * rl);
        o[2].lo[i] = c(yl + 1.772 * bl);
        o[2].hi[i] = c(yh + 1.772 * bh);
    }
    o
}
const TOL_EXACT: f32 = 1.6;
const TOL_UP: f32 = 2.6;

fn tol(j: &Jpeg) -> f32 {
    if j.comps.iter().any(|c| c.h != j.hmax || c.v != j.vmax) {
        TOL_UP
    } else {
        TOL_EXACT
    }
}
fn err_tag(c: &mut Case, what: &str, d: f32) {
    c.tag(&format!("{what}-err<={}", if d > 4.0 { 255.0 } else { (d * 2.0).ceil() / 2.0 }));
}
fn confirm(c: &mut Case, j: &Jpeg, b: &[u8], hulls: &[Hull]) -> bool {
    let (_, mcs) = native(j);
    let Some(Some((w, h, px))) = c.oracle(|| mdec(b, mcs)) else {
        c.tag("libjpeg-refuses");
        return false;
    };
    if (w, h) != (j.w, j.h) || px.len() != w * h * j.comps.len() {
        c.tag("libjpeg-disagrees");
        return false;
    }
    let d = distance(hulls, &px, w);
    if d.0 > tol(j) {
        c.tag("libjpeg-disagrees");
        c.log(&format!("libjpeg distance {d:?} {}", j.describe()));
        return false;
    }
    err_tag(c, "libjpeg", d.0);
    c.tag("confirmed-by-libjpeg");
    true
}
/// the sampling cameras and editors use: luma at the maximum, chroma 1x1
fn common(j: &Jpeg) -> bool {
    j.comps.iter().enumerate().all(|(i, c)| if i == 0 || i == 3 { (c.h, c.v) == (j.hmax, j.vmax) } else { (c.h, c.v) == (1, 1) }) && COMMON.contains(&(j.hmax, j.vmax))
}
/// the decoder documents no support for files whose first component is not the most finely sampled one
fn luma_max(j: &Jpeg) -> bool {
    (j.comps[0].h, j.comps[0].v) == (j.hmax, j.vmax)
}
fn kind(j: &Jpeg) -> String {
    let n = j.comps.len();
    let s = if common(j) { "" } else { "-odd" };
    let multi = !j.progressive && j.scans.len() > 1;
    format!("{}{}n{n}{s}{}", if j.progressive { "prog" } else { "base" }, if multi { "-multi" } else { "" }, if j.scans.iter().any(|s| s.restart > 0) { "r" } else { "" })
}
fn check_pixels(c: &mut Case, o: Opt) {
    let mut rng = zvcore::Rng::new(c.rng.u64());
    let j = Jpeg::random(&mut rng, o);
    let b = j.write(&mut rng);
    c.blob(&b);
    c.log(&j.describe());
    let hulls: Option<Vec<Hull>> = (0..j.comps.len()).map(|i| j.hull(i)).collect();
    let Some(hulls) = hulls else {
        c.tag("fractional-sampling");
        c.saw_trivial();
        return;
    };
    if !confirm(c, &j, &b, &hulls) {
        c.saw_trivial();
        return;
    }
    let k = kind(&j);
    let (cs, _) = native(&j);
    c.saw(hash_bytes(&b));
    c.tag(&format!("kind:{}", if j.progressive { "progressive" } else if j.scans.len() > 1 { "multi-scan" } else { "baseline" }));
    if j.scans.iter().any(|s| s.restart > 0) {
        c.tag("with-restarts");
    }
    c.sample(|| j.describe());
    let safe = c.rng.bool();
    let strict = c.rng.bool();
    let opt = DecoderOptions::default().set_use_unsafe(safe).set_strict_mode(strict);
    let Some(r) = c.lib("decode", || zdec_o(&b, opt.jpeg_set_out_colorspace(cs))) else { return };
    let z = match r {
        Ok(z) => z,
        Err(_) if !luma_max(&j) || j.comps.iter().any(|c| c.v != 1 && c.v != j.vmax) => {
            c.tag("unsupported-sampling-refused");
            return;
        }
        Err(e) => {
            c.fail(format!("refused:{}:{}", k, class(&e)), format!("{}: {e}", j.describe()));
            return;
        }
    };
    if !luma_max(&j) {
        c.tag("unsupported-sampling-decoded");
        return;
    }
    if (z.w, z.h) != (j.w, j.h) || z.px.len() != j.w * j.h * j.comps.len() {
        c.fail(format!("size:{k}"), format!("{}: got {}x{} {} bytes", j.describe(), z.w, z.h, z.px.len()));
        return;
    }
    let d = distance(&hulls, &z.px, j.w);
    err_tag(c, "zune", d.0);
    if d.0 > tol(&j) {
        let i = (d.2 * j.w + d.1) * j.comps.len() + d.3;
        c.fail(
            format!("pixels:{k}"),
            format!("{}: off by {} at ({},{}) component {} got {} want {}..{}", j.describe(), d.0, d.1, d.2, d.3, z.px[i], hulls[d.3].lo[i / j.comps.len()], hulls[d.3].hi[i / j.comps.len()])
        );
        return;
    }
    if cs == ColorSpace::YCbCr {
        let rh = rgb_hulls(&hulls, tol(&j) - 0.5);
        let Some(r) = c.lib("decode rgb", || zdec_o(&b, opt)) else { return };
        match r {
            Ok(z) if z.px.len() == j.w * j.h * 3 => {
                let d = distance(&rh, &z.px, j.w);
                err_tag(c, "rgb", d.0);
                if d.0 > 1.6 {
                    c.fail(format!("rgb:{k}"), format!("{}: off by {} at ({},{}) component {}", j.describe(), d.0, d.1, d.2, d.3));
                }
            }
            Ok(z) => c.fail(format!("size:{k}"), format!("{}: {} bytes of RGB", j.describe(), z.px.len())),
            Err(e) => c.fail(format!("refused:{k}:{}", class(&e)), format!("{}: {e}", j.describe()))
        }
    }
}
fn class(e: &str) -> String {
    e.chars().filter(|c| c.is_alphabetic() || *c == ' ').take(50).collect::<String>().replace(' ', "_")
}
fn f_base(c: &mut Case) {
    check_pixels(c, Opt { mode: 1, max_dim: 90, ..Default::default() })
}
fn f_prog(c: &mut Case) {
    check_pixels(c, Opt { mode: 2, max_dim: 70, ..Default::default() })
}
fn f_wide(c: &mut Case) {
    check_pixels(c, Opt { wide: true, max_dim: 70, ..Default::default() })
}
fn f_odd(c: &mut Case) {
    check_pixels(c, Opt { odd_sampling: true, max_dim: 70, ..Default::default() })
}
fn corpus() -> &'static Vec<(String, Vec<u8>)> {
    static C: std::sync::OnceLock<Vec<(String, Vec<u8>)>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v = Vec::new();
        for d in ["/repo/test-images/jpeg", "/repo/test-images/jpeg/benchmarks"] {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let p = e.path();
                if let (true, Ok(b)) = (p.is_file(), std::fs::read(&p)) {
                    if b.len() < 3_000_000 {
                        v.push((p.to_string_lossy().to_string(), b));
                    }
                }
            }
        }
        v.sort();
        v
    })
}
/// sample files, mildly re-encoded by libjpeg's own transcoder is out of scope: compared as they are
fn f_corpus(c: &mut Case) {
    let Some((name, b)) = corpus().get(c.idx as usize) else { return };
    let Some(Some((w, h, want))) = c.oracle(|| mdec(b, mozjpeg::ColorSpace::JCS_RGB)) else {
        c.tag("libjpeg-refuses");
        return;
    };
    if name.ends_with("incomplete_image.jpg") {
        // truncated: what follows the last whole MCU is not specified
        c.saw_trivial();
        return;
    }
    c.log(name);
    let Some(r) = c.lib("decode", || zdec(b, ColorSpace::RGB)) else { return };
    let short = name.rsplit('/').next().unwrap().to_string();
    c.saw(hash_bytes(b));
    match r {
        Ok(z) => {
            if (z.w, z.h) != (w, h) || z.px.len() != want.len() {
                c.fail(format!("corpus-size:{short}"), format!("{}x{} vs {}x{}", z.w, z.h, w, h));
                return;
            }
            // edges of subsampled components are not compared: padding is treated differently
            let mut worst = (0, 0);
            for (i, (a, b)) in z.px.iter().zip(&want).enumerate() {
                let d = a.abs_diff(*b);
                if d > worst.0 {
                    worst = (d, i);
                }
            }
            c.sample(|| format!("{short}: {w}x{h} worst difference {}", worst.0));
            c.log(&format!("{short}: {w}x{h} worst difference {} at ({},{})", worst.0, worst.1 / 3 % w, worst.1 / 3 / w));
            if worst.0 > 6 {
                c.fail(format!("corpus:{short}"), format!("{short}: {w}x{h} worst difference {} at ({},{})", worst.0, worst.1 / 3 % w, worst.1 / 3 / w));
            }
        }
        Err(e) => c.fail(format!("corpus-refused:{short}"), e)
    }
}

// ------------------------------------------------------------------ D05
fn spaces() -> Vec<ColorSpace> {
    use ColorSpace::*;
    vec![RGB, RGBA, BGR, BGRA, ARGB, YCbCr, Luma, LumaA, YCCK, CMYK, HSL, HSV, MultiBand(2.try_into().unwrap()), MultiBand(3.try_into().unwrap()), Unknown]
}
fn mulk(a: u8, k: u8) -> f32 {
    a as f32 * k as f32 / 255.0
}
fn f_layout(c: &mut Case) {
    let mut rng = zvcore::Rng::new(c.rng.u64());
    let ncomp = *rng.pick(&[1usize, 3, 3, 3, 4]);
    let j = Jpeg::random(&mut rng, Opt { ncomp, max_dim: 60, ..Default::default() });
    let b = j.write(&mut rng);
    c.blob(&b);
    c.log(&j.describe());
    layouts(c, &j, &b);
}
fn layouts(c: &mut Case, j: &Jpeg, b: &[u8]) {
    use ColorSpace::*;
    let (ncs, _) = native(j);
    let safe = c.rng.bool();
    let opt = DecoderOptions::default().set_use_unsafe(safe);
    let get = |c: &mut Case, cs: ColorSpace| -> Option<Result<Out, String>> {
        let r = c.lib(&format!("decode {cs:?}"), || zdec_o(b, opt.jpeg_set_out_colorspace(cs)))?;
        if let Ok(o) = &r {
            if (o.w, o.h) != (j.w, j.h) || o.px.len() != j.w * j.h * cs.num_components() {
                c.fail(format!("size:{ncs:?}->{cs:?}"), format!("{}: {}x{} {} bytes", j.describe(), o.w, o.h, o.px.len()));
                return None;
            }
        }
        Some(r)
    };
    let nat = match get(c, ncs) {
        Some(Ok(o)) => o.px,
        Some(Err(e)) => {
            c.fail(format!("native-refused:{ncs:?}"), format!("{}: {e}", j.describe()));
            return;
        }
        None => return
    };
    c.saw(hash_bytes(b));
    c.tag(&format!("native:{ncs:?}"));
    c.sample(|| j.describe());
    let rgb = match get(c, RGB) {
        Some(Ok(o)) => o.px,
        Some(Err(e)) => {
            c.fail(format!("rgb-refused:{ncs:?}"), format!("{}: {e}", j.describe()));
            return;
        }
        None => return
    };
    // the colours themselves
    let n = ncs.num_components();
    let mut worst = (0.0f32, 0);
    for (i, (p, q)) in nat.chunks_exact(n).zip(rgb.chunks_exact(3)).enumerate() {
        let y2 = |y: u8, b: u8, r: u8| {
            let (y, b, r) = (y as f32, b as f32 - 128.0, r as f32 - 128.0);
            [(y + 1.402 * r).clamp(0.0, 255.0), (y - 0.344136 * b - 0.714136 * r).clamp(0.0, 255.0), (y + 1.772 * b).clamp(0.0, 255.0)]
        };
        let want = match ncs {
            Luma => [p[0] as f32; 3],
            RGB => [p[0] as f32, p[1] as f32, p[2] as f32],
            YCbCr => y2(p[0], p[1], p[2]),
            CMYK => [mulk(p[0], p[3]), mulk(p[1], p[3]), mulk(p[2], p[3])],
            _ => y2(p[0], p[1], p[2]).map(|v| (255.0 - v) * p[3] as f32 / 255.0)
        };
        for k in 0..3 {
            let d = (q[k] as f32 - want[k]).abs();
            if d > worst.0 {
                worst = (d, i);
            }
        }
    }
    err_tag(c, &format!("{ncs:?}-rgb"), worst.0);
    let limit = match ncs {
        Luma | RGB => 0.0,
        CMYK => 1.0,
        _ => 2.0
    };
    if worst.0 > limit {
        let i = worst.1;
        c.fail(format!("colours:{ncs:?}->RGB"), format!("{}: pixel ({},{}) coded {:?} gives {:?}", j.describe(), i % j.w, i / j.w, &nat[i * n..i * n + n], &rgb[i * 3..i * 3 + 3]));
    }
    for cs in spaces() {
        if cs == ncs || cs == RGB {
            continue;
        }
        let supported = match ncs {
            Luma => matches!(cs, RGBA),
            YCbCr => matches!(cs, RGBA | BGR | BGRA | Luma),
            CMYK | YCCK => matches!(cs, RGBA),
            _ => false
        };
        let Some(r) = get(c, cs) else { continue };
        let o = match r {
            Ok(o) => o.px,
            Err(e) => {
                if supported {
                    c.fail(format!("refused:{ncs:?}->{cs:?}"), format!("{}: {e}", j.describe()));
                } else {
                    c.tag("unsupported-refused");
                }
                continue;
            }
        };
        let pick = |f: &dyn Fn(&[u8], &[u8]) -> Vec<u8>| -> Vec<u8> { rgb.chunks_exact(3).zip(nat.chunks_exact(n)).flat_map(|(a, b)| f(a, b)).collect() };
        let want = match cs {
            RGBA => pick(&|a, _| vec![a[0], a[1], a[2], 255]),
            BGR => pick(&|a, _| vec![a[2], a[1], a[0]]),
            BGRA => pick(&|a, _| vec![a[2], a[1], a[0], 255]),
            ARGB => pick(&|a, _| vec![255, a[0], a[1], a[2]]),
            Luma if matches!(ncs, YCbCr | Luma) => pick(&|_, b| vec![b[0]]),
            LumaA if ncs == Luma => pick(&|_, b| vec![b[0], 255]),
            _ => {
                c.fail(format!("accepted:{ncs:?}->{cs:?}"), format!("{}: an output nobody defines was produced", j.describe()));
                continue;
            }
        };
        c.tag(&format!("layout:{ncs:?}->{cs:?}"));
        if o != want {
            let m = cs.num_components();
            let i = o.iter().zip(&want).position(|(a, b)| a != b).unwrap() / m;
            c.fail(format!("layout:{ncs:?}->{cs:?}"), format!("{}: pixel ({},{}) is {:?}, RGB is {:?}", j.describe(), i % j.w, i / j.w, &o[i * m..i * m + m], &rgb[i * 3..i * 3 + 3]));
        }
    }
}

// ------------------------------------------------------------------ D06 (JPEG part)
fn d06_jpeg(c: &mut Case) {
    let mut rng = zvcore::Rng::new(c.rng.u64());
    let mut j = Jpeg::random(&mut rng, Opt { max_dim: 20, ..Default::default() });
    j.segments.clear();
    let plain = j.write(&mut zvcore::Rng::new(1));
    let big = rng.one_in(8);
    let payload = |rng: &mut zvcore::Rng, max: usize| -> Vec<u8> {
        let n = if big { rng.range(1, max) } else { *rng.pick(&[1usize, 2, 5, 17, 64, 200]) };
        let mut v = rng.bytes(n);
        if rng.one_in(3) {
            v.iter_mut().for_each(|b| if *b & 3 == 0 { *b = 0xFF });
        }
        v
    };
    let mut segs: Vec<(u8, Vec<u8>)> = Vec::new();
    let cat = |a: &[u8], b: &[u8]| [a, b].concat();
    let mut exif = None;
    let mut xmp = None;
    let mut iptc = None;
    let mut icc: Option<Vec<u8>> = None;
    if rng.bool() {
        let p = payload(&mut rng, 65533 - 6);
        segs.push((0xE1, cat(b"Exif\0\0", &p)));
        exif = Some(p);
    }
    if rng.bool() {
        let p = payload(&mut rng, 65533 - 29);
        segs.push((0xE1, cat(b"http://ns.adobe.com/xap/1.0/\0", &p)));
        xmp = Some(p);
    }
    if rng.bool() {
        let p = payload(&mut rng, 65533 - 14);
        segs.push((0xED, cat(b"Photoshop 3.0\0", &p)));
        iptc = Some(p);
    }
    if rng.bool() {
        let n = if rng.one_in(30) { 255 } else { *rng.pick(&[1usize, 1, 2, 3, 7]) };
        let mut all = Vec::new();
        let mut parts: Vec<(u8, Vec<u8>)> = (1..=n)
            .map(|i| {
                let p = if n == 255 { rng.bytes(3) } else { payload(&mut rng, 65533 - 14) };
                all.extend_from_slice(&p);
                (0xE2, [b"ICC_PROFILE\0", &[i as u8, n as u8][..], &p].concat())
            })
            .collect();
        if rng.one_in(3) {
            // order of the segments in the file does not matter, the sequence number does
            for i in (1..parts.len()).rev() {
                let k = rng.below(i + 1);
                parts.swap(i, k);
            }
            c.tag("icc-shuffled");
        }
        c.tag(&format!("icc-segments:{}", if n > 7 { 8 } else { n }));
        segs.extend(parts);
        icc = Some(all);
    }
    // segments which mean nothing to the decoder
    for _ in 0..rng.below(4) {
        let p = payload(&mut rng, 60000);
        let s = match rng.below(11) {
            0 => (0xFE, p),
            1 => (0xE1, cat(b"http://ns.adobe.com/xmp/extension/\0", &p)),
            2 => (0xE1, vec![]),
            3 => (0xE1, b"Exif".to_vec()),
            4 => (0xE2, cat(b"FPXR\0", &p)),
            5 => (0xE2, b"ICC_PROFILE".to_vec()),
            6 => (0xED, cat(b"Adobe_CM\0", &p)),
            7 => (0xED, vec![0]),
            8 => (0xEE, cat(b"Ducky", &p)),
            9 => (*rng.pick(&[0xE3u8, 0xE4, 0xE5, 0xE6, 0xE7, 0xE8, 0xE9, 0xEA, 0xEB, 0xEC, 0xEF]), p),
            _ => (0xE0, cat(b"JFXX\0", &p))
        };
        let at = rng.below(segs.len() + 1);
        segs.insert(at, s);
    }
    j.segments = segs;
    let b = j.write(&mut zvcore::Rng::new(1));
    c.blob(&b);
    c.log(&format!("{} exif {:?} xmp {:?} iptc {:?} icc {:?} segments {:?}", j.describe(), exif.as_ref().map(Vec::len), xmp.as_ref().map(Vec::len), iptc.as_ref().map(Vec::len), icc.as_ref().map(Vec::len), j.segments.iter().map(|s| (s.0, s.1.len())).collect::<Vec<_>>()));
    let (cs, _) = native(&j);
    let opt = DecoderOptions::default().jpeg_set_out_colorspace(cs);
    let Some(Ok(want)) = c.lib("decode plain", || zdec_o(&plain, opt)) else {
        c.saw_trivial();
        return;
    };
    c.saw(hash_bytes(&b));
    let headers_only = c.rng.bool();
    let r = c.lib("decode", || {
        let mut d = JpegDecoder::new_with_options(ZCursor::new(&b[..]), opt);
        if headers_only {
            d.decode_headers().map_err(|e| format!("headers: {e:?}"))?;
        }
        let before = headers_only.then(|| (d.exif().cloned(), d.xmp().cloned(), d.iptc().cloned(), d.icc_profile()));
        let px = d.decode().map_err(|e| format!("{e:?}"))?;
        let i = d.info().ok_or("no info")?;
        let via_info = (i.exif_data.clone(), i.xmp_data.clone(), i.iptc_data.clone());
        Ok::<_, String>((before, (d.exif().cloned(), d.xmp().cloned(), d.iptc().cloned(), d.icc_profile()), via_info, px))
    });
    match r {
        None => {}
        Some(Err(e)) => c.fail(format!("refused:{}", class(&e)), format!("{}: {e}", j.describe())),
        Some(Ok((before, after, info, px))) => {
            if px != want.px {
                c.fail("pixels-changed", format!("{}: segments {:?} changed the pixels", j.describe(), j.segments.iter().map(|s| (s.0, s.1.len())).collect::<Vec<_>>()));
            }
            let cmp = |c: &mut Case, what: &str, got: &Option<Vec<u8>>, want: &Option<Vec<u8>>| {
                if got != want {
                    c.fail(format!("{what}:{}", if got.is_none() { "lost" } else if want.is_none() { "invented" } else { "differs" }), format!("{}: got {:?} bytes want {:?}", j.describe(), got.as_ref().map(Vec::len), want.as_ref().map(Vec::len)));
                } else if want.is_some() {
                    c.tag(what);
                }
            };
            for (when, m) in [("headers", &before), ("decode", &Some(after))] {
                let Some(m) = m else { continue };
                cmp(c, &format!("exif@{when}"), &m.0, &exif);
                cmp(c, &format!("xmp@{when}"), &m.1, &xmp);
                cmp(c, &format!("iptc@{when}"), &m.2, &iptc);
                cmp(c, &format!("icc@{when}"), &m.3, &icc);
            }
            cmp(c, "exif@info", &info.0, &exif);
            cmp(c, "xmp@info", &info.1, &xmp);
            cmp(c, "iptc@info", &info.2, &iptc);
        }
    }
}

static FAMILIES: &[Family] = &[
    Family { property: "D12", name: "cut", n: (600, 15_000), rule: "sequential JPEGs cut, ended early or overwritten after a finished row of MCUs, strict and default", f: strict::cut },
    Family { property: "D12", name: "scans", n: (500, 12_000), rule: "progressive JPEGs cut where a scan starts and inside one, strict and default", f: strict::prog_cut },
    Family { property: "D12", name: "tolerated", n: (1200, 20_000), rule: "JPEGs with bytes between headers, no end marker, bytes after the end", f: strict::tolerated },
    Family { property: "R11", name: "jpeg", n: (1500, 40_000), rule: "cases of this program's other families run again and again; bytes, files and threads held must not grow", f: zvcore::balanced },
    Family { property: "D04", name: "baseline", n: (200, 4000), rule: "sequential files of random size, sampling, tables, restarts and scans; counts when libjpeg agrees with the model", f: f_base },
    Family { property: "D04", name: "progressive", n: (200, 4000), rule: "progressive files with random scan scripts; counts when libjpeg agrees with the model", f: f_prog },
    Family { property: "D04", name: "wide", n: (60, 1000), rule: "long thin images crossing many MCUs", f: f_wide },
    Family { property: "D04", name: "corpus", n: (80, 80), rule: "the repository's sample files that libjpeg decodes", f: f_corpus },
    Family { property: "D04", name: "odd-sampling", n: (100, 2000), rule: "sampling factors cameras do not use; counts when libjpeg agrees with the model", f: f_odd },
    Family { property: "D05", name: "layouts", n: (300, 6000), rule: "a random JPEG decoded into every colour space", f: f_layout },
    Family { property: "D06", name: "jpeg", n: (1500, 20000), rule: "random EXIF, XMP, IPTC and ICC segments among foreign ones", f: d06_jpeg },
];
fn main() {
    zvcore::main(FAMILIES)
}
