//! E03: JPEG XL encoding is lossless.
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_core::options::EncoderOptions;
use zune_jpegxl::JxlSimpleEncoder;
use zvcore::{diff_msg, hash_bytes, Case, Family};

const SPACES: [ColorSpace; 4] = [ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA];

/// what jxl-oxide makes of the stream, as interleaved integer samples
fn oxide(b: &[u8], depth: u32) -> Result<(usize, usize, usize, u32, Vec<u32>), String> {
    let im = jxl_oxide::JxlImage::builder().pool(jxl_oxide::JxlThreadPool::none()).read(std::io::Cursor::new(b)).map_err(|e| format!("{e}"))?;
    let h = im.image_header();
    let (bits, gray) = (h.metadata.bit_depth.bits_per_sample(), im.pixel_format().is_grayscale());
    let r = im.render_frame(0).map_err(|e| format!("{e}"))?;
    let fb = r.image_all_channels();
    let max = ((1u32 << depth) - 1) as f64;
    let v = fb.buf().iter().map(|x| (*x as f64 * max).round().clamp(0.0, max) as u32).collect();
    let ch = fb.channels();
    if gray != (ch < 3) {
        return Err(format!("{ch} channels, grayscale {gray}"));
    }
    Ok((fb.width(), fb.height(), ch, bits, v))
}
fn pixels(c: &mut Case, w: usize, h: usize, ch: usize, sixteen: bool) -> Vec<u8> {
    let n = w * h * ch;
    let mut v: Vec<u16> = {
        let a = c.rng.texture(n);
        let b = c.rng.texture(n);
        a.iter().zip(&b).map(|(x, y)| if sixteen { (*x as u16) << 8 | *y as u16 } else { *x as u16 }).collect()
    };
    let max = if sixteen { 65535u16 } else { 255 };
    match c.rng.below(7) {
        // flat: the longest runs there are
        0 => {
            let k = v[0];
            v.iter_mut().for_each(|x| *x = k)
        }
        // sparse: runs broken now and then
        1 => {
            let k = v[0];
            let p = *c.rng.pick(&[9usize, 60, 300, 5000]);
            for x in v.iter_mut() {
                if !c.rng.one_in(p) {
                    *x = k;
                }
            }
        }
        // extremes: the largest residuals there are
        2 => v.iter_mut().for_each(|x| *x = if *x & 1 == 0 { 0 } else { max }),
        // rows repeat
        3 => {
            let row = w * ch;
            for i in row..n {
                if i / row % 3 != 0 {
                    v[i] = v[i - row];
                }
            }
        }
        // gradients: small residuals
        4 => {
            for (i, x) in v.iter_mut().enumerate() {
                let (px, y) = (i / ch % w, i / ch / w);
                *x = ((px * 3 + y * 5 + i % ch * 7) as u16) % (max.saturating_add(1).max(max)).max(1);
            }
        }
        _ => {}
    }
    if sixteen {
        v.iter().flat_map(|x| x.to_ne_bytes()).collect()
    } else {
        v.iter().map(|x| *x as u8).collect()
    }
}
fn encode(c: &mut Case, data: &[u8], o: EncoderOptions) -> Option<Result<(usize, Vec<u8>), String>> {
    c.lib("jxl encode", || {
        let mut out = Vec::new();
        JxlSimpleEncoder::new(data, o).encode(&mut out).map(|n| (n, out)).map_err(|e| format!("{e:?}"))
    })
}
fn check(c: &mut Case, w: usize, h: usize) {
    let ch = c.rng.range(1, 4);
    let sixteen = c.rng.bool();
    let data = pixels(c, w, h, ch, sixteen);
    check_pixels(c, w, h, ch, sixteen, data)
}
/// the prefix codes are made from the rows in the middle of every group; here the other rows look nothing like
/// those, so what is common in the data has the longest codes
fn phases(c: &mut Case) {
    let (w, h) = (*c.rng.pick(&[64usize, 200, 256, 256, 256, 300, 512]), *c.rng.pick(&[100usize, 255, 256, 256, 256, 300]));
    let ch = c.rng.range(1, 4);
    let sixteen = c.rng.bool();
    let max = if sixteen { 65535usize } else { 255 };
    let inverse = c.rng.one_in(4);
    let around = *c.rng.pick(&[2usize, 6, 12, 40]);
    let gap = *c.rng.pick(&[20usize, 45, 100, 600, 3000, 5000, 9000, 17_000, 20_000, 33_000, 40_000, 60_000, 1_000_000]);
    let flat = c.rng.below(max + 1);
    let amp = *c.rng.pick(&[1usize, 3, 20, 255, max]);
    let mut v = vec![flat as u16; w * h * ch];
    for y in 0..h {
        let (top, height) = (y / 256 * 256, (h - y / 256 * 256).min(256));
        let mid = (y - top).abs_diff(height / 2) < around;
        for x in 0..w {
            if mid != inverse {
                for k in 0..ch {
                    v[(y * w + x) * ch + k] = ((flat + c.rng.below(amp + 1)) % (max + 1)) as u16;
                }
            } else if c.rng.one_in(gap) {
                let k = c.rng.below(ch);
                v[(y * w + x) * ch + k] ^= 1 << c.rng.below(8);
            }
        }
    }
    c.tag(if inverse { "noise around flat" } else { "flat around noise" });
    c.tag(&format!("gap{gap}"));
    let data = if sixteen { v.iter().flat_map(|x| x.to_ne_bytes()).collect() } else { v.iter().map(|x| *x as u8).collect() };
    check_pixels(c, w, h, ch, sixteen, data)
}
fn check_pixels(c: &mut Case, w: usize, h: usize, ch: usize, sixteen: bool, data: Vec<u8>) {
    let want: Vec<u32> = if sixteen { data.chunks(2).map(|x| u16::from_ne_bytes([x[0], x[1]]) as u32).collect() } else { data.iter().map(|x| *x as u32).collect() };
    let depth = if sixteen { 16 } else { 8 };
    let (mut effort, mut threads) = (if c.rng.bool() { 4 } else { c.rng.u8() }, *c.rng.pick(&[0u8, 1, 2, 3, 4, 8]));
    if c.rng.one_in(8) {
        effort = *c.rng.pick(&[0, 1, 127, 128, 255]);
    }
    if c.rng.one_in(16) {
        threads = 255;
    }
    let k = format!("{:?}{depth}", SPACES[ch - 1]);
    let what = format!("{w}x{h} {k} effort {effort} threads {threads}");
    c.blob(&data);
    c.tag(&k);
    let groups = w.div_ceil(256) * h.div_ceil(256);
    c.tag(if groups == 1 { "one-group" } else { "many-groups" });
    c.sample(|| what.clone());
    let bd = if sixteen { BitDepth::Sixteen } else { BitDepth::Eight };
    let o = EncoderOptions::new(w, h, SPACES[ch - 1], bd).set_effort(effort).set_num_threads(threads);
    let Some(r) = encode(c, &data, o) else { return };
    let (n, out) = match r {
        Ok(x) => x,
        Err(e) => {
            c.fail(format!("refused:{k}{}", if w < 2 || h < 2 { "-thin" } else { "" }), format!("{what}: {e}"));
            return;
        }
    };
    c.check(n == out.len(), "returned-length", || format!("{what}: {n} returned, {} written", out.len()));
    match c.oracle(|| oxide(&out, depth)) {
        None => {}
        Some(Err(e)) => c.fail(format!("undecodable:{k}"), format!("{what}: {e}")),
        Some(Ok((rw, rh, rch, bits, v))) => {
            c.check((rw, rh) == (w, h), "dimensions", || format!("{what}: {rw}x{rh}"));
            c.check(rch == ch && bits == depth, "layout", || format!("{what}: {rch} channels of {bits} bits"));
            c.check(v == want, &format!("samples:{k}"), || format!("{what}: {}", diff_msg(&v, &want)));
        }
    }
    if groups > 1 {
        // the schedule must not show
        for t in [1u8, 3] {
            if let Some(Ok((_, again))) = encode(c, &data, o.set_num_threads(t)) {
                c.check(again == out, "thread-dependent", || format!("{what}: {t} threads gave {} bytes, not the same {}", again.len(), out.len()));
            }
        }
    }
    c.saw(hash_bytes(&data) ^ (w as u64) << 32 ^ (effort as u64) << 8 ^ threads as u64);
}
fn small(c: &mut Case) {
    let (w, h) = (c.rng.dim(60), c.rng.dim(60));
    check(c, w, h);
}
fn grid(c: &mut Case) {
    let i = c.idx as usize;
    check(c, 1 + i % 18, 1 + i / 18 % 18);
}
fn groups(c: &mut Case) {
    let mut d = || {
        let r = &mut c.rng;
        match r.below(3) {
            0 => *r.pick(&[255, 256, 257, 264, 511, 512, 513, 520]),
            1 => r.range(1, 40),
            _ => r.range(200, 800)
        }
    };
    let (w, h) = (d(), d());
    check(c, w, h);
}
fn dc_groups(c: &mut Case) {
    let long = *c.rng.pick(&[2047, 2048, 2049, 2300, 4097, 8191, 8192, 8193, 20000, 262143, 262145, 270000]);
    let short = c.rng.range(1, if long > 10_000 { 2 } else { 12 });
    if c.rng.bool() {
        check(c, long, short)
    } else {
        check(c, short, long)
    }
}
fn refuse(c: &mut Case) {
    let (w, h) = (c.rng.range(1, 20), c.rng.range(1, 20));
    let cs = *c.rng.pick(&[ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::BGR, ColorSpace::BGRA, ColorSpace::YCbCr, ColorSpace::CMYK]);
    let bd = *c.rng.pick(&[BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32]);
    let good = w * h * cs.num_components() * bd.size_of();
    let len = match c.rng.below(3) {
        0 => good,
        1 => good + c.rng.range(1, 9),
        _ => good.saturating_sub(c.rng.range(1, 9))
    };
    let data = c.rng.bytes(len);
    let what = format!("{w}x{h} {cs:?} {bd:?}: {len} bytes of {good}");
    let ok = SPACES.contains(&cs) && bd != BitDepth::Float32 && len == good;
    if let Some(r) = encode(c, &data, EncoderOptions::new(w, h, cs, bd)) {
        c.check(r.is_ok() == ok, if r.is_ok() { "accepts" } else { "refuses" }, || format!("{what}: {:?}", r.as_ref().err()));
    }
    c.sample(|| what.clone());
    c.saw(hash_bytes(what.as_bytes()));
}
static FAMILIES: &[Family] = &[
    Family { property: "R11", name: "jxl", n: (1500, 40_000), rule: "cases of this program's other families run again and again; bytes, files and threads held must not grow", f: zvcore::balanced },
    Family { property: "E03", name: "small", n: (6_000, 120_000), rule: "random images of one group, every layout, effort and thread count", f: small },
    Family { property: "E03", name: "grid", n: (648, 6_480), rule: "every size up to 18x18", f: grid },
    Family { property: "E03", name: "groups", n: (200, 6_000), rule: "sizes around multiples of the 256-pixel group; output compared across thread counts", f: groups },
    Family { property: "E03", name: "dc-groups", n: (60, 1_000), rule: "sizes beyond the 2048-pixel DC group", f: dc_groups },
    Family { property: "E03", name: "phases", n: (600, 12_000), rule: "one image in two parts, the sampled rows and the others, of opposite statistics: long runs and rare residuals get the longest codes", f: phases },
    Family { property: "E03", name: "refuse", n: (3_000, 30_000), rule: "unsupported layouts and wrong lengths are errors, supported ones are not", f: refuse }
];
fn main() {
    zvcore::main(FAMILIES)
}
