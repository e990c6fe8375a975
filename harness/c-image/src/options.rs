//! O07: option builders as records with named fields.
use zune_core::bit_depth::{BitDepth, ByteEndian};
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zvcore::{hash_bytes, Case};

#[derive(Clone, Debug, PartialEq)]
struct Dec {
    max_width: usize,
    max_height: usize,
    unsafe_: bool,
    adler: bool,
    crc: bool,
    jpg_strict: bool,
    endian: ByteEndian,
    limit: usize,
    add_alpha: bool,
    strip: bool,
    png_anim: bool,
    jxl_anim: bool,
    scans: usize,
    cs: ColorSpace
}
const BASE: Dec = Dec {
    max_width: 1 << 14,
    max_height: 1 << 14,
    unsafe_: true,
    adler: false,
    crc: false,
    jpg_strict: false,
    endian: ByteEndian::BE,
    limit: 1 << 30,
    add_alpha: false,
    strip: false,
    png_anim: true,
    jxl_anim: true,
    scans: 100,
    cs: ColorSpace::RGB
};
/// the getters; strict mode is any of its parts, intrinsics need the processor and permission
fn dec_view(o: &DecoderOptions) -> String {
    format!(
        "{:?}",
        (
            (o.max_width(), o.max_height(), o.use_unsafe(), o.inflate_get_confirm_adler(), o.png_get_confirm_crc(), o.strict_mode(), o.byte_endian()),
            (o.inflate_get_limit(), o.png_get_add_alpha_channel(), o.png_get_strip_to_8bit(), o.png_decode_animated(), o.jxl_decode_animated(), o.jpeg_get_max_scans(), o.jpeg_get_out_colorspace()),
            [o.use_sse2(), o.use_sse3(), o.use_sse41(), o.use_avx(), o.use_avx2(), o.use_neon()]
        )
    )
}
fn dec_model(d: &Dec) -> String {
    let x86 = |b: bool| cfg!(target_arch = "x86_64") && b && d.unsafe_;
    #[cfg(target_arch = "x86_64")]
    let has = [
        is_x86_feature_detected!("sse2"),
        is_x86_feature_detected!("sse3"),
        is_x86_feature_detected!("sse4.1"),
        is_x86_feature_detected!("avx"),
        is_x86_feature_detected!("avx2")
    ];
    #[cfg(not(target_arch = "x86_64"))]
    let has = [false; 5];
    format!(
        "{:?}",
        (
            (d.max_width, d.max_height, d.unsafe_, d.adler, d.crc, d.adler | d.crc | d.jpg_strict, d.endian),
            (d.limit, d.add_alpha, d.strip, d.png_anim, d.jxl_anim, d.scans, d.cs),
            [x86(has[0]), x86(has[1]), x86(has[2]), x86(has[3]), x86(has[4]), cfg!(target_arch = "aarch64") && d.unsafe_]
        )
    )
}
pub fn decoder(c: &mut Case) {
    let r = &mut c.rng;
    let preset = r.below(5);
    let mut o = match preset {
        0 => DecoderOptions::new_fast(),
        1 => DecoderOptions::new_cmd(),
        2 => DecoderOptions::new_safe(),
        _ => DecoderOptions::default()
    };
    let mut m = BASE;
    let mut hist = vec![format!("preset {preset}")];
    for i in 0..=r.below(25) {
        let (a, b) = (dec_view(&o), dec_model(&m));
        if a != b {
            let h = hist.join(" ");
            return c.fail(if i == 0 { "preset" } else { "decoder-option" }, format!("{h}: {a}, expected {b}"));
        }
        let y = r.bool();
        let n = match r.below(4) {
            0 => *r.pick(&[0, 1, usize::MAX, u32::MAX as usize]),
            _ => r.below(100_000)
        };
        let k = r.below(13);
        hist.push(format!("{k}({y},{n})"));
        match k {
            0 => (o, m.max_width) = (o.set_max_width(n), n),
            1 => (o, m.max_height) = (o.set_max_height(n), n),
            2 => (o, m.unsafe_) = (o.set_use_unsafe(y), y),
            3 => {
                o = o.set_strict_mode(y);
                (m.adler, m.crc, m.jpg_strict) = (y, y, y);
            }
            4 => {
                let e = if y { ByteEndian::BE } else { ByteEndian::LE };
                (o, m.endian) = (o.set_byte_endian(e), e);
            }
            5 => (o, m.adler) = (o.inflate_set_confirm_adler(y), y),
            6 => (o, m.limit) = (o.inflate_set_limit(n), n),
            7 => (o, m.crc) = (o.png_set_confirm_crc(y), y),
            8 => (o, m.add_alpha) = (o.png_set_add_alpha_channel(y), y),
            9 => (o, m.strip) = (o.png_set_strip_to_8bit(y), y),
            10 => (o, m.png_anim) = (o.png_set_decode_animated(y), y),
            11 => (o, m.jxl_anim) = (o.jxl_set_decode_animated(y), y),
            _ => {
                if y {
                    (o, m.scans) = (o.jpeg_set_max_scans(n), n)
                } else {
                    let s = *r.pick(&zvimg::COLOUR);
                    (o, m.cs) = (o.jpeg_set_out_colorspace(s), s)
                }
            }
        }
    }
    let (a, b) = (dec_view(&o), dec_model(&m));
    c.saw(hash_bytes(hist.join(" ").as_bytes()));
    c.tag_n("calls", hist.len() as u64 - 1);
    c.sample(|| hist.join(" "));
    c.check(a == b, "decoder-option", || format!("{}: {a}, expected {b}", hist.join(" ")));
}
#[derive(Clone, Debug, PartialEq)]
struct Enc {
    w: usize,
    h: usize,
    cs: ColorSpace,
    q: u8,
    d: BitDepth,
    threads: u8,
    effort: u8,
    prog: bool,
    strip: bool
}
fn enc_view(o: &EncoderOptions) -> Enc {
    Enc {
        w: o.width(),
        h: o.height(),
        cs: o.colorspace(),
        q: o.quality(),
        d: o.depth(),
        threads: o.num_threads(),
        effort: o.effort(),
        prog: o.jpeg_encode_progressive(),
        strip: o.strip_metadata()
    }
}
pub fn encoder(c: &mut Case) {
    let r = &mut c.rng;
    let mut m = Enc { w: 0, h: 1 + r.below(1000), cs: ColorSpace::RGB, q: 80, d: BitDepth::Eight, threads: 4, effort: 4, prog: false, strip: false };
    let mut o = if r.bool() {
        EncoderOptions::default().set_height(m.h)
    } else {
        m.w = r.below(10_000);
        m.cs = *r.pick(&zvimg::COLOUR);
        m.d = *r.pick(&zvimg::DEPTHS);
        EncoderOptions::new(m.w, m.h, m.cs, m.d)
    };
    let mut hist: Vec<String> = vec![];
    let steps = r.below(20);
    for i in 0..=steps {
        let Some(v) = c.lib("getters", || (enc_view(&o), o.jpeg_optimized_huffman_tables())) else { return };
        if v.0 != m || v.1 {
            return c.fail(if i == 0 { "encoder-default" } else { "encoder-option" }, format!("{}: {v:?}, expected {m:?} and standard Huffman tables", hist.join(" ")));
        }
        let r = &mut c.rng;
        let y = r.bool();
        let n = r.below(100_000);
        let b = r.u8();
        let k = r.below(9);
        hist.push(format!("{k}({y},{n},{b})"));
        match k {
            0 => (o, m.w) = (o.set_width(n), n),
            1 => (o, m.h) = (o.set_height(n + 1), n + 1),
            2 => (o, m.q) = (o.set_quality(b), b.min(100)),
            3 => {
                let s = *r.pick(&zvimg::COLOUR);
                (o, m.cs) = (o.set_colorspace(s), s)
            }
            4 => {
                let s = *r.pick(&zvimg::DEPTHS);
                (o, m.d) = (o.set_depth(s), s)
            }
            5 => (o, m.threads) = (o.set_num_threads(b), b),
            6 => (o, m.effort) = (o.set_effort(b), b),
            7 => (o, m.strip) = (o.set_strip_metadata(y), y),
            _ => (o, m.prog) = (o.set_jpeg_encode_progressive(y), y)
        }
    }
    c.tag_n("calls", hist.len() as u64);
    c.sample(|| hist.join(" "));
    c.saw(hash_bytes(hist.join(" ").as_bytes()));
}
