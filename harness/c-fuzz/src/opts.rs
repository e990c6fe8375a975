//! Any decoder options.
use zune_core::bit_depth::ByteEndian;
use zune_core::colorspace::{ColorSpace, ALL_COLORSPACES};
use zune_core::options::DecoderOptions;
use zvcore::Rng;
use zvgen::corpus::Fmt;

pub fn opts(rng: &mut Rng, fmt: Fmt) -> DecoderOptions {
    let mut o = match rng.below(4) {
        0 => DecoderOptions::new_fast(),
        1 => DecoderOptions::new_cmd(),
        _ => DecoderOptions::default()
    };
    if rng.bool() {
        o = o.set_strict_mode(rng.bool());
    }
    if rng.bool() {
        o = o.set_use_unsafe(rng.bool());
    }
    match fmt {
        Fmt::Png | Fmt::Apng => {
            o = o.png_set_confirm_crc(rng.one_in(4)).png_set_add_alpha_channel(rng.bool()).png_set_strip_to_8bit(rng.bool()).png_set_decode_animated(!rng.one_in(4)).inflate_set_confirm_adler(rng.one_in(3)).set_byte_endian(if rng.bool() { ByteEndian::LE } else { ByteEndian::BE });
            if rng.one_in(6) {
                o = o.inflate_set_limit(*rng.pick(&[0usize, 1, 100, 5000, 1 << 20]));
            }
        }
        Fmt::Jpeg => {
            if rng.bool() {
                o = o.jpeg_set_out_colorspace(if rng.one_in(4) { *rng.pick(&ALL_COLORSPACES) } else { *rng.pick(&[ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::YCbCr, ColorSpace::CMYK]) });
            }
            if rng.one_in(6) {
                o = o.jpeg_set_max_scans(*rng.pick(&[0usize, 1, 5, 100, 10_000]));
            }
        }
        _ => {}
    }
    o
}
pub fn limits(rng: &mut Rng, o: DecoderOptions) -> DecoderOptions {
    // bounded so that a hostile header cannot ask for much work
    match rng.below(8) {
        0 => o.set_max_width(60_000).set_max_height(40),
        1 => o.set_max_width(40).set_max_height(60_000),
        2 => o.set_max_width(1 << 21).set_max_height(3),
        3 => o.set_max_width(3).set_max_height(1 << 21),
        _ => o.set_max_width(700).set_max_height(700)
    }
}
