M = open('/verif/tools/bugs/mini.rs').read()
D = '/verif/tools/bugs/data/'
BUGS = [
dict(id="jpeg-refine-low-columns", property="D04", needs="a progressive refinement scan of a band that does not start at 1, an end-of-band run, and coefficients only where their place in the block is below the band's first number",
 breaks="the correction bits of such a block are not read, so it and what follows come out wrong",
 edits=[("crates/zune-jpeg/src/bitstream.rs", "if &block[1..] != &[0; 63] {", "if block[usize::from(self.spec_start)..].iter().any(|c| *c != 0) {")],
 deps="zune-jpeg zune-core", files={"g.bin": open(D+'refine.jpg','rb').read()}, main='''
use zune_core::{bytestream::ZCursor, colorspace::ColorSpace, options::DecoderOptions};
const WANT: u64 = 14513746318803879055;
fn main() {
    let o = DecoderOptions::default().jpeg_set_out_colorspace(ColorSpace::Luma);
    let px = zune_jpeg::JpegDecoder::new_with_options(ZCursor::new(include_bytes!("../g.bin")), o).decode().unwrap();
    let h = px.iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ u64::from(*b)).wrapping_mul(0x100000001b3));
    assert_eq!(h, WANT);
}
'''),
dict(id="jpeg-avx2-flat-test", property="R09", needs="a JPEG block whose only frequencies are in its last row, decoded with acceleration on",
 breaks="such a block is taken for a flat one",
 edits=[("crates/zune-jpeg/src/idct/avx2.rs", "    bitmap = _mm256_or_si256(bitmap, rw7);\n", "")],
 deps="zune-jpeg zune-core", files={"g.bin": open(D+'row7.jpg','rb').read()}, main='''
use zune_core::{bytestream::ZCursor, colorspace::ColorSpace, options::DecoderOptions};
fn dec(fast: bool) -> Vec<u8> {
    let o = DecoderOptions::default().jpeg_set_out_colorspace(ColorSpace::Luma).set_use_unsafe(fast);
    zune_jpeg::JpegDecoder::new_with_options(ZCursor::new(include_bytes!("../g.bin")), o).decode().unwrap()
}
fn main() {
    for (a, b) in dec(true).iter().zip(dec(false)) { assert!(a.abs_diff(b) <= 2, "{a} {b}"); }
}
'''),
dict(id="channel-drop-when-empty", property="R11", needs="channels that were given room and are dropped before anything was stored in them",
 breaks="the memory of an empty channel is never given back",
 edits=[("crates/zune-image/src/channel.rs", "            self.dealloc();\n        }\n    }\n}", "            if self.length != 0 {\n                self.dealloc();\n            }\n        }\n    }\n}")],
 deps="zune-image", main='''
use zune_image::channel::Channel;
fn rss() -> usize {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap();
    s.split(' ').next().unwrap().parse::<usize>().unwrap() * 4096
}
fn main() {
    let a = rss();
    for _ in 0..400 { drop(Channel::new_with_capacity::<u16>(1 << 20)); }
    let b = rss();
    assert!(b < a + (100 << 20), "{} MB more", (b - a) >> 20);
}
'''),
dict(id="cli-unsharpen-threshold-byte", property="A02", needs="--unsharpen with a threshold above 255 on a 16 bit image",
 breaks="the threshold is cut to 255",
 edits=[("crates/zune-bin/src/cmd_parsers/filters.rs", "Unsharpen::new(sigma_f32, threshold_u16 as u16, 0)", "Unsharpen::new(sigma_f32, u16::from(threshold_u16 as u8), 0)")],
 deps="zune-bin zune-image zune-imageprocs zune-core=std", main='''
use zune_core::colorspace::ColorSpace; use zune_core::options::DecoderOptions; use zune_image::image::Image; use zune_image::traits::OperationsTrait;
fn main() {
    if std::env::var_os("CHILD").is_some() { zune_bin::main(); return; }
    let d = std::env::temp_dir().join(format!("unsharp-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let (i, o) = (d.join("i.png"), d.join("o.png"));
    let px: Vec<u16> = (0..30 * 20).map(|n| (n * 7919 % 9000 + 3000) as u16).collect();
    Image::from_u16(&px, 30, 20, ColorSpace::Luma).save(&i).unwrap();
    let s = std::process::Command::new(std::env::current_exe().unwrap()).env("CHILD", "1").arg("-i").arg(&i).arg("-o").arg(&o).args(["--unsharpen", "1.5", "1200"]).status().unwrap();
    let mut want = Image::open(&i).unwrap();
    zune_imageprocs::unsharpen::Unsharpen::new(1.5, 1200, 0).execute(&mut want).unwrap();
    let got = Image::open_with_options(&o, DecoderOptions::default());
    std::fs::remove_dir_all(&d).unwrap();
    assert!(s.success());
    assert!(got.unwrap().channels_ref(false)[0] == want.channels_ref(false)[0]);
}
'''),
dict(id="qoi-end-bytes-first-seven", property="D12", needs="a QOI file of which only the very last byte is wrong, read in strict mode",
 breaks="strict mode accepts it",
 edits=[("crates/zune-qoi/src/decoder.rs", "        let remaining = self.stream.read_fixed_bytes_or_error()?;\n\n        if remaining != LAST_BYTES {", "        let remaining: [u8; 8] = self.stream.read_fixed_bytes_or_error()?;\n\n        if remaining[..7] != LAST_BYTES[..7] {")],
 deps="zune-qoi zune-core", main='''
use zune_core::{bytestream::ZCursor, options::DecoderOptions};
fn main() {
    let mut f = b"qoif".to_vec(); f.extend([0, 0, 0, 1, 0, 0, 0, 1, 3, 0]); f.extend([0xfe, 1, 2, 3]); f.extend([0, 0, 0, 0, 0, 0, 0, 1]);
    let dec = |f: &[u8]| zune_qoi::QoiDecoder::new_with_options(ZCursor::new(f), DecoderOptions::default().set_strict_mode(true)).decode();
    assert_eq!(dec(&f).unwrap(), [1, 2, 3]);
    *f.last_mut().unwrap() = 0;
    assert!(dec(&f).is_err());
}
'''),
]
