//! A02: the command-line tool, run as a process in scratch directories and compared with the
//! library. With ZV_AS_ZUNE set this program *is* the tool (the same entry point as /repo/src/main.rs).
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_image::codecs::ImageFormat;
use zune_image::core_filters::colorspace::ColorspaceConv;
use zune_image::core_filters::depth::Depth;
use zune_image::image::Image;
use zune_image::traits::OperationsTrait;
use zune_imageprocs as ip;
use zvcore::{hash_bytes, Case, Family};
use zvgen::corpus::{damage, magic_noise, valid, Fmt, FMTS};
use zvcore::rng::Rng;
use zvimg::*;

static N: AtomicU64 = AtomicU64::new(0);
/// scratch directory of one case, removed with everything the tool left in it
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        let base = std::env::var_os("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let d = base.join(format!("zvcli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch");
        Dir(d)
    }
    fn list(&self) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        let mut todo = vec![self.0.clone()];
        while let Some(d) = todo.pop() {
            for e in std::fs::read_dir(&d).expect("scratch").flatten() {
                let p = e.path();
                let name = p.strip_prefix(&self.0).unwrap().to_string_lossy().to_string();
                let t = e.file_type().expect("type");
                if t.is_symlink() {
                    m.insert(name, b"link".to_vec());
                } else if t.is_dir() {
                    m.insert(name, b"dir".to_vec());
                    todo.push(p);
                } else {
                    m.insert(name, std::fs::read(p).expect("read"));
                }
            }
        }
        m
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: String
}
impl Ran {
    fn panicked(&self) -> bool {
        self.err.contains("panicked at")
    }
}
fn zune(dir: &Path, args: &[String], stdin: Option<&[u8]>) -> Ran {
    let mut cmd = Command::new(std::env::current_exe().expect("exe"));
    cmd.args(args.iter().map(OsString::from))
        .current_dir(dir)
        .env("ZV_AS_ZUNE", "1")
        .stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    let mut ch = cmd.spawn().expect("spawn");
    let feeder = stdin.map(|s| {
        let (mut p, s) = (ch.stdin.take().unwrap(), s.to_vec());
        std::thread::spawn(move || {
            let _ = p.write_all(&s);
        })
    });
    let o = ch.wait_with_output().expect("wait");
    if let Some(f) = feeder {
        let _ = f.join();
    }
    Ran { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).to_string() }
}

/// one operation: what is typed, and what the library offers under that name
struct Op {
    args: Vec<String>,
    op: Box<dyn OperationsTrait>
}
fn one(name: &str, v: impl ToString, op: impl OperationsTrait + 'static) -> Op {
    Op { args: vec![format!("--{name}"), v.to_string()], op: Box::new(op) }
}
fn flag(name: &str, op: impl OperationsTrait + 'static) -> Op {
    Op { args: vec![format!("--{name}")], op: Box::new(op) }
}
fn many(name: &str, v: &[String], op: impl OperationsTrait + 'static) -> Op {
    let mut args = vec![format!("--{name}")];
    args.extend(v.iter().cloned());
    Op { args, op: Box::new(op) }
}
const NOPS: usize = 30;
fn op(r: &mut Rng, k: usize, w: usize, h: usize) -> Op {
    let f = |r: &mut Rng, lo: f32, hi: f32| -> f32 { ((lo + (hi - lo) * r.below(1000) as f32 / 1000.0) * 100.0).round() / 100.0 };
    match k {
        0 => flag("flip", ip::flip::Flip::new(ip::flip::FlipDirection::MirrorXAxis)),
        1 => flag("flop", ip::flip::Flip::new(ip::flip::FlipDirection::Horizontal)),
        2 => flag("v-flip", ip::flip::Flip::new(ip::flip::FlipDirection::Vertical)),
        3 => flag("transpose", ip::transpose::Transpose::new()),
        4 => flag("invert", ip::invert::Invert::new()),
        5 => flag("grayscale", ColorspaceConv::new(ColorSpace::Luma)),
        6 => flag("sobel", ip::sobel::Sobel::new()),
        7 => flag("scharr", ip::scharr::Scharr::new()),
        8 => flag("auto-orient", ip::auto_orient::AutoOrient),
        9 => {
            use ip::mirror::MirrorMode::*;
            let (n, m) = *r.pick(&[("north", North), ("south", South), ("east", East), ("west", West)]);
            one("mirror", n, ip::mirror::Mirror::new(m))
        }
        10 => {
            let v = f(r, -200.0, 200.0);
            one("brighten", v, ip::brighten::Brighten::new(v))
        }
        11 => {
            let v = f(r, 0.2, 3.0);
            one("gamma", v, ip::gamma::Gamma::new(v))
        }
        12 => {
            let v = f(r, 0.0, 200.0);
            one("contrast", v, ip::contrast::Contrast::new(v))
        }
        13 => {
            let v = f(r, 0.0, 3.0);
            one("exposure", v, ip::exposure::Exposure::new(v, 0.0))
        }
        14 => {
            let v = f(r, 0.0, 360.0);
            one("huerotate", v, ip::hsv_adjust::HsvAdjust::new(v, 1.0, 1.0))
        }
        15 => {
            let v = f(r, 0.0, 3.0);
            one("saturate", v, ip::hsv_adjust::HsvAdjust::new(0.0, v, 1.0))
        }
        16 => {
            let v = f(r, 0.0, 3.0);
            one("lightness", v, ip::hsv_adjust::HsvAdjust::new(0.0, 1.0, v))
        }
        17 => {
            let v = *r.pick(&[90.0f32, 180.0, 270.0]);
            one("rotate", v, ip::rotate::Rotate::new(v))
        }
        18 => {
            let (d, b) = *r.pick(&[(8, BitDepth::Eight), (16, BitDepth::Sixteen)]);
            one("depth", d, Depth::new(b))
        }
        19 => {
            let (n, s) = *r.pick(&[
                ("rgb", ColorSpace::RGB),
                ("rgba", ColorSpace::RGBA),
                ("luma", ColorSpace::Luma),
                ("lumaA", ColorSpace::LumaA),
                ("grayscale", ColorSpace::Luma),
                ("ycbcr", ColorSpace::YCbCr)
            ]);
            one("colorspace", n, ColorspaceConv::new(s))
        }
        20 => {
            // sometimes outside the image, which has to fail the same way
            let (cw, ch) = (r.below(w + 1) + 1, r.below(h + 1) + 1);
            let (x, y) = (r.below(w) as usize / 2, r.below(h) as usize / 2);
            let v: Vec<String> = [cw, ch, x, y].iter().map(|v| v.to_string()).collect();
            many("crop", &v, ip::crop::Crop::new(cw, ch, x, y))
        }
        21 => {
            use ip::threshold::ThresholdMethod::*;
            let (n, m) = *r.pick(&[("binary", Binary), ("binary_inv", BinaryInv), ("thresh_trunc", ThreshTrunc), ("thresh_to_zero", ThreshToZero)]);
            let v = f(r, 0.0, 255.0);
            many("threshold", &[v.to_string(), n.into()], ip::threshold::Threshold::new(v, m))
        }
        22 => {
            let (a, b) = (f(r, 0.0, 100.0), f(r, 120.0, 255.0));
            many("stretch-contrast", &[a.to_string(), b.to_string()], ip::stretch_contrast::StretchContrast::new(a, b))
        }
        23 => {
            use ip::resize::ResizeMethod::*;
            let (a, b) = (1 + r.below(40) as usize, 1 + r.below(40) as usize);
            let (n, m) = *r.pick(&[
                ("", Bicubic),
                ("lanczos", Lanczos3),
                ("lanczos2", Lanczos2),
                ("bilinear", Bilinear),
                ("bicubic", Bicubic),
                ("catmullrom", CatmullRom),
                ("bspline", BSpline),
                ("hermite", Hermite),
                ("sinc", Sinc)
            ]);
            let mut o = one("resize", format!("{a}x{b}"), ip::resize::Resize::new(a, b, m));
            if !n.is_empty() {
                // the method is an option of its own and may be typed before or after
                let x = vec!["--resize-method".to_string(), n.to_string()];
                o.args = if r.bool() { [x, o.args].concat() } else { [o.args, x].concat() };
            }
            o
        }
        24 => {
            let v = 1 + r.below(6) as usize;
            one("box-blur", v, ip::box_blur::BoxBlur::new(v))
        }
        25 => {
            let v = f(r, 0.5, 4.0);
            one("blur", v, ip::gaussian_blur::GaussianBlur::new(v))
        }
        26 => {
            // the threshold is a sample value, and images of 16 bits have large ones
            let b = if r.one_in(3) { r.below(65536) as u16 } else { r.below(60) as u16 };
            let a = f(r, 0.5, 3.0);
            many("unsharpen", &[a.to_string(), b.to_string()], ip::unsharpen::Unsharpen::new(a, b, 0))
        }
        27 => {
            use ip::spatial_ops::SpatialOperations::*;
            let (n, m) = *r.pick(&[("contrast", Contrast), ("max", Maximum), ("maximum", Maximum), ("gradient", Gradient), ("min", Minimum), ("minimum", Minimum), ("mean", Mean), ("avg", Mean)]);
            let v = 1 + r.below(3) as usize;
            many("statistic", &[v.to_string(), n.into()], ip::spatial::SpatialOps::new(v, m))
        }
        28 => {
            let v = 1 + r.below(3) as usize;
            if r.bool() {
                one("median-blur", v, ip::median::Median::new(v))
            } else {
                one("mean-blur", v, ip::spatial::SpatialOps::new(v, ip::spatial_ops::SpatialOperations::Mean))
            }
        }
        _ => {
            let n = *r.pick(&[9usize, 25]);
            let v: Vec<f32> = (0..n).map(|_| f(r, -1.0, 1.0)).collect();
            let t: Vec<String> = v.iter().map(|x| x.to_string()).collect();
            many("convolve", &t, ip::convolve::Convolve::new(v, 1.0))
        }
    }
}
/// distinct operations, in the order they are typed
fn ops(r: &mut Rng, n: usize, w: usize, h: usize) -> Vec<Op> {
    let mut ks: Vec<usize> = Vec::new();
    while ks.len() < n {
        let k = r.below(NOPS);
        if !ks.contains(&k) {
            ks.push(k);
        }
    }
    ks.into_iter().map(|k| op(r, k, w, h)).collect()
}
const EXT: [(&str, ImageFormat); 13] = [
    ("png", ImageFormat::PNG),
    ("jpg", ImageFormat::JPEG),
    ("jpeg", ImageFormat::JPEG),
    ("ppm", ImageFormat::PPM),
    ("pgm", ImageFormat::PPM),
    ("pam", ImageFormat::PPM),
    ("pfm", ImageFormat::PPM),
    ("qoi", ImageFormat::QOI),
    ("ff", ImageFormat::Farbfeld),
    ("hdr", ImageFormat::HDR),
    ("jxl", ImageFormat::JPEG_XL),
    ("bmp", ImageFormat::BMP),
    ("png", ImageFormat::PNG)
];
const NAMES: [(&str, ImageFormat); 7] = [
    ("png", ImageFormat::PNG),
    ("jpeg", ImageFormat::JPEG),
    ("ppm", ImageFormat::PPM),
    ("qoi", ImageFormat::QOI),
    ("farbfeld", ImageFormat::Farbfeld),
    ("hdr", ImageFormat::HDR),
    ("jxl", ImageFormat::JPEG_XL)
];
struct Input {
    bytes: Vec<u8>,
    what: String,
    w: usize,
    h: usize,
    ext: &'static str
}
fn input(r: &mut Rng) -> Input {
    if r.one_in(3) {
        let f = *r.pick(&FMTS);
        let v = valid(r, f, 24);
        let ext = match f {
            Fmt::Png | Fmt::Apng => "png",
            Fmt::Jpeg => "jpg",
            Fmt::Bmp => "bmp",
            Fmt::Qoi => "qoi",
            Fmt::Pnm => "ppm",
            Fmt::Farbfeld => "ff",
            Fmt::Hdr => "hdr",
            Fmt::Psd => "psd"
        };
        Input { bytes: v.bytes, what: v.what, w: v.w, h: v.h, ext }
    } else {
        let (w, h) = (1 + r.below(40) as usize, 1 + r.below(40) as usize);
        let cs = *r.pick(&[ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::LumaA]);
        let d = *r.pick(&[BitDepth::Eight, BitDepth::Eight, BitDepth::Sixteen]);
        let m = Model::random_at(r, w, h, cs, d, 1);
        let mut out = Vec::new();
        let (f, ext) = if r.bool() { (ImageFormat::PNG, "png") } else { (ImageFormat::PPM, "pam") };
        f.encode(&m.build(), EncoderOptions::default(), &mut out).expect("input");
        Input { bytes: out, what: m.fmt(), w, h, ext }
    }
}
fn decode(b: &[u8], o: DecoderOptions) -> Result<Image, String> {
    if ImageFormat::guess_format(ZCursor::new(b)).is_none() {
        return Err("format".into());
    }
    Image::read(ZCursor::new(b), o).map_err(|e| format!("{e:?}"))
}
/// the same picture: same bytes, or bytes that decode to the same samples
fn same(a: &[u8], b: &[u8]) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let (x, y) = (decode(a, DecoderOptions::default())?, decode(b, DecoderOptions::default())?);
    match Model::read(&x)?.diff(&Model::read(&y)?, 0.0) {
        None => Ok(()),
        Some(d) => Err(d)
    }
}
struct Settings {
    args: Vec<String>,
    dec: DecoderOptions,
    enc: EncoderOptions
}
fn settings(r: &mut Rng, w: usize, h: usize) -> Settings {
    let mut args: Vec<String> = vec![];
    let mut dec = DecoderOptions::new_cmd().set_max_width(37268).set_max_height(37268).set_use_unsafe(true).set_strict_mode(false);
    let mut enc = EncoderOptions::default().set_quality(80).set_num_threads(4).set_effort(4).set_strip_metadata(false).set_jpeg_encode_progressive(false);
    if r.one_in(4) {
        let q = 1 + r.below(100) as u8;
        args.extend(["--quality".into(), q.to_string()]);
        enc = enc.set_quality(q);
    }
    if r.one_in(4) {
        let q = r.below(10) as u8;
        args.extend(["--effort".into(), q.to_string()]);
        enc = enc.set_effort(q);
    }
    if r.one_in(6) {
        let q = 1 + r.below(8) as u8;
        args.extend(["--encode-threads".into(), q.to_string()]);
        enc = enc.set_num_threads(q);
    }
    if r.one_in(4) {
        args.push("--progressive".into());
        enc = enc.set_jpeg_encode_progressive(true);
    }
    if r.one_in(5) {
        args.push("--strip".into());
        enc = enc.set_strip_metadata(true);
    }
    if r.one_in(5) {
        args.push("--safe".into());
        dec = dec.set_use_unsafe(false);
    }
    if r.one_in(6) {
        args.push("--strict".into());
        dec = dec.set_strict_mode(true);
    }
    if r.one_in(6) {
        args.push("--jpeg-grayscale".into());
        dec = dec.jpeg_set_out_colorspace(ColorSpace::Luma);
    }
    if r.one_in(8) {
        // limits at, above and below the picture
        let (a, b) = (w + r.below(3) as usize, h + r.below(3) as usize);
        let (a, b) = (a.saturating_sub(1).max(1), b.saturating_sub(1).max(1));
        args.extend(["--max-width".into(), a.to_string(), "--max-height".into(), b.to_string()]);
        dec = dec.set_max_width(a).set_max_height(b);
    }
    Settings { args, dec, enc }
}

/// inputs x operations x outputs, file or stream
pub fn convert(c: &mut Case) {
    let mut src = input(&mut c.rng);
    let bad = c.rng.one_in(10);
    if bad {
        let f = *c.rng.pick(&FMTS);
        if c.rng.bool() {
            src.bytes = magic_noise(&mut c.rng, f);
        } else {
            damage(&mut c.rng, f, &mut src.bytes);
        }
    }
    let (w, h) = (src.w, src.h);
    let set = settings(&mut c.rng, w, h);
    let nops = c.rng.below(4) as usize;
    let list = ops(&mut c.rng, nops, w, h);
    let from_stdin = c.rng.one_in(4);
    let to_stdout = c.rng.one_in(6);
    let d = Dir::new();
    let keep = c.rng.bytes(40);
    std::fs::write(d.0.join("keep.png"), &keep).unwrap();
    let inname = format!("in.{}", src.ext);
    std::fs::write(d.0.join(&inname), &src.bytes).unwrap();
    // outputs: (name or "-", format)
    let mut outs: Vec<(String, ImageFormat)> = Vec::new();
    let stdout_fmt = *c.rng.pick(&NAMES);
    let nfiles = if to_stdout { c.rng.below(2) } else { 1 + c.rng.below(3) } as usize;
    for i in 0..nfiles {
        let e = *c.rng.pick(&EXT);
        outs.push((format!("out{i}.{}", e.0), e.1));
    }
    if !from_stdin && c.rng.one_in(12) {
        // onto itself
        if let Some(e) = EXT.iter().find(|e| e.0 == src.ext) {
            outs.push((inname.clone(), e.1));
        }
    }
    if to_stdout {
        let at = c.rng.below(outs.len() + 1);
        outs.insert(at, ("-".into(), stdout_fmt.1));
    }
    // arguments: operations keep their order, everything else goes anywhere between them
    let mut groups: Vec<Vec<String>> = vec![vec!["-i".into(), if from_stdin { "-".into() } else { inname.clone() }]];
    for o in &outs {
        groups.push(vec!["-o".into(), o.0.clone()]);
    }
    if to_stdout {
        groups.push(vec!["--output-format".into(), stdout_fmt.0.into()]);
    }
    if !set.args.is_empty() {
        groups.push(set.args.clone());
    }
    let mut args: Vec<Vec<String>> = list.iter().map(|o| o.args.clone()).collect();
    // outputs keep their order too
    let mut at = 0;
    for g in groups {
        at = at + c.rng.below((args.len() - at) + 1);
        args.insert(at, g);
        at += 1;
    }
    let args: Vec<String> = args.concat();
    c.log(&format!("args {args:?} input {} {}x{}", src.what, w, h));

    // what the library makes of it
    let want = zvcore::catch(|| -> Result<Vec<Result<Vec<u8>, String>>, String> {
        let mut im = decode(&src.bytes, set.dec)?;
        for o in &list {
            o.op.execute(&mut im).map_err(|e| format!("{}: {e:?}", o.op.name()))?;
        }
        Ok(outs
            .iter()
            .map(|(_, f)| {
                let mut v = Vec::new();
                f.encode(&im, set.enc, &mut v).map(|_| v).map_err(|e| format!("{e:?}"))
            })
            .collect())
    });
    let want = match want {
        Ok(w) => w,
        Err(p) => {
            c.tag("library panic, skipped");
            c.log(&format!("library panic {}", p.sig()));
            eprintln!("library panic {} {args:?} {}", p.sig(), src.what);
            return;
        }
    };
    let r = zune(&d.0, &args, from_stdin.then_some(&src.bytes[..]));
    let after = d.list();
    c.saw(hash_bytes(format!("{args:?}{}", src.what).as_bytes()));
    c.tag(if from_stdin { "from stdin" } else { "from file" });
    c.tag_n("operations", list.len() as u64);
    c.tag_n("outputs", outs.len() as u64);
    c.sample(|| args.join(" "));
    c.blob(&src.bytes);
    if r.panicked() {
        c.fail("panic", format!("{args:?}\n{}", r.err));
        return;
    }
    let names: Vec<&str> = outs.iter().map(|o| o.0.as_str()).collect();
    for (k, v) in &after {
        if k == "keep.png" && *v != keep {
            c.fail("touched", format!("{args:?} changed a file it was not given"));
        } else if k == &inname && !names.contains(&k.as_str()) && *v != src.bytes {
            c.fail("input-touched", format!("{args:?} changed its input"));
        } else if k != "keep.png" && k != &inname && !names.contains(&k.as_str()) {
            c.fail("stray", format!("{args:?} left {k}"));
        }
    }
    if !after.contains_key("keep.png") || !after.contains_key(&inname) {
        c.fail("removed", format!("{args:?} removed a file: {:?}", after.keys().collect::<Vec<_>>()));
    }
    match want {
        Err(e) => {
            c.tag("library refuses");
            c.check(r.code != Some(0), "silent-failure", || format!("{args:?} input {}: the library says {e}, the tool exits 0", src.what));
            for n in names.iter().filter(|n| **n != "-" && **n != inname) {
                c.check(!after.contains_key(*n), "output-of-failure", || format!("{args:?}: {n} exists after a failure ({e})"));
            }
            c.check(!names.contains(&inname.as_str()) || after.get(&inname) == Some(&src.bytes), "input-destroyed", || format!("{args:?}: input overwritten although {e}"));
        }
        Ok(w) => {
            if let Some(Err(e)) = w.iter().find(|x| x.is_err()) {
                c.tag("an encoder refuses");
                c.check(r.code != Some(0), "silent-encode-failure", || format!("{args:?}: {e}, the tool exits 0"));
                return;
            }
            c.tag("converted");
            if !c.check(r.code == Some(0), "refused", || format!("{args:?} input {}: exit {:?} {} {}", src.what, r.code, r.err, String::from_utf8_lossy(&r.out))) {
                return;
            }
            for ((n, f), w) in outs.iter().zip(&w) {
                let w = w.as_ref().unwrap();
                // a name given twice is written by both
                if outs.iter().filter(|o| o.0 == *n).count() > 1 {
                    continue;
                }
                let got = if n == "-" { Some(&r.out) } else { after.get(n) };
                match got {
                    None => c.fail("missing", format!("{args:?}: exit 0 without {n}")),
                    Some(g) => {
                        if let Err(d) = same(g, w) {
                            let kind = if n == "-" { "stdout" } else { "file" };
                            c.fail(format!("wrong-{kind}"), format!("{args:?} input {}: {n} ({f:?}) is not what the library produces: {d}; {} bytes for {}", src.what, g.len(), w.len()));
                        } else {
                            c.tag("outputs equal");
                        }
                    }
                }
            }
        }
    }
}

/// things that cannot work: reported by a non-zero exit, nothing else touched
pub fn failures(c: &mut Case) {
    let src = loop {
        let s = input(&mut c.rng);
        if decode(&s.bytes, DecoderOptions::new_cmd()).is_ok() {
            break s;
        }
    };
    let d = Dir::new();
    let keep = c.rng.bytes(40);
    std::fs::write(d.0.join("keep.png"), &keep).unwrap();
    let inname = format!("in.{}", src.ext);
    std::fs::write(d.0.join(&inname), &src.bytes).unwrap();
    let (mut i, mut o, mut extra) = (inname.clone(), vec!["out.png".to_string()], Vec::<String>::new());
    let mut stdin: Option<Vec<u8>> = None;
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    // the fault hits one output of several
    let others = c.rng.below(3);
    let k = c.rng.below(22);
    let mut early = true;
    let what = match k {
        0 => {
            i = "absent.png".into();
            "no such input"
        }
        1 => {
            std::fs::create_dir(d.0.join("dir.png")).unwrap();
            i = "dir.png".into();
            "input is a directory"
        }
        2 => {
            let n = c.rng.below(60) as usize;
            let mut b = c.rng.bytes(n);
            if !b.is_empty() {
                b[0] = 0;
            }
            std::fs::write(d.0.join("noise.png"), &b).unwrap();
            i = "noise.png".into();
            "input is no image"
        }
        3 => {
            std::fs::write(d.0.join("empty.png"), b"").unwrap();
            i = "empty.png".into();
            "input is empty"
        }
        4 => {
            i = "-".into();
            stdin = Some(if c.rng.bool() { vec![] } else { vec![0; 50] });
            "stdin is no image"
        }
        5 => {
            // only the magic bytes
            std::fs::write(d.0.join("cut.png"), &src.bytes[..src.bytes.len().min(10)]).unwrap();
            i = "cut.png".into();
            if decode(&src.bytes[..src.bytes.len().min(10)], DecoderOptions::new_cmd()).is_ok() {
                return;
            }
            "input is cut"
        }
        6..=8 => {
            let e = *c.rng.pick(&["xyz", "PNG", "gif", "tiff", "psd", "webp", "png~", "txt"]);
            o = vec![format!("out.{e}")];
            early = false;
            "unsupported output format"
        }
        9 => {
            o = s(&["out"]);
            early = false;
            "output without a format"
        }
        10 => {
            let e = c.rng.pick(&EXT).0;
            o = vec![format!("nodir/out.{e}")];
            early = false;
            "no such directory"
        }
        11 => {
            std::fs::create_dir(d.0.join("odir.png")).unwrap();
            o = s(&["odir.png"]);
            early = false;
            "output is a directory"
        }
        12..=14 => {
            // small files stay in a buffer until the end
            let e = c.rng.pick(&EXT).0;
            let n = format!("full.{e}");
            std::os::unix::fs::symlink("/dev/full", d.0.join(&n)).unwrap();
            o = vec![n];
            early = false;
            "no space left"
        }
        15 => {
            o = s(&["-"]);
            early = false;
            "stream without a format"
        }
        16 => {
            extra = s(*c.rng.pick(&[
                &["--no-such-option"][..],
                &["--crop", "1", "1", "0"],
                &["--crop", "a", "1", "0", "0"],
                &["--gamma", "dark"],
                &["--depth", "9"],
                &["--depth", "300"],
                &["--mirror", "up"],
                &["--colorspace", "xyz"],
                &["--resize-method", "best", "--resize", "4x4"],
                &["--quality", "many"],
                &["--output-format", "gif"]
            ]));
            "option that makes no sense"
        }
        17 => {
            extra = s(*c.rng.pick(&[&["--resize", "12"][..], &["--resize", "12:14"], &["--resize", "12x"], &["--resize", "x12"], &["--resize", "axb"], &["--resize", "3x4x5"]]));
            "size that makes no sense"
        }
        18 => {
            extra = s(*c.rng.pick(&[&["--threshold", "a", "binary"][..], &["--threshold", "3", "best"], &["--statistic", "-", "max"], &["--statistic", "2", "best"], &["--threshold", "3"]]));
            "value that makes no sense"
        }
        19 => {
            extra = s(&["--crop"]);
            extra.extend([0, src.h, 0, 0].iter().map(|v| v.to_string()));
            "crop to nothing"
        }
        20 => {
            extra = s(&["--max-width", "0"]);
            "picture above the limit"
        }
        _ => {
            o = s(&["out.png"]);
            extra = s(&["--probe"]);
            i = if c.rng.bool() { "absent.png".into() } else { "noise".into() };
            std::fs::write(d.0.join("noise"), [0; 30]).unwrap();
            "nothing to probe"
        }
    };
    if !early {
        for j in 0..others {
            let at = c.rng.below(o.len() + 1);
            o.insert(at, format!("good{j}.png"));
        }
    }
    let before = d.list();
    let mut args = vec!["-i".to_string(), i];
    for x in &o {
        args.extend(["-o".to_string(), x.clone()]);
    }
    args.extend(extra);
    c.log(&format!("{what}: {args:?}"));
    let r = zune(&d.0, &args, stdin.as_deref());
    let after = d.list();
    c.saw(hash_bytes(format!("{k}{args:?}").as_bytes()));
    c.tag(what);
    c.sample(|| format!("{what}: {}", args.join(" ")));
    if r.panicked() {
        c.fail(format!("panic: {what}"), format!("{args:?}\n{}", r.err));
        return;
    }
    c.check(r.code != Some(0), &format!("exit 0: {what}"), || format!("{args:?}: exit 0, {:?}", String::from_utf8_lossy(&r.out)));
    for (k, v) in &before {
        if after.get(k) != Some(v) {
            c.fail(format!("touched: {what}"), format!("{args:?}: {k} changed"));
        }
    }
    for k in after.keys() {
        if !before.contains_key(k) && (early || !o.contains(k)) {
            c.fail(format!("stray: {what}"), format!("{args:?}: left {k}"));
        }
    }
}

/// --probe says what the headers say, and nothing is written
pub fn probe(c: &mut Case) {
    let src = input(&mut c.rng);
    let d = Dir::new();
    let inname = format!("in.{}", src.ext);
    std::fs::write(d.0.join(&inname), &src.bytes).unwrap();
    let Ok(im) = decode(&src.bytes, DecoderOptions::new_cmd()) else { return };
    let before = d.list();
    let args: Vec<String> = ["-i", &inname, "--probe", "-o", "out.png"].iter().map(|x| x.to_string()).collect();
    let r = zune(&d.0, &args, None);
    c.saw(hash_bytes(&src.bytes));
    c.tag("probed");
    c.check(!r.panicked(), "panic", || r.err.clone());
    c.check(before == d.list(), "wrote", || format!("probe changed files: {:?}", d.list().keys().collect::<Vec<_>>()));
    c.check(r.code == Some(0), "refused", || format!("{} exit {:?}", src.what, r.code));
    let t = String::from_utf8_lossy(&r.out).to_string();
    // log lines may come first
    let json = t.find("{\n").map(|p| t[p..].to_string()).unwrap_or_default();
    match serde_json::from_str::<serde_json::Value>(&json) {
        Err(e) => c.fail("no-json", format!("{}: {e}: {t:?}", src.what)),
        Ok(v) => {
            let m = &v["metadata"];
            let (w, h) = im.dimensions();
            c.check(m["width"] == w as u64 && m["height"] == h as u64, "size", || format!("{} says {m}, is {w}x{h}", src.what));
            c.check(v["length"] == src.bytes.len() as u64, "length", || format!("{} says {}", src.what, v["length"]));
            let f = ImageFormat::guess_format(ZCursor::new(&src.bytes)).map(|x| format!("{:?}", x.0)).unwrap_or_default();
            c.check(m["format"] == f.as_str(), "format", || format!("{} says {}, is {f}", src.what, m["format"]));
        }
    }
}
static FAMILIES: &[Family] = &[
    Family { property: "A02", name: "convert", n: (700, 20000), rule: "outputs decode to what the library produces for the same operations in the same order; other files stay as they were", f: convert },
    Family { property: "A02", name: "failures", n: (400, 6000), rule: "what cannot be done is reported by a non-zero exit, nothing else is touched", f: failures },
    Family { property: "A02", name: "probe", n: (150, 3000), rule: "the report equals the headers", f: probe }
];
fn main() {
    if std::env::var_os("ZV_AS_ZUNE").is_some() {
        zune_bin::main();
        return;
    }
    zvcore::main(FAMILIES);
}
