//! T01: the same work alone, again, beside other work, and on any number of threads.
use crate::codecs::{name, options, WRITERS};
use std::sync::{Barrier, Mutex};
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_image::codecs::ImageFormat;
use zune_image::core_filters::colorspace::ColorspaceConv;
use zune_image::core_filters::depth::Depth;
use zune_image::image::Image;
use zune_image::traits::OperationsTrait;
use zvcore::{hash_bytes, Case, Rng};
use zvgen::corpus::{self, FMTS};
use zvimg::Model;

enum Job {
    Decode(Vec<u8>, DecoderOptions),
    Encode(Image, ImageFormat, EncoderOptions),
    Space(Image, ColorSpace),
    Depth(Image, BitDepth),
    Copy(Image),
    /// the pixels of a several-group JPEG XL image
    Groups(Vec<u8>, EncoderOptions)
}
/// everything there is to see of an image
fn print(im: &Image) -> u64 {
    let mut h = hash_bytes(format!("{:?} {:?} {:?} {:?}", im.dimensions(), im.colorspace(), im.depth(), im.metadata()).as_bytes());
    for f in im.frames_ref() {
        for ch in f.channels_ref(im.colorspace(), false) {
            let k = match ch.type_id() {
                t if t == std::any::TypeId::of::<u8>() => hash_bytes(ch.reinterpret_as::<u8>().unwrap()),
                t if t == std::any::TypeId::of::<u16>() => hash_bytes(&ch.reinterpret_as::<u16>().unwrap().iter().flat_map(|x| x.to_ne_bytes()).collect::<Vec<_>>()),
                _ => hash_bytes(&ch.reinterpret_as::<f32>().unwrap().iter().flat_map(|x| x.to_ne_bytes()).collect::<Vec<_>>())
            };
            h = h.rotate_left(7) ^ k;
        }
    }
    h
}
impl Job {
    fn random(r: &mut Rng) -> Job {
        match r.below(12) {
            0..=4 => {
                let f = *r.pick(&FMTS);
                let mut b = corpus::valid(r, f, if cfg!(miri) { 12 } else { 90 }).bytes;
                if r.one_in(5) {
                    corpus::damage(r, f, &mut b);
                }
                let o = DecoderOptions::default()
                    .set_max_width(600)
                    .set_max_height(600)
                    .set_strict_mode(r.one_in(6))
                    .jpeg_set_out_colorspace(*r.pick(&[ColorSpace::RGB, ColorSpace::RGB, ColorSpace::Luma, ColorSpace::YCbCr, ColorSpace::RGBA]))
                    .png_set_add_alpha_channel(r.one_in(4));
                Job::Decode(b, o)
            }
            5..=7 => {
                let m = Model::random(r, if cfg!(miri) { 8 } else { 90 }, &zvimg::BASIC, &zvimg::DEPTHS);
                Job::Encode(m.build(), *r.pick(&WRITERS), options(r))
            }
            8 => {
                let m = Model::random(r, if cfg!(miri) { 8 } else { 90 }, &zvimg::COLOUR, &zvimg::DEPTHS);
                Job::Space(m.build(), *r.pick(&zvimg::COLOUR))
            }
            9 => {
                let m = Model::random(r, if cfg!(miri) { 8 } else { 90 }, &zvimg::COLOUR, &zvimg::DEPTHS);
                Job::Depth(m.build(), *r.pick(&zvimg::DEPTHS))
            }
            10 => {
                let cs = zvimg::any_space(r);
                let (w, h) = zvimg::size(r, if cfg!(miri) { 8 } else { 90 });
                let d = *r.pick(&zvimg::DEPTHS);
                let n = r.range(1, 4);
                Job::Copy(Model::random_at(r, w, h, cs, d, n).build())
            }
            _ => Job::groups(r)
        }
    }
    fn groups(r: &mut Rng) -> Job {
        let (w, h) = if cfg!(miri) { (257, 2) } else { (r.range(1, 700), r.range(257, 600)) };
        let cs = *r.pick(&[ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA]);
        let d = if r.bool() { BitDepth::Eight } else { BitDepth::Sixteen };
        let n = w * h * cs.num_components() * d.size_of();
        let px = r.texture(n);
        let t = *r.pick(&[0, 1, 2, 3, 4, 7, 8, 255]);
        Job::Groups(px, EncoderOptions::new(w, h, cs, d).set_effort(r.below(10) as u8).set_num_threads(t))
    }
    fn what(&self) -> String {
        match self {
            Job::Decode(b, _) => format!("decode {:?} {} bytes", ImageFormat::guess_format(ZCursor::new(b)).map(|f| f.0), b.len()),
            Job::Encode(i, f, _) => format!("encode {} {:?} {:?}", name(*f), i.dimensions(), i.colorspace()),
            Job::Space(i, s) => format!("convert {:?} {:?}->{s:?}", i.dimensions(), i.colorspace()),
            Job::Depth(i, s) => format!("depth {:?} {:?}->{s:?}", i.dimensions(), i.depth()),
            Job::Copy(i) => format!("copy {:?} {:?} {:?}", i.dimensions(), i.colorspace(), i.depth()),
            Job::Groups(_, o) => format!("jxl {}x{} {:?} {:?} threads {}", o.width(), o.height(), o.colorspace(), o.depth(), o.num_threads())
        }
    }
    fn kind(&self) -> &'static str {
        match self {
            Job::Decode(..) => "decode",
            Job::Encode(..) => "encode",
            Job::Space(..) => "colour",
            Job::Depth(..) => "depth",
            Job::Copy(..) => "copy",
            Job::Groups(..) => "jxl-groups"
        }
    }
    /// `t`: how many threads a threaded encoder may use this time
    fn run(&self, t: Option<u8>) -> Result<u64, String> {
        zvcore::catch(|| match self {
            Job::Decode(b, o) => Image::read(ZCursor::new(b), *o).map(|i| print(&i)).map_err(|e| format!("{e:?}")),
            Job::Encode(i, f, o) => {
                let mut v = vec![];
                let o = t.map_or(*o, |t| o.set_num_threads(t));
                f.encode(i, o, &mut v).map(|_| hash_bytes(&v)).map_err(|e| format!("{e:?}"))
            }
            Job::Space(i, s) => {
                let mut i = i.clone();
                ColorspaceConv::new(*s).execute(&mut i).map(|_| print(&i)).map_err(|e| format!("{e:?}"))
            }
            Job::Depth(i, s) => {
                let mut i = i.clone();
                Depth::new(*s).execute(&mut i).map(|_| print(&i)).map_err(|e| format!("{e:?}"))
            }
            Job::Copy(i) => {
                let j = i.clone();
                let bytes = match j.depth() {
                    BitDepth::Eight => j.flatten_to_u8().concat(),
                    BitDepth::Sixteen => j.flatten_frames::<u16>().concat().iter().flat_map(|x| x.to_ne_bytes()).collect(),
                    _ => j.flatten_frames::<f32>().concat().iter().flat_map(|x| x.to_ne_bytes()).collect()
                };
                Ok(print(&j) ^ hash_bytes(&bytes))
            }
            Job::Groups(px, o) => {
                let mut v = vec![];
                let o = t.map_or(*o, |t| o.set_num_threads(t));
                zune_jpegxl::JxlSimpleEncoder::new(px, o).encode(&mut v).map(|_| hash_bytes(&v)).map_err(|e| format!("{e:?}"))
            }
        })
        .unwrap_or_else(|p| Err(format!("panic {}", p.sig())))
    }
}
fn crowd(c: &mut Case, jobs: &[Job], threads: usize, rounds: usize) {
    let alone: Vec<Result<u64, String>> = jobs.iter().map(|j| j.run(None)).collect();
    for (j, a) in jobs.iter().zip(&alone) {
        c.tag(j.kind());
        c.saw(a.clone().unwrap_or_else(|e| hash_bytes(e.as_bytes())));
    }
    // every thread does all of it in an order of its own
    let plans: Vec<Vec<(usize, Option<u8>)>> = (0..threads)
        .map(|_| {
            let mut v: Vec<(usize, Option<u8>)> = (0..jobs.len() * rounds).map(|i| (i % jobs.len(), None)).collect();
            for i in (1..v.len()).rev() {
                let k = c.rng.below(i + 1);
                v.swap(i, k);
            }
            for p in &mut v {
                p.1 = if c.rng.bool() { Some(*c.rng.pick(&[0, 1, 2, 3, 5, 9, 255])) } else { None };
            }
            v
        })
        .collect();
    let bad: Mutex<Vec<(usize, Option<u8>, Result<u64, String>)>> = Mutex::new(vec![]);
    let barrier = Barrier::new(threads);
    let ok = c.lib("crowd", || {
        std::thread::scope(|s| {
            for p in &plans {
                let (bad, barrier, alone) = (&bad, &barrier, &alone);
                s.spawn(move || {
                    barrier.wait();
                    for (i, t) in p {
                        let r = jobs[*i].run(*t);
                        if r != alone[*i] {
                            bad.lock().unwrap().push((*i, *t, r));
                        }
                    }
                });
            }
        })
    });
    if ok.is_none() {
        return;
    }
    c.tag_n("runs beside others", (threads * jobs.len() * rounds) as u64);
    if let Some((i, t, r)) = bad.into_inner().unwrap().into_iter().next() {
        c.fail(format!("differs:{}", jobs[i].kind()), format!("{}: {:?} alone, {r:?} beside others (threads {t:?})", jobs[i].what(), alone[i]));
    }
    // and alone once more
    for (j, a) in jobs.iter().zip(&alone) {
        let r = j.run(None);
        if r != *a {
            c.fail(format!("not-repeatable:{}", j.kind()), format!("{}: {a:?} at first, {r:?} later", j.what()));
        }
    }
}
pub fn mixed(c: &mut Case) {
    let n = 1 + c.rng.below(5);
    let jobs: Vec<Job> = (0..n).map(|_| Job::random(&mut c.rng)).collect();
    let t = 2 + c.rng.below(5);
    let rounds = 1 + c.rng.below(2);
    c.sample(|| format!("{t} threads: {}", jobs.iter().map(|j| j.what()).collect::<Vec<_>>().join("; ")));
    crowd(c, &jobs, t, rounds);
}
/// the encoder that has threads of its own
pub fn groups(c: &mut Case) {
    let jobs = [Job::groups(&mut c.rng)];
    c.sample(|| jobs[0].what());
    if c.rng.one_in(3) {
        crowd(c, &jobs, 2, 1);
        return;
    }
    let Some(a) = c.lib("jxl", || jobs[0].run(Some(0))) else { return };
    c.saw(a.clone().unwrap_or(0));
    for _ in 0..4 {
        let t = *c.rng.pick(&[1u8, 2, 3, 4, 5, 8, 16, 255]);
        let Some(r) = c.lib("jxl", || jobs[0].run(Some(t))) else { return };
        c.tag("thread counts");
        if !c.check(r == a, "differs:jxl-threads", || format!("{}: {a:?} on none, {r:?} on {t} threads", jobs[0].what())) {
            return;
        }
    }
}
