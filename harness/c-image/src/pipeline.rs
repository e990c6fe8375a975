//! I06: pipelines, watched by operations that record what they were given.
use std::sync::{Arc, Mutex};
use zune_core::bit_depth::{BitDepth, BitType};
use zune_core::bytestream::ZCursor;
use zune_core::options::DecoderOptions;
use zune_image::codecs::ImageFormat;
use zune_image::errors::ImageErrors;
use zune_image::image::Image;
use zune_image::pipelines::Pipeline;
use zune_image::traits::{EncoderTrait, IntoImage, OperationsTrait};
use zvcore::Case;
use zvimg::Model;

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Decode,
    /// operation, first sample of the image it was given
    Op(usize, u8)
}
type Log = Arc<Mutex<Vec<Ev>>>;
/// v -> 3 v + k on every sample: order and number of applications show in the samples
struct Step {
    k: usize,
    /// fail at this call of this operation
    fail_at: Option<usize>,
    calls: Arc<Mutex<usize>>,
    log: Log
}
fn step(v: u8, k: usize) -> u8 {
    v.wrapping_mul(3).wrapping_add(k as u8 + 1)
}
impl OperationsTrait for Step {
    fn name(&self) -> &'static str {
        "step"
    }
    fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
        let first = image.channels_ref(false)[0].reinterpret_as::<u8>()?[0];
        self.log.lock().unwrap().push(Ev::Op(self.k, first));
        let mut n = self.calls.lock().unwrap();
        *n += 1;
        if self.fail_at == Some(*n - 1) {
            return Err(ImageErrors::GenericString("told to fail".into()));
        }
        for c in image.channels_mut(false) {
            for v in c.reinterpret_as_mut::<u8>()? {
                *v = step(*v, self.k);
            }
        }
        Ok(())
    }
    fn supported_types(&self) -> &'static [BitType] {
        &[BitType::U8]
    }
}
struct Source {
    file: Vec<u8>,
    log: Log
}
impl IntoImage for Source {
    fn into_image(&mut self) -> Result<Image, ImageErrors> {
        self.log.lock().unwrap().push(Ev::Decode);
        Image::read(ZCursor::new(&self.file), DecoderOptions::default())
    }
}
fn apply(m: &Model, ops: &[usize]) -> Model {
    let mut m = m.clone();
    for k in ops {
        for p in m.frames.iter_mut().flatten() {
            for v in p {
                *v = step(*v as u8, *k) as f64;
            }
        }
    }
    m
}
pub fn run(c: &mut Case) {
    let log: Log = Default::default();
    let nimg = c.rng.below(4);
    let decode = c.rng.bool();
    let bad_file = decode && c.rng.one_in(6);
    let nops = c.rng.below(6);
    let single = |c: &mut Case| {
        let mut m = Model::random(&mut c.rng, 12, &zvimg::BASIC, &[BitDepth::Eight]);
        m.frames.truncate(1);
        m.times.truncate(1);
        m
    };
    let mut models: Vec<Model> = (0..nimg).map(|_| if c.rng.one_in(3) { Model::random(&mut c.rng, 12, &zvimg::BASIC, &[BitDepth::Eight]) } else { single(c) }).collect();
    let total = nimg + decode as usize;
    // a failing call: operation j at image i
    let fail = if nops > 0 && total > 0 && c.rng.one_in(3) { Some((c.rng.below(total), c.rng.below(nops))) } else { None };
    let mut p = Pipeline::new();
    // chained in any interleaving, operations in their own order
    let mut order: Vec<u8> = vec![];
    order.extend(std::iter::repeat(0).take(nimg));
    order.extend(std::iter::repeat(1).take(nops));
    if decode {
        order.push(2);
    }
    for i in (1..order.len()).rev() {
        let j = c.rng.below(i + 1);
        order.swap(i, j);
    }
    let mut src = None;
    if decode {
        let mut m = single(c);
        while !matches!(m.cs, zune_core::colorspace::ColorSpace::RGB | zune_core::colorspace::ColorSpace::RGBA | zune_core::colorspace::ColorSpace::Luma | zune_core::colorspace::ColorSpace::LumaA) {
            m = single(c);
        }
        let fmt = *c.rng.pick(&[ImageFormat::PNG, ImageFormat::PPM]);
        let Some(Ok(mut f)) = c.lib("encode", || m.build().write_to_vec(fmt)) else { return };
        if bad_file {
            f.truncate(f.len() / 3);
        }
        models.push(m);
        src = Some(f);
    }
    let (mut ni, mut no) = (0, 0);
    let mut ks = vec![];
    for o in order {
        match o {
            0 => {
                p.chain_image(models[ni].build());
                ni += 1;
            }
            1 => {
                // the same step may be chained twice
                let k = if no > 0 && c.rng.one_in(4) { ks[no - 1] } else { c.rng.below(40) };
                ks.push(k);
                p.chain_operations(Box::new(Step { k, fail_at: fail.and_then(|(i, j)| (j == no).then_some(i)), calls: Default::default(), log: log.clone() }));
                no += 1;
            }
            _ => {
                p.chain_decoder(Box::new(Source { file: src.take().unwrap(), log: log.clone() }));
            }
        }
    }
    let stepwise = c.rng.bool();
    c.tag(&format!("{}img{} ops{} {}", nimg, if decode { "+file" } else { "" }, nops.min(3), if bad_file { "bad-file" } else if fail.is_some() { "failing" } else { "ok" }));
    c.sample(|| format!("{nimg} images, decode {decode}, {nops} ops {ks:?}, fail {fail:?}, stepwise {stepwise}"));
    let r = c.lib("advance", || {
        if stepwise {
            for _ in 0..12 {
                p.advance().map_err(|e| format!("{e:?}"))?;
            }
            Ok(())
        } else {
            p.advance_to_end().map_err(|e| format!("{e:?}"))
        }
    });
    let Some(r) = r else { return };
    // expected history
    let mut want = vec![];
    let mut err = total == 0;
    if decode {
        want.push(Ev::Decode);
        err |= bad_file;
    }
    let mut finals = models.clone();
    if !err {
        'all: for (i, m) in models.iter().enumerate() {
            for (j, k) in ks.iter().enumerate() {
                want.push(Ev::Op(*k, apply(m, &ks[..j]).frames[0][0][0] as u8));
                if fail == Some((i, j)) {
                    err = true;
                    break 'all;
                }
            }
            finals[i] = apply(m, &ks);
        }
    }
    c.saw(zvcore::hash_bytes(format!("{want:?}{nimg}{decode}{fail:?}{stepwise}").as_bytes()));
    let got = log.lock().unwrap().clone();
    c.check(got == want, "history", || format!("steps run {got:?}, expected {want:?}"));
    c.check(r.is_err() == err, if err { "no-error" } else { "error" }, || format!("{r:?}; images {nimg}, decode {decode}, bad file {bad_file}, failing {fail:?}"));
    if !err && !c.failed() {
        c.check(p.images().len() == total, "images", || format!("{} images for {total}", p.images().len()));
        for (i, (im, m)) in p.images().iter().zip(&finals).enumerate() {
            match Model::read(im) {
                Ok(g) => {
                    let d = g.diff(m, 0.0);
                    c.check(d.is_none(), "result", || format!("image {i}: {}", d.unwrap_or_default()));
                }
                Err(e) => c.fail("result", e)
            }
        }
        // finished: nothing runs again
        let r = c.lib("advance", || p.advance().is_ok() && p.advance_to_end().is_ok());
        c.check(r == Some(true), "finished", || "advancing a finished pipeline fails".into());
        let n = log.lock().unwrap().len();
        c.check(n == want.len(), "again", || format!("{n} steps run, {} expected", want.len()));
        // and the encoder is given the processed image
        if let (Some(im), Some(m)) = (p.images().first(), finals.first()) {
            let mut m = m.clone();
            m.frames.truncate(1);
            m.times.truncate(1);
            let r = c.lib("encode_to_result", || zune_image::codecs::farbfeld::FarbFeldEncoder::new().encode_to_result(im).map(|r| (r.format(), r.data().to_vec())).map_err(|e| format!("{e:?}")));
            match r {
                Some(Ok((f, d))) => {
                    c.check(f == ImageFormat::Farbfeld, "result-format", || format!("{f:?}"));
                    let direct = im.write_to_vec(ImageFormat::Farbfeld).unwrap_or_default();
                    c.check(d == direct && !d.is_empty(), "result-data", || format!("{} bytes for {}", d.len(), direct.len()));
                }
                Some(Err(e)) => c.fail("encode-refused", e),
                None => {}
            }
        }
    }
}
/// `clone_and_execute` gives the processed image and keeps the given one
pub fn cloned(c: &mut Case) {
    let m = Model::random(&mut c.rng, 60, &zvimg::BASIC, &[BitDepth::Eight]);
    let im = m.build();
    let k = c.rng.below(40);
    let op = Step { k, fail_at: None, calls: Default::default(), log: Default::default() };
    let Some(r) = c.lib("clone_and_execute", || op.clone_and_execute(&im).map_err(|e| format!("{e:?}"))) else { return };
    c.saw(m.hash());
    match r {
        Ok(o) => {
            let d = Model::read(&o).map(|g| g.diff(&apply(&m, &[k]), 0.0)).unwrap_or_else(Some);
            c.check(d.is_none(), "clone-result", || d.unwrap_or_default());
        }
        Err(e) => c.fail("clone-error", e)
    }
    let d = Model::read(&im).map(|g| g.diff(&m, 0.0)).unwrap_or_else(Some);
    c.check(d.is_none(), "clone-original", || d.unwrap_or_default());
    c.check(op.log.lock().unwrap().len() == 1, "clone-count", || "not run exactly once".into());
}
/// An image whose facts do not describe its samples is refused, and the operation is not run.
pub fn invalid(c: &mut Case) {
    let mut m = Model::random(&mut c.rng, 12, &zvimg::BASIC, &[BitDepth::Eight]);
    let mut im = m.build();
    let log: Log = Default::default();
    let op = Step { k: 1, fail_at: None, calls: Default::default(), log: log.clone() };
    let how = c.rng.below(4);
    match how {
        0 => im.set_dimensions(m.w + 1, m.h),
        1 => im.set_depth(BitDepth::Sixteen),
        2 => {
            im.frames_mut()[0].push(zvimg::channel(&m.frames[0][0], m.depth));
        }
        _ => {
            m.frames.last_mut().unwrap().last_mut().unwrap().push(1.0);
            im = m.build();
            // a channel longer than the others; alpha is looked at by nobody
            if m.cs.has_alpha() {
                return;
            }
        }
    }
    c.tag(&format!("how{how}"));
    c.saw(m.hash());
    let r = c.lib("execute", || op.execute(&mut im).is_err());
    if let Some(r) = r {
        c.check(r && log.lock().unwrap().is_empty(), "invalid-run", || format!("how {how}: refused {r}, steps {:?}", log.lock().unwrap()));
    }
}
