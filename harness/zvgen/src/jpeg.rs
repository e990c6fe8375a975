//! A JPEG writer (ITU T.81 sequential and progressive Huffman) that starts from coefficients it
//! chose itself, and the f64 reconstruction those coefficients stand for.
use zvcore::Rng;

pub const ZIGZAG: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15,
    23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63
];

#[derive(Clone)]
pub struct Comp {
    pub id: u8,
    pub h: usize,
    pub v: usize,
    pub tq: u8,
    /// blocks stored (whole interleaved MCUs)
    pub bw: usize,
    pub bh: usize,
    /// blocks that carry image data (what a scan of this component alone holds)
    pub rw: usize,
    pub rh: usize,
    /// component dimensions
    pub cw: usize,
    pub ch: usize,
    /// natural order, quantised; [block row * bw + block col]
    pub coefs: Vec<[i32; 64]>
}
#[derive(Clone, Debug)]
pub struct Scan {
    pub comps: Vec<usize>,
    pub ss: u8,
    pub se: u8,
    pub ah: u8,
    pub al: u8,
    pub restart: usize
}
#[derive(Clone)]
pub struct Jpeg {
    pub w: usize,
    pub h: usize,
    pub comps: Vec<Comp>,
    /// natural order
    pub quant: Vec<[u16; 64]>,
    pub hmax: usize,
    pub vmax: usize,
    pub progressive: bool,
    pub adobe: Option<u8>,
    pub jfif: bool,
    pub scans: Vec<Scan>,
    /// extra segments (marker, payload) to put before SOF
    pub segments: Vec<(u8, Vec<u8>)>
}
#[derive(Clone, Copy)]
enum Ev {
    /// class*4+id, symbol
    Sym(u8, u8),
    Bits(u32, u8),
    Rst(u8)
}
fn ceil(a: usize, b: usize) -> usize {
    (a + b - 1) / b
}
fn cos_table() -> &'static [[f64; 8]; 8] {
    static T: std::sync::OnceLock<[[f64; 8]; 8]> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = [[0.0; 8]; 8];
        for (x, row) in t.iter_mut().enumerate() {
            for (u, v) in row.iter_mut().enumerate() {
                let c = if u == 0 { (0.5f64).sqrt() } else { 1.0 };
                *v = 0.5 * c * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos();
            }
        }
        t
    })
}
pub fn fdct(px: &[f64; 64]) -> [f64; 64] {
    let t = cos_table();
    let mut tmp = [0.0; 64];
    let mut out = [0.0; 64];
    for y in 0..8 {
        for u in 0..8 {
            tmp[y * 8 + u] = (0..8).map(|x| px[y * 8 + x] * t[x][u]).sum();
        }
    }
    for v in 0..8 {
        for u in 0..8 {
            out[v * 8 + u] = (0..8).map(|y| tmp[y * 8 + u] * t[y][v]).sum();
        }
    }
    out
}
pub fn idct(c: &[f64; 64]) -> [f64; 64] {
    let t = cos_table();
    let mut tmp = [0.0; 64];
    let mut out = [0.0; 64];
    for v in 0..8 {
        for x in 0..8 {
            tmp[v * 8 + x] = (0..8).map(|u| c[v * 8 + u] * t[x][u]).sum();
        }
    }
    for y in 0..8 {
        for x in 0..8 {
            out[y * 8 + x] = (0..8).map(|v| tmp[v * 8 + x] * t[y][v]).sum();
        }
    }
    out
}
fn cat(v: i32) -> u8 {
    (32 - v.unsigned_abs().leading_zeros()) as u8
}
fn mag_bits(v: i32) -> u32 {
    let n = cat(v);
    if v < 0 {
        ((v - 1) as u32) & ((1u32 << n) - 1)
    } else {
        v as u32
    }
}

#[derive(Clone, Copy, Default)]
pub struct Opt {
    /// sampling factors outside the ones cameras use
    pub odd_sampling: bool,
    /// force number of components (0 = random)
    pub ncomp: usize,
    /// 0 random, 1 baseline, 2 progressive
    pub mode: u8,
    pub max_dim: usize,
    /// wide, low images crossing many MCUs
    pub wide: bool
}
pub const COMMON: [(usize, usize); 6] = [(1, 1), (2, 1), (1, 2), (2, 2), (4, 1), (1, 4)];

impl Jpeg {
    pub fn random(rng: &mut Rng, o: Opt) -> Jpeg {
        let (w, h) = if o.wide {
            (rng.range(256, 1400), rng.range(1, 24))
        } else if rng.one_in(3) {
            (rng.range(1, 20), rng.range(1, 20))
        } else {
            (rng.range(1, o.max_dim.max(2)), rng.range(1, o.max_dim.max(2)))
        };
        let (w, h) = if o.wide && rng.one_in(3) { (h, w) } else { (w, h) };
        let n = if o.ncomp > 0 { o.ncomp } else { *rng.pick(&[1usize, 3, 3, 3, 3, 3, 4]) };
        let progressive = match o.mode {
            1 => false,
            2 => true,
            _ => rng.bool()
        };
        let mut samp: Vec<(usize, usize)> = Vec::new();
        if n == 1 {
            samp.push(if rng.one_in(3) { *rng.pick(&COMMON) } else { (1, 1) });
        } else if o.odd_sampling {
            loop {
                samp = (0..n).map(|_| (*rng.pick(&[1usize, 1, 2, 4]), *rng.pick(&[1usize, 1, 2, 3, 4]))).collect();
                if samp.iter().map(|s| s.0 * s.1).sum::<usize>() <= 10 {
                    break;
                }
            }
        } else {
            let l = *rng.pick(&COMMON);
            samp.push(l);
            samp.push((1, 1));
            samp.push((1, 1));
            if n == 4 {
                samp.push(l);
                if samp.iter().map(|s| s.0 * s.1).sum::<usize>() > 10 {
                    samp = vec![(1, 1); 4];
                }
            }
        }
        let nq = rng.range(1, n.min(3));
        let quant: Vec<[u16; 64]> = (0..nq).map(|_| random_quant(rng, progressive)).collect();
        let ids: Vec<u8> = match rng.below(6) {
            0 => {
                let b = rng.u8() % 200;
                (0..n as u8).map(|i| b + 3 * i).collect()
            }
            1 => (0..n as u8).collect(),
            _ => (1..=n as u8).collect()
        };
        let mut j = Jpeg {
            w,
            h,
            comps: vec![],
            quant,
            hmax: samp.iter().map(|s| s.0).max().unwrap(),
            vmax: samp.iter().map(|s| s.1).max().unwrap(),
            progressive,
            adobe: None,
            jfif: rng.bool(),
            scans: vec![],
            segments: vec![]
        };
        if n == 4 {
            j.adobe = Some(*rng.pick(&[0u8, 2]));
            if rng.one_in(4) {
                j.adobe = None
            }
        } else if n == 3 {
            j.adobe = *rng.pick(&[None, None, Some(1), Some(0)]);
        }
        if j.adobe.is_some() {
            j.jfif = false;
        }
        let mcux = ceil(w, 8 * j.hmax);
        let mcuy = ceil(h, 8 * j.vmax);
        let style = rng.below(4);
        for (i, &(ch_, cv)) in samp.iter().enumerate() {
            let cw = ceil(w * ch_, j.hmax);
            let chh = ceil(h * cv, j.vmax);
            let mut c = Comp {
                id: ids[i],
                h: ch_,
                v: cv,
                tq: if i < nq { i as u8 } else { (nq - 1) as u8 },
                bw: mcux * ch_,
                bh: mcuy * cv,
                rw: ceil(cw, 8),
                rh: ceil(chh, 8),
                cw,
                ch: chh,
                coefs: vec![]
            };
            let q = j.quant[c.tq as usize];
            c.coefs = match style {
                0 => sparse_coefs(rng, c.bw * c.bh, &q),
                1 => texture_coefs(rng, &c, &q, 1.0),
                2 => texture_coefs(rng, &c, &q, 0.15),
                _ => texture_coefs(rng, &c, &q, 0.4)
            };
            j.comps.push(c);
        }
        j.scans = if progressive { progressive_script(rng, n) } else { baseline_script(rng, n) };
        // components whose padding blocks were never transmitted reconstruct from zeros
        let inter_dc: Vec<bool> = (0..n).map(|i| j.scans.iter().any(|s| s.comps.len() > 1 && s.comps.contains(&i) && s.ss == 0)).collect();
        for (i, c) in j.comps.iter_mut().enumerate() {
            for by in 0..c.bh {
                for bx in 0..c.bw {
                    if bx >= c.rw || by >= c.rh {
                        let b = &mut c.coefs[by * c.bw + bx];
                        if !inter_dc[i] {
                            *b = [0; 64];
                        } else if progressive {
                            let d = b[0];
                            *b = [0; 64];
                            b[0] = d;
                        }
                    }
                }
            }
        }
        let rmode = rng.below(5);
        for s in 0..j.scans.len() {
            let total = j.scan_mcus(&j.scans[s].clone());
            let per_row = total.0;
            let all = total.0 * total.1;
            j.scans[s].restart = match rmode {
                0 => rng.range(1, 4),
                1 => per_row * rng.range(1, 2),
                2 if rng.bool() => {
                    // divides the scan exactly, or not
                    if rng.bool() {
                        all
                    } else {
                        rng.range(1, all.max(1))
                    }
                }
                _ => 0
            }
            .min(65535);
        }
        if rng.bool() {
            // the same interval everywhere (most writers)
            let r = j.scans[0].restart;
            for s in j.scans.iter_mut() {
                s.restart = r;
            }
        }
        j
    }
    /// MCUs per row and rows of MCUs
    pub fn scan_mcus(&self, s: &Scan) -> (usize, usize) {
        if s.comps.len() == 1 {
            let c = &self.comps[s.comps[0]];
            (c.rw, c.rh)
        } else {
            (ceil(self.w, 8 * self.hmax), ceil(self.h, 8 * self.vmax))
        }
    }
    /// the samples of component `i` over its stored blocks: (stride, f64 samples before clamping)
    pub fn plane(&self, i: usize) -> (usize, usize, Vec<f64>) {
        let c = &self.comps[i];
        let q = &self.quant[c.tq as usize];
        let (sw, sh) = (c.bw * 8, c.bh * 8);
        let mut out = vec![0.0; sw * sh];
        for by in 0..c.bh {
            for bx in 0..c.bw {
                let b = &c.coefs[by * c.bw + bx];
                let mut f = [0.0; 64];
                for k in 0..64 {
                    f[k] = (b[k] * q[k] as i32) as f64;
                }
                let p = idct(&f);
                for y in 0..8 {
                    for x in 0..8 {
                        out[(by * 8 + y) * sw + bx * 8 + x] = p[y * 8 + x] + 128.0;
                    }
                }
            }
        }
        (sw, sh, out)
    }
    fn events(&self, s: &Scan, dct: &[u8], act: &[u8], rng: &mut Rng) -> Vec<Ev> {
        let mut e = Vec::new();
        let (mx, my) = self.scan_mcus(s);
        let mut pred = [0i32; 4];
        let mut eob = Eob { run: 0, bits: vec![], max: if rng.one_in(3) { rng.range(1, 40) as u32 } else { 0x7fff } };
        let ac_tab = |k: usize| 4 + act[k];
        let total = mx * my;
        for m in 0..total {
            if s.restart > 0 && m > 0 && m % s.restart == 0 {
                eob.flush(&mut e, ac_tab(0));
                e.push(Ev::Rst(((m / s.restart - 1) % 8) as u8));
                pred = [0; 4];
            }
            let (x, y) = (m % mx, m / mx);
            for (k, &ci) in s.comps.iter().enumerate() {
                let c = &self.comps[ci];
                let (hh, vv) = if s.comps.len() == 1 { (1, 1) } else { (c.h, c.v) };
                for by in 0..vv {
                    for bx in 0..hh {
                        let b = &c.coefs[(y * vv + by) * c.bw + x * hh + bx];
                        if !self.progressive {
                            base_block(&mut e, b, &mut pred[k], dct[k], ac_tab(k));
                        } else if s.ss == 0 {
                            if s.ah == 0 {
                                let v = b[0] >> s.al;
                                let d = v - pred[k];
                                pred[k] = v;
                                e.push(Ev::Sym(dct[k], cat(d)));
                                e.push(Ev::Bits(mag_bits(d), cat(d)));
                            } else {
                                e.push(Ev::Bits(((b[0] >> s.al) & 1) as u32, 1));
                            }
                        } else if s.ah == 0 {
                            ac_first(&mut e, b, s, &mut eob, ac_tab(k));
                        } else {
                            ac_refine(&mut e, b, s, &mut eob, ac_tab(k));
                        }
                    }
                }
            }
        }
        eob.flush(&mut e, ac_tab(0));
        e
    }
    /// Write the file. Every choice that does not alter the image is random.
    pub fn write(&self, rng: &mut Rng) -> Vec<u8> {
        let mut o = vec![0xff, 0xd8];
        if self.jfif {
            let mut p = b"JFIF\0\x01\x01".to_vec();
            p.push(rng.u8() % 3);
            p.extend([0, 72, 0, 72, 0, 0]);
            seg(&mut o, 0xe0, &p);
        }
        if let Some(t) = self.adobe {
            let mut p = b"Adobe".to_vec();
            p.extend([0, 100, 0, 0, 0, 0, t]);
            seg(&mut o, 0xee, &p);
        }
        let fill = rng.one_in(4);
        let noisy = rng.one_in(3);
        let pre = rng.bool();
        if pre {
            self.dqt(&mut o, rng);
        }
        for (m, p) in &self.segments {
            filler(&mut o, rng, fill);
            seg(&mut o, *m, p);
        }
        if noisy {
            noise_seg(&mut o, rng);
        }
        // SOF
        filler(&mut o, rng, fill);
        let mut p = vec![8];
        p.extend((self.h as u16).to_be_bytes());
        p.extend((self.w as u16).to_be_bytes());
        p.push(self.comps.len() as u8);
        for c in &self.comps {
            p.extend([c.id, (c.h << 4 | c.v) as u8, c.tq]);
        }
        let ext = self.quant.iter().any(|q| q.iter().any(|x| *x > 255));
        let m = if self.progressive {
            0xc2
        } else if ext || rng.one_in(6) {
            0xc1
        } else {
            0xc0
        };
        seg(&mut o, m, &p);
        if !pre {
            self.dqt(&mut o, rng);
        }
        let share = !self.progressive && rng.bool();
        let mut plans: Vec<(Vec<u8>, Vec<u8>, Vec<Ev>)> = Vec::new();
        for s in &self.scans {
            let maxid = if self.progressive || m == 0xc1 { 4 } else { 2 };
            let dct: Vec<u8> = s.comps.iter().map(|_| rng.below(maxid) as u8).collect();
            let act: Vec<u8> = s.comps.iter().map(|_| rng.below(maxid) as u8).collect();
            let ev = self.events(s, &dct, &act, rng);
            plans.push((dct, act, ev));
        }
        let mut shared: Vec<Option<Table>> = vec![None; 8];
        if share {
            let mut cnt = vec![[0u64; 256]; 8];
            for p in &plans {
                count(&p.2, &mut cnt);
            }
            let used: Vec<usize> = (0..8).filter(|t| cnt[*t].iter().any(|x| *x > 0)).collect();
            let mut tabs = Vec::new();
            for t in used {
                let tab = Table::make(rng, &cnt[t]);
                tabs.push((t as u8, tab.clone()));
                shared[t] = Some(tab);
            }
            dht(&mut o, rng, &tabs);
        }
        let mut cur_restart = 0usize;
        for (i, s) in self.scans.iter().enumerate() {
            let (dct, act, ev) = &plans[i];
            let mut tables = shared.clone();
            if !share {
                let mut cnt = vec![[0u64; 256]; 8];
                count(ev, &mut cnt);
                let mut tabs = Vec::new();
                // every table the scan header names must exist in a sequential file
                for (k, _) in s.comps.iter().enumerate() {
                    if !self.progressive || (s.ss == 0 && s.ah == 0) {
                        cnt[dct[k] as usize][0] += 1;
                    }
                    if !self.progressive || s.ss > 0 {
                        cnt[4 + act[k] as usize][0] += 1;
                    }
                }
                for t in 0..8 {
                    if cnt[t].iter().any(|x| *x > 0) {
                        let tab = Table::make(rng, &cnt[t]);
                        tabs.push((t as u8, tab.clone()));
                        tables[t] = Some(tab);
                    }
                }
                filler(&mut o, rng, fill);
                dht(&mut o, rng, &tabs);
            }
            if s.restart != cur_restart || (s.restart > 0 && rng.one_in(4)) {
                filler(&mut o, rng, fill);
                seg(&mut o, 0xdd, &(s.restart as u16).to_be_bytes());
                cur_restart = s.restart;
            }
            if noisy && rng.bool() {
                noise_seg(&mut o, rng);
            }
            // application markers may be repeated before any scan
            if let (Some(t), true) = (self.adobe, noisy && i > 0) {
                let mut p = b"Adobe".to_vec();
                p.extend([0, 100, 0, 0, 0, 0, t]);
                seg(&mut o, 0xee, &p);
            }
            filler(&mut o, rng, fill);
            let mut p = vec![s.comps.len() as u8];
            for (k, c) in s.comps.iter().enumerate() {
                // table selectors a scan does not use are zero in conforming files
                let (d, a) = if !self.progressive {
                    (dct[k], act[k])
                } else if s.ss == 0 {
                    (if s.ah == 0 { dct[k] } else { 0 }, 0)
                } else {
                    (0, act[k])
                };
                p.extend([self.comps[*c].id, d << 4 | a]);
            }
            p.extend([s.ss, s.se, s.ah << 4 | s.al]);
            seg(&mut o, 0xda, &p);
            // entropy-coded data
            let mut bw = Bits { o: &mut o, acc: 0, n: 0 };
            for ev in ev {
                match *ev {
                    Ev::Sym(t, s) => {
                        let (c, l) = tables[t as usize].as_ref().unwrap().code[s as usize];
                        debug_assert!(l > 0);
                        bw.put(c as u32, l);
                    }
                    Ev::Bits(v, n) => bw.put(v, n),
                    Ev::Rst(n) => {
                        bw.pad();
                        if fill && rng.bool() {
                            bw.o.extend(vec![0xff; rng.range(1, 3)]);
                        }
                        bw.o.extend([0xff, 0xd0 + n]);
                    }
                }
            }
            bw.pad();
        }
        filler(&mut o, rng, fill);
        o.extend([0xff, 0xd9]);
        o
    }
    fn dqt(&self, o: &mut Vec<u8>, rng: &mut Rng) {
        let mut tabs: Vec<Vec<u8>> = Vec::new();
        for (i, q) in self.quant.iter().enumerate() {
            let wide = q.iter().any(|x| *x > 255);
            let mut p = vec![(wide as u8) << 4 | i as u8];
            for z in ZIGZAG {
                if wide {
                    p.extend(q[z].to_be_bytes());
                } else {
                    p.push(q[z] as u8);
                }
            }
            tabs.push(p);
        }
        if rng.bool() {
            seg(o, 0xdb, &tabs.concat());
        } else {
            for t in tabs {
                seg(o, 0xdb, &t);
            }
        }
    }
    pub fn describe(&self) -> String {
        format!(
            "{}x{} {} n={} samp={:?} adobe={:?} scans={:?}",
            self.w,
            self.h,
            if self.progressive { "prog" } else { "base" },
            self.comps.len(),
            self.comps.iter().map(|c| (c.h, c.v)).collect::<Vec<_>>(),
            self.adobe,
            self.scans.iter().map(|s| format!("{:?}:{}-{}/{}{}r{}", s.comps, s.ss, s.se, s.ah, s.al, s.restart)).collect::<Vec<_>>()
        )
    }
}
fn random_quant(rng: &mut Rng, _prog: bool) -> [u16; 64] {
    let mut q = [1u16; 64];
    let hi = *rng.pick(&[1usize, 4, 16, 60, 200]);
    for (i, v) in q.iter_mut().enumerate() {
        let grow = 1 + (i % 8 + i / 8) * hi / 14;
        *v = rng.range(1, (hi + grow).min(255)) as u16;
    }
    if rng.one_in(12) {
        // 16-bit table
        let k = rng.below(64);
        q[k] = rng.range(256, 1200) as u16;
    }
    q
}
fn limit(v: i32) -> i32 {
    v.clamp(-1023, 1023)
}
fn sparse_coefs(rng: &mut Rng, n: usize, q: &[u16; 64]) -> Vec<[i32; 64]> {
    (0..n)
        .map(|_| {
            let mut b = [0i32; 64];
            let dc = rng.irange(-900, 900) as i32;
            b[0] = limit(dc / q[0] as i32);
            let mut budget = 700i32;
            for _ in 0..rng.below(9) {
                let k = if rng.bool() { ZIGZAG[rng.range(1, 63)] } else { ZIGZAG[rng.range(1, 12)] };
                let m = (budget / 2 / q[k] as i32).max(0);
                if m > 0 && b[k] == 0 {
                    b[k] = limit(rng.irange(-(m as i64), m as i64) as i32);
                    budget -= (b[k] * q[k] as i32).abs();
                }
            }
            b
        })
        .collect()
}
fn texture_coefs(rng: &mut Rng, c: &Comp, q: &[u16; 64], noise: f64) -> Vec<[i32; 64]> {
    let (w, h) = (c.cw, c.ch);
    let (fx, fy, ph) = (rng.f64() * 0.5, rng.f64() * 0.5, rng.f64() * 6.0);
    let amp = rng.f64() * 100.0;
    let base = 60.0 + rng.f64() * 130.0;
    let mut px = vec![0.0; w * h];
    for y in 0..h {
        for x in 0..w {
            let n = (rng.f64() - 0.5) * 255.0 * noise;
            px[y * w + x] = (base + amp * (fx * x as f64 + fy * y as f64 + ph).sin() + n).clamp(0.0, 255.0) - 128.0;
        }
    }
    let mut out = Vec::with_capacity(c.bw * c.bh);
    for by in 0..c.bh {
        for bx in 0..c.bw {
            let mut b = [0.0; 64];
            for y in 0..8 {
                for x in 0..8 {
                    b[y * 8 + x] = px[(by * 8 + y).min(h - 1) * w + (bx * 8 + x).min(w - 1)];
                }
            }
            let f = fdct(&b);
            let mut r = [0; 64];
            for k in 0..64 {
                r[k] = limit((f[k] / q[k] as f64).round() as i32);
            }
            out.push(r);
        }
    }
    out
}
fn baseline_script(rng: &mut Rng, n: usize) -> Vec<Scan> {
    let mk = |c: Vec<usize>| Scan { comps: c, ss: 0, se: 63, ah: 0, al: 0, restart: 0 };
    if n == 1 || rng.range(0, 9) < 6 {
        return vec![mk((0..n).collect())];
    }
    // a random partition, each part in frame order
    let mut parts: Vec<Vec<usize>> = Vec::new();
    for i in 0..n {
        if parts.is_empty() || rng.bool() {
            parts.push(vec![i]);
        } else {
            let k = rng.below(parts.len());
            parts[k].push(i);
        }
    }
    parts.into_iter().map(mk).collect()
}
/// A random legal progression that ends with every coefficient at full precision.
pub fn progressive_script(rng: &mut Rng, n: usize) -> Vec<Scan> {
    let mut scans = Vec::new();
    let mk = |c: Vec<usize>, ss, se, ah, al| Scan { comps: c, ss, se, ah, al, restart: 0 };
    let dc_al = *rng.pick(&[0u8, 0, 1, 2, 3]);
    if rng.range(0, 3) > 0 || n == 1 {
        scans.push(mk((0..n).collect(), 0, 0, 0, dc_al));
    } else {
        let mut left: Vec<usize> = (0..n).collect();
        while !left.is_empty() {
            let k = rng.range(1, left.len());
            scans.push(mk(left.drain(..k).collect(), 0, 0, 0, dc_al));
        }
    }
    // per component streams of scans, merged at random
    let mut streams: Vec<Vec<Scan>> = Vec::new();
    if dc_al > 0 {
        let mut s = Vec::new();
        let mut a = dc_al;
        while a > 0 {
            if rng.bool() || n == 1 {
                s.push(mk((0..n).collect(), 0, 0, a, a - 1));
            } else {
                let k = rng.range(1, n);
                s.push(mk((0..k).collect(), 0, 0, a, a - 1));
                if k < n {
                    s.push(mk((k..n).collect(), 0, 0, a, a - 1));
                }
            }
            a -= 1;
        }
        streams.push(s);
    }
    for c in 0..n {
        let mut lo = 1u8;
        while lo <= 63 {
            let hi = if rng.one_in(3) { 63 } else { rng.range(lo as usize, 63) as u8 };
            let mut s = Vec::new();
            let mut a = *rng.pick(&[0u8, 0, 1, 1, 2, 3]);
            s.push(mk(vec![c], lo, hi, 0, a));
            while a > 0 {
                if rng.one_in(4) && hi > lo {
                    let m = rng.range(lo as usize, hi as usize - 1) as u8;
                    s.push(mk(vec![c], lo, m, a, a - 1));
                    s.push(mk(vec![c], m + 1, hi, a, a - 1));
                } else {
                    s.push(mk(vec![c], lo, hi, a, a - 1));
                }
                a -= 1;
            }
            streams.push(s);
            if hi == 63 {
                break;
            }
            lo = hi + 1;
        }
    }
    streams.iter_mut().for_each(|s| s.reverse());
    while streams.iter().any(|s| !s.is_empty()) {
        let alive: Vec<usize> = (0..streams.len()).filter(|i| !streams[*i].is_empty()).collect();
        let k = *rng.pick(&alive);
        scans.push(streams[k].pop().unwrap());
    }
    scans
}
fn base_block(e: &mut Vec<Ev>, b: &[i32; 64], pred: &mut i32, dc: u8, ac: u8) {
    let d = b[0] - *pred;
    *pred = b[0];
    e.push(Ev::Sym(dc, cat(d)));
    e.push(Ev::Bits(mag_bits(d), cat(d)));
    let mut run = 0;
    for k in 1..64 {
        let v = b[ZIGZAG[k]];
        if v == 0 {
            run += 1;
            continue;
        }
        while run > 15 {
            e.push(Ev::Sym(ac, 0xf0));
            run -= 16;
        }
        e.push(Ev::Sym(ac, (run << 4) as u8 | cat(v)));
        e.push(Ev::Bits(mag_bits(v), cat(v)));
        run = 0;
    }
    if run > 0 {
        e.push(Ev::Sym(ac, 0));
    }
}
struct Eob {
    run: u32,
    bits: Vec<u8>,
    max: u32
}
impl Eob {
    fn flush(&mut self, e: &mut Vec<Ev>, ac: u8) {
        if self.run > 0 {
            let n = 31 - self.run.leading_zeros();
            e.push(Ev::Sym(ac, (n << 4) as u8));
            e.push(Ev::Bits(self.run - (1 << n), n as u8));
            self.run = 0;
        }
        for b in self.bits.drain(..) {
            e.push(Ev::Bits(b as u32, 1));
        }
    }
}
fn ac_first(e: &mut Vec<Ev>, b: &[i32; 64], s: &Scan, eob: &mut Eob, ac: u8) {
    let mut run = 0;
    for k in s.ss..=s.se {
        let v = b[ZIGZAG[k as usize]];
        let t = (v.abs() >> s.al) * v.signum();
        if t == 0 {
            run += 1;
            continue;
        }
        eob.flush(e, ac);
        while run > 15 {
            e.push(Ev::Sym(ac, 0xf0));
            run -= 16;
        }
        e.push(Ev::Sym(ac, (run << 4) as u8 | cat(t)));
        e.push(Ev::Bits(mag_bits(t), cat(t)));
        run = 0;
    }
    if run > 0 {
        eob.run += 1;
        if eob.run >= eob.max {
            eob.flush(e, ac);
        }
    }
}
fn ac_refine(e: &mut Vec<Ev>, b: &[i32; 64], s: &Scan, eob: &mut Eob, ac: u8) {
    let mut last_new = 0;
    for k in s.ss..=s.se {
        if b[ZIGZAG[k as usize]].abs() >> s.al == 1 {
            last_new = k;
        }
    }
    let mut run = 0;
    let mut br: Vec<u8> = Vec::new();
    for k in s.ss..=s.se {
        let v = b[ZIGZAG[k as usize]];
        let t = v.abs() >> s.al;
        if t == 0 {
            run += 1;
            continue;
        }
        while run > 15 && k <= last_new {
            eob.flush(e, ac);
            e.push(Ev::Sym(ac, 0xf0));
            run -= 16;
            for x in br.drain(..) {
                e.push(Ev::Bits(x as u32, 1));
            }
        }
        if t > 1 {
            br.push((t & 1) as u8);
            continue;
        }
        eob.flush(e, ac);
        e.push(Ev::Sym(ac, (run << 4) as u8 | 1));
        e.push(Ev::Bits((v > 0) as u32, 1));
        for x in br.drain(..) {
            e.push(Ev::Bits(x as u32, 1));
        }
        run = 0;
    }
    if run > 0 || !br.is_empty() {
        eob.run += 1;
        eob.bits.extend(br);
        if eob.run >= eob.max || eob.bits.len() > 930 {
            eob.flush(e, ac);
        }
    }
}
fn count(ev: &[Ev], cnt: &mut [[u64; 256]]) {
    for e in ev {
        if let Ev::Sym(t, s) = e {
            cnt[*t as usize][*s as usize] += 1;
        }
    }
}
#[derive(Clone)]
struct Table {
    code: Vec<(u16, u8)>,
    bits: [u8; 17],
    vals: Vec<u8>
}
impl Table {
    fn make(rng: &mut Rng, cnt: &[u64; 256]) -> Table {
        let mut c: Vec<(usize, f64)> = (0..256).filter(|s| cnt[*s] > 0).map(|s| (s, cnt[s] as f64)).collect();
        match rng.below(4) {
            0 => {
                // lopsided: codes up to 16 bits
                for x in c.iter_mut() {
                    x.1 = (2.2f64).powi(rng.below(17) as i32);
                }
            }
            1 => {
                // some symbols that never occur
                for _ in 0..rng.below(12) {
                    let s = rng.below(256);
                    // keep DC-style values legal: only symbols below 11 when all are
                    let small = c.iter().all(|x| x.0 <= 11);
                    let s = if small { s % 12 } else { s };
                    if !c.iter().any(|x| x.0 == s) {
                        c.push((s, 0.5));
                    }
                }
            }
            _ => {}
        }
        let mut lens;
        loop {
            // a reserved entry keeps the all-ones code free
            let mut nodes: Vec<(f64, Vec<usize>)> = c.iter().enumerate().map(|(i, x)| (x.1, vec![i])).collect();
            nodes.push((1e-9, vec![c.len()]));
            lens = vec![0u32; c.len() + 1];
            while nodes.len() > 1 {
                nodes.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
                let (a, la) = nodes.pop().unwrap();
                let (b, lb) = nodes.pop().unwrap();
                let mut l = la;
                l.extend(lb);
                for i in &l {
                    lens[*i] += 1;
                }
                nodes.push((a + b, l));
            }
            if *lens.iter().max().unwrap() <= 16 {
                break;
            }
            for x in c.iter_mut() {
                x.1 = x.1.sqrt();
            }
        }
        // the reserved entry must be the last of the longest length
        let mx = *lens.iter().max().unwrap();
        let r = c.len();
        if lens[r] != mx {
            let k = lens.iter().position(|l| *l == mx).unwrap();
            lens.swap(k, r);
        }
        let mut order: Vec<usize> = (0..c.len()).collect();
        if rng.bool() {
            // symbols of one length in any order
            for i in (1..order.len()).rev() {
                let k = rng.below(i + 1);
                order.swap(i, k);
            }
        }
        order.sort_by_key(|i| lens[*i]);
        let mut t = Table { code: vec![(0, 0); 256], bits: [0; 17], vals: vec![] };
        let mut code = 0u32;
        let mut last = 0;
        for i in order {
            let l = lens[i];
            code <<= l - last;
            last = l;
            t.code[c[i].0] = (code as u16, l as u8);
            t.bits[l as usize] += 1;
            t.vals.push(c[i].0 as u8);
            code += 1;
        }
        t
    }
}
fn dht(o: &mut Vec<u8>, rng: &mut Rng, tabs: &[(u8, Table)]) {
    let mut body = Vec::new();
    for (t, tab) in tabs {
        let mut p = vec![(t / 4) << 4 | (t % 4)];
        p.extend(&tab.bits[1..17]);
        p.extend(&tab.vals);
        if rng.bool() {
            seg(o, 0xc4, &p);
        } else {
            body.extend(p);
        }
    }
    if !body.is_empty() {
        seg(o, 0xc4, &body);
    }
}
pub fn seg(o: &mut Vec<u8>, m: u8, p: &[u8]) {
    o.extend([0xff, m]);
    o.extend(((p.len() + 2) as u16).to_be_bytes());
    o.extend(p);
}
fn filler(o: &mut Vec<u8>, rng: &mut Rng, on: bool) {
    if on && rng.bool() {
        o.extend(vec![0xff; rng.range(1, 4)]);
    }
}
fn noise_seg(o: &mut Vec<u8>, rng: &mut Rng) {
    let n = rng.below(60);
    let m = *rng.pick(&[0xfeu8, 0xe3, 0xe7, 0xeb, 0xec]);
    let p = rng.bytes(n);
    seg(o, m, &p);
}
struct Bits<'a> {
    o: &'a mut Vec<u8>,
    acc: u32,
    n: u8
}
impl Bits<'_> {
    fn put(&mut self, v: u32, n: u8) {
        for i in (0..n).rev() {
            self.acc = self.acc << 1 | (v >> i & 1);
            self.n += 1;
            if self.n == 8 {
                let b = self.acc as u8;
                self.o.push(b);
                if b == 0xff {
                    self.o.push(0);
                }
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    fn pad(&mut self) {
        while self.n != 0 {
            self.put(1, 1);
        }
    }
}
/// What a sample of component `i` upsampled to (x, y) may be: every reconstruction between
/// replication and triangle filtering of its neighbours, padding included.
pub struct Hull {
    pub lo: Vec<f32>,
    pub hi: Vec<f32>
}
fn clamp8(v: f64) -> f64 {
    v.clamp(0.0, 255.0)
}
impl Jpeg {
    /// sharp: exact factors are reproduced exactly; factor-2 axes use the triangle filter; other
    /// factors replicate. `None` when a factor is not a whole number.
    pub fn hull(&self, i: usize) -> Option<Hull> {
        let c = &self.comps[i];
        if self.hmax % c.h != 0 || self.vmax % c.v != 0 {
            return None;
        }
        let (fx, fy) = (self.hmax / c.h, self.vmax / c.v);
        let (sw, sh, p) = self.plane(i);
        let p: Vec<f64> = p.iter().map(|v| clamp8(*v)).collect();
        let at = |x: i64, y: i64, cx: usize, cy: usize| -> f64 { p[(y.clamp(0, cy as i64 - 1) as usize) * sw + x.clamp(0, cx as i64 - 1) as usize] };
        let mut lo = vec![0f32; self.w * self.h];
        let mut hi = vec![0f32; self.w * self.h];
        // weights per axis: (near index, far index or near, far weight)
        let axis = |o: usize, f: usize| -> (i64, i64, f64) {
            let n = (o / f) as i64;
            if f == 2 {
                (n, if o % 2 == 0 { n - 1 } else { n + 1 }, 0.25)
            } else {
                (n, n, 0.0)
            }
        };
        for y in 0..self.h {
            for x in 0..self.w {
                let (nx, gx, wx) = axis(x, fx);
                let (ny, gy, wy) = axis(y, fy);
                let mut l = f64::MAX;
                let mut m = f64::MIN;
                let mut add = |v: f64| {
                    l = l.min(v);
                    m = m.max(v);
                };
                for (cx, cy) in [(c.cw, c.ch), (sw, sh), (sw, c.ch), (c.cw, sh)] {
                    let v = |a: i64, b: i64| at(a, b, cx, cy);
                    add((1.0 - wx) * (1.0 - wy) * v(nx, ny) + wx * (1.0 - wy) * v(gx, ny) + (1.0 - wx) * wy * v(nx, gy) + wx * wy * v(gx, gy));
                    // plain replication is used by reference decoders for components this narrow
                    if c.cw <= 2 || (fx == 2 && fy > 2) || (fy == 2 && fx > 2) {
                        add(v(nx, ny));
                        add((1.0 - wx) * v(nx, ny) + wx * v(gx, ny));
                        add((1.0 - wy) * v(nx, ny) + wy * v(nx, gy));
                    }
                }
                lo[y * self.w + x] = l as f32;
                hi[y * self.w + x] = m as f32;
            }
        }
        Some(Hull { lo, hi })
    }
}
