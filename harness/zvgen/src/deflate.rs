//! A DEFLATE writer that makes arbitrary (but valid) choices: random complete Huffman codes up to
//! the length limits, random matches at any legal distance and length, any block mix.
use zvcore::Rng;
pub struct BitW {
    pub out: Vec<u8>,
    acc: u64,
    n: u32
}
impl BitW {
    pub fn new() -> BitW {
        BitW { out: vec![], acc: 0, n: 0 }
    }
    /// LSB first
    pub fn bits(&mut self, v: u64, n: u32) {
        self.acc |= (v & ((1u64 << n) - 1)) << self.n;
        self.n += n;
        while self.n >= 8 {
            self.out.push(self.acc as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
    /// Huffman code, MSB first
    pub fn code(&mut self, c: u32, len: u32) {
        let r = c.reverse_bits() >> (32 - len);
        self.bits(r as u64, len)
    }
    pub fn align(&mut self, fill: u64) {
        if self.n > 0 {
            let k = 8 - self.n;
            self.bits(fill, k)
        }
    }
    pub fn finish(mut self) -> Vec<u8> {
        self.align(0);
        self.out
    }
}
impl Default for BitW {
    fn default() -> Self {
        Self::new()
    }
}
#[derive(Clone, Copy, Debug)]
pub enum Tok {
    Lit(u8),
    Match(u16, u16)
}
pub const LBASE: [u16; 29] =
    [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
pub const LEXTRA: [u8; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
pub const DBASE: [u16; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193,
    12289, 16385, 24577
];
pub const DEXTRA: [u8; 30] =
    [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];
fn lsym(len: u16) -> usize {
    if len == 258 {
        return 28;
    }
    (0..28).rev().find(|&i| LBASE[i] <= len).unwrap()
}
fn dsym(d: u16) -> usize {
    (0..30).rev().find(|&i| DBASE[i] <= d).unwrap()
}
/// lengths of a random complete prefix code with `n` leaves (n>=2) and depth <= max
pub fn random_complete(rng: &mut Rng, n: usize, max: u32) -> Vec<u8> {
    let mut leaves: Vec<u8> = vec![0];
    // bias: deep trees or balanced ones
    let style = rng.below(3);
    while leaves.len() < n {
        // keep it possible: every leaf with depth<max can be split
        let cand: Vec<usize> = (0..leaves.len()).filter(|&i| (leaves[i] as u32) < max).collect();
        let i = match style {
            0 => *rng.pick(&cand),
            1 => {
                // prefer deepest, but only if the remaining demand still fits
                let mut c = cand.clone();
                c.sort_by_key(|&i| std::cmp::Reverse(leaves[i]));
                let cap: u64 = leaves.iter().map(|&l| 1u64 << (max - l as u32)).sum();
                if cap > (n as u64) * 2 && !rng.one_in(8) {
                    c[0]
                } else {
                    *rng.pick(&cand)
                }
            }
            _ => *cand.iter().min_by_key(|&&i| leaves[i]).unwrap()
        };
        let d = leaves[i] + 1;
        leaves[i] = d;
        leaves.push(d);
    }
    leaves
}
pub fn canonical(lens: &[u8]) -> Vec<u32> {
    let mut count = [0u32; 16];
    for &l in lens {
        count[l as usize] += 1
    }
    count[0] = 0;
    let mut next = [0u32; 16];
    let mut code = 0;
    for b in 1..16 {
        code = (code + count[b - 1]) << 1;
        next[b] = code;
    }
    lens.iter()
        .map(|&l| {
            if l == 0 {
                0
            } else {
                let c = next[l as usize];
                next[l as usize] += 1;
                c
            }
        })
        .collect()
}
pub fn fixed_lens() -> (Vec<u8>, Vec<u8>) {
    let mut l = vec![8u8; 288];
    for x in l.iter_mut().take(256).skip(144) {
        *x = 9
    }
    for x in l.iter_mut().take(280).skip(256) {
        *x = 7
    }
    (l, vec![5u8; 30])
}
fn emit_tokens(w: &mut BitW, toks: &[Tok], ll: &[u8], lc: &[u32], dl: &[u8], dc: &[u32]) {
    for t in toks {
        match *t {
            Tok::Lit(b) => w.code(lc[b as usize], ll[b as usize] as u32),
            Tok::Match(len, dist) => {
                let s = lsym(len);
                w.code(lc[257 + s], ll[257 + s] as u32);
                w.bits((len - LBASE[s]) as u64, LEXTRA[s] as u32);
                let d = dsym(dist);
                w.code(dc[d], dl[d] as u32);
                w.bits((dist - DBASE[d]) as u64, DEXTRA[d] as u32);
            }
        }
    }
    w.code(lc[256], ll[256] as u32);
}
fn assign(rng: &mut Rng, used: &[bool], max: u32, min_one: bool) -> Vec<u8> {
    let mut lens = vec![0u8; used.len()];
    let mut idx: Vec<usize> = (0..used.len()).filter(|&i| used[i]).collect();
    if idx.is_empty() {
        if min_one {
            lens[0] = 1;
        }
        return lens;
    }
    if idx.len() == 1 {
        lens[idx[0]] = 1;
        return lens;
    }
    for i in (1..idx.len()).rev() {
        let j = rng.below(i + 1);
        idx.swap(i, j);
    }
    let t = random_complete(rng, idx.len(), max);
    for (i, l) in idx.into_iter().zip(t) {
        lens[i] = l
    }
    lens
}
fn write_dynamic(rng: &mut Rng, w: &mut BitW, toks: &[Tok]) {
    let mut lu = vec![false; 286];
    let mut du = vec![false; 30];
    lu[256] = true;
    for t in toks {
        match *t {
            Tok::Lit(b) => lu[b as usize] = true,
            Tok::Match(l, d) => {
                lu[257 + lsym(l)] = true;
                du[dsym(d)] = true
            }
        }
    }
    // extra unused-but-coded symbols
    let extra = *rng.pick(&[0usize, 0, 1, 5, 60, 286]);
    for _ in 0..extra {
        lu[rng.below(286)] = true
    }
    if !rng.one_in(3) {
        for _ in 0..rng.below(30) {
            du[rng.below(30)] = true
        }
    }
    // a literal/length code needs two symbols to be complete
    if lu.iter().filter(|&&x| x).count() < 2 {
        lu[rng.below(256)] = true
    }
    let any_match = toks.iter().any(|t| matches!(t, Tok::Match(..)));
    let ll = assign(rng, &lu, 15, false);
    let mut dl = assign(rng, &du, 15, true);
    if any_match && dl.iter().filter(|&&x| x > 0).count() == 1 {
        // single distance code of length 1: legal but incomplete; make it complete half of the time
        if rng.bool() {
            let i = dl.iter().position(|&x| x == 0).unwrap();
            dl[i] = 1;
        }
    }
    let lc = canonical(&ll);
    let dc = canonical(&dl);
    let hlit = ll.iter().rposition(|&x| x > 0).unwrap().max(256) + 1;
    let hdist = dl.iter().rposition(|&x| x > 0).unwrap_or(0) + 1;
    let hlit = rng.range(hlit, 286);
    let hdist = rng.range(hdist, 30);
    let mut seq: Vec<u8> = ll[..hlit].to_vec();
    seq.extend_from_slice(&dl[..hdist]);
    // run-length code it, randomly declining opportunities
    let mut cl: Vec<(u8, u8)> = vec![];
    let mut i = 0;
    while i < seq.len() {
        let v = seq[i];
        let mut run = 1;
        while i + run < seq.len() && seq[i + run] == v {
            run += 1
        }
        if v == 0 && run >= 3 && !rng.one_in(8) {
            let r = rng.range(3, run.min(138));
            if r <= 10 {
                cl.push((17, (r - 3) as u8))
            } else {
                cl.push((18, (r - 11) as u8))
            }
            i += r;
            continue;
        }
        if i > 0 && seq[i - 1] == v && run >= 3 && !rng.one_in(8) {
            let r = rng.range(3, run.min(6));
            cl.push((16, (r - 3) as u8));
            i += r;
            continue;
        }
        cl.push((v, 0));
        i += 1;
    }
    let mut cu = vec![false; 19];
    for (s, _) in &cl {
        cu[*s as usize] = true
    }
    if cu.iter().filter(|&&x| x).count() < 2 {
        let i = cu.iter().position(|&x| !x).unwrap();
        cu[i] = true
    }
    let cll = assign(rng, &cu, 7, false);
    let clc = canonical(&cll);
    const ORD: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
    let mut hclen = 19;
    while hclen > 4 && cll[ORD[hclen - 1]] == 0 {
        hclen -= 1
    }
    w.bits((hlit - 257) as u64, 5);
    w.bits((hdist - 1) as u64, 5);
    w.bits((hclen - 4) as u64, 4);
    for &o in ORD.iter().take(hclen) {
        w.bits(cll[o] as u64, 3)
    }
    for (s, x) in cl {
        w.code(clc[s as usize], cll[s as usize] as u32);
        match s {
            16 => w.bits(x as u64, 2),
            17 => w.bits(x as u64, 3),
            18 => w.bits(x as u64, 7),
            _ => {}
        }
    }
    emit_tokens(w, toks, &ll, &lc, &dl, &dc);
}
/// A random valid raw DEFLATE stream and the data it encodes.
pub fn random_stream(rng: &mut Rng, max_out: usize) -> (Vec<u8>, Vec<u8>) {
    let mut data: Vec<u8> = vec![];
    let mut w = BitW::new();
    let nblocks = rng.range(1, 6);
    let alphabet = *rng.pick(&[1usize, 2, 3, 16, 256, 256]);
    let alpha: Vec<u8> = (0..alphabet).map(|_| rng.u8()).collect();
    for b in 0..nblocks {
        let last = b + 1 == nblocks;
        w.bits(last as u64, 1);
        let kind = rng.below(10);
        let room = max_out.saturating_sub(data.len());
        if kind < 2 {
            w.bits(0, 2);
            let fill = rng.u64();
            w.align(fill);
            let len = *rng.pick(&[0usize, 1, 2, 15, 16, 17, 100, 1000, 40000, 65535]);
            let len = len.min(room).min(65535);
            let d: Vec<u8> = if rng.bool() { rng.bytes(len) } else { rng.texture(len) };
            w.bits(len as u64, 16);
            w.bits(!len as u64 & 0xffff, 16);
            for x in &d {
                w.bits(*x as u64, 8)
            }
            data.extend(d);
            continue;
        }
        let ntok = *rng.pick(&[0usize, 1, 2, 10, 100, 500, 3000]);
        let pmatch = *rng.pick(&[0usize, 1, 5, 9, 10]);
        let mut toks = vec![];
        let dist_style = rng.below(4);
        for _ in 0..ntok {
            if data.len() >= max_out {
                break;
            }
            if !data.is_empty() && rng.below(10) < pmatch {
                let maxd = data.len().min(32768);
                let d = match dist_style {
                    0 => rng.range(1, maxd.min(20)),
                    1 => rng.range(1, maxd),
                    2 => maxd - rng.below(maxd.min(3)),
                    _ => {
                        let hi = 1usize << rng.range(0, 15);
                        rng.range(1, maxd.min(hi))
                    }
                };
                let l = match rng.below(4) {
                    0 => rng.range(3, 10),
                    1 => 258 - rng.below(3),
                    _ => rng.range(3, 258)
                };
                toks.push(Tok::Match(l as u16, d as u16));
                for _ in 0..l {
                    let v = data[data.len() - d];
                    data.push(v)
                }
            } else {
                let c = *rng.pick(&alpha);
                toks.push(Tok::Lit(c));
                data.push(c);
            }
        }
        if kind < 5 {
            w.bits(1, 2);
            let (l, d) = fixed_lens();
            let (lc, dc) = (canonical(&l), canonical(&d));
            emit_tokens(&mut w, &toks, &l, &lc, &d, &dc);
        } else {
            w.bits(2, 2);
            write_dynamic(rng, &mut w, &toks);
        }
    }
    (w.finish(), data)
}
pub fn adler32(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for c in d.chunks(5552) {
        for x in c {
            a += *x as u32;
            b += a
        }
        a %= 65521;
        b %= 65521
    }
    (b << 16) | a
}
pub fn crc32(d: &[u8]) -> u32 {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = i as u32;
            for _ in 0..8 {
                c = if c & 1 == 1 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 }
            }
            *e = c
        }
        t
    });
    let mut c = !0u32;
    for &b in d {
        c = t[((c ^ b as u32) & 255) as usize] ^ (c >> 8)
    }
    !c
}
pub fn zlib_wrap(raw: &[u8], data: &[u8]) -> Vec<u8> {
    let mut v = vec![0x78, 0x9c];
    v.extend_from_slice(raw);
    v.extend_from_slice(&adler32(data).to_be_bytes());
    v
}
pub fn gzip_wrap(rng: &mut Rng, raw: &[u8], data: &[u8]) -> Vec<u8> {
    let mut v = vec![0x1f, 0x8b, 8];
    let flags = if rng.bool() { 0 } else { rng.u8() & 0x1f };
    v.push(flags);
    v.extend(rng.bytes(4));
    v.push(rng.u8());
    v.push(rng.u8());
    if flags & 4 != 0 {
        let n = *rng.pick(&[0usize, 1, 10, 300, 65535]);
        v.extend_from_slice(&(n as u16).to_le_bytes());
        v.extend(rng.bytes(n));
    }
    for bit in [8u8, 16] {
        if flags & bit != 0 {
            let n = rng.below(40);
            for _ in 0..n {
                v.push(rng.range(1, 255) as u8)
            }
            v.push(0)
        }
    }
    if flags & 2 != 0 {
        let c = crc32(&v) as u16;
        v.extend_from_slice(&c.to_le_bytes());
    }
    v.extend_from_slice(raw);
    v.extend_from_slice(&crc32(data).to_le_bytes());
    v.extend_from_slice(&(data.len() as u32).to_le_bytes());
    v
}
/// Compress with stored blocks only (used by writers that need no oracle)
pub fn stored(data: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut it = data.chunks(65535).peekable();
    if it.peek().is_none() {
        v.extend_from_slice(&[1, 0, 0, 0xff, 0xff]);
    }
    while let Some(c) = it.next() {
        v.push(it.peek().is_none() as u8);
        v.extend_from_slice(&(c.len() as u16).to_le_bytes());
        v.extend_from_slice(&(!(c.len() as u16)).to_le_bytes());
        v.extend_from_slice(c);
    }
    v
}
