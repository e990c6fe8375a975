//! D12: what a JPEG keeps when its data is cut, damaged or not quite by the book.
use crate::*;
use zvcore::Rng;

fn opts(strict: bool, cs: ColorSpace) -> DecoderOptions {
    DecoderOptions::default().jpeg_set_out_colorspace(cs).set_strict_mode(strict)
}
/// (position of the marker's first byte incl. fill, position after it) of every RST/EOI/SOS in `b` from `at`
fn markers(b: &[u8], mut at: usize) -> Vec<(usize, usize, u8)> {
    let mut v = vec![];
    while at + 1 < b.len() {
        if b[at] == 0xff {
            let s = at;
            while at < b.len() && b[at] == 0xff {
                at += 1;
            }
            if at >= b.len() {
                break;
            }
            if b[at] != 0 {
                v.push((s, at + 1, b[at]));
                if !(0xd0..=0xd9).contains(&b[at]) {
                    // a segment: over its payload
                    let l = usize::from(b[at + 1]) << 8 | usize::from(b[at + 2]);
                    at += l;
                }
            }
        }
        at += 1;
    }
    v
}
fn scan_start(b: &[u8]) -> usize {
    for (_, e, m) in markers(b, 2) {
        if m == 0xda {
            return e + (usize::from(b[e]) << 8 | usize::from(b[e + 1]));
        }
    }
    b.len()
}
fn rows(o: &Out, n: usize) -> &[u8] {
    let st = o.px.len() / o.h;
    &o.px[..n.min(o.h) * st]
}
fn one_scan(rng: &mut Rng, wide: bool) -> Jpeg {
    loop {
        let mut j = Jpeg::random(rng, Opt { odd_sampling: false, ncomp: 0, mode: 1, max_dim: 90, wide });
        if j.scans.len() != 1 || j.comps.len() == 2 {
            continue;
        }
        let (mw, mh) = j.scan_mcus(&j.scans[0]);
        if mh < 2 {
            continue;
        }
        j.scans[0].restart = mw;
        return j;
    }
}
fn out_space(c: &mut Case, j: &Jpeg) -> ColorSpace {
    if j.comps.len() == 1 {
        ColorSpace::Luma
    } else if c.rng.bool() {
        native(j).0
    } else {
        ColorSpace::RGB
    }
}
/// a sequential file cut, ended early or overwritten after `k` finished rows of MCUs
pub fn cut(c: &mut Case) {
    let wide = c.rng.one_in(4);
    let j = one_scan(&mut c.rng, wide);
    c.sample(|| j.describe());
    let b = j.write(&mut c.rng);
    let cs = out_space(c, &j);
    let mh = j.scan_mcus(&j.scans[0]).1;
    let whole = match c.lib("decode", || (zdec_o(&b, opts(true, cs)), zdec_o(&b, opts(false, cs)))) {
        Some((Ok(s), Ok(l))) => {
            c.check(s.px == l.px && s.w == l.w, "strict-pixels", || j.describe());
            l
        }
        Some((s, l)) => {
            c.blob(&b);
            c.fail("conforming-refused", format!("strict {:?} default {:?}: {}", s.err(), l.err(), j.describe()));
            return;
        }
        None => return
    };
    let at = scan_start(&b);
    let rst: Vec<(usize, usize)> = markers(&b, at).iter().filter(|m| (0xd0..=0xd7).contains(&m.2)).map(|m| (m.0, m.1)).collect();
    if rst.len() != mh - 1 {
        c.tag("odd-restarts");
        return;
    }
    let vm = if j.comps.len() == 1 { 1 } else { j.vmax };
    for _ in 0..4 {
        let k = c.rng.range(1, mh - 1);
        let (_, e) = rst[k - 1];
        let next = if k < rst.len() { rst[k].0 } else { b.len() - 2 };
        let how = c.rng.below(4);
        let (cutb, name, short) = match how {
            0 => (b[..e].to_vec(), "cut at a restart", true),
            1 => {
                let m = e + c.rng.below((next - e).max(1));
                (b[..m].to_vec(), "cut inside a row", true)
            }
            2 => {
                let mut v = b[..e].to_vec();
                v.extend([0xff, 0xd9]);
                (v, "ended early", false)
            }
            _ => {
                let mut v = b.clone();
                for x in &mut v[e..next] {
                    *x = c.rng.u8() & 0xfe;
                }
                (v, "row overwritten", false)
            }
        };
        c.blob(&cutb);
        let Some((l, s)) = c.lib("decode", || (zdec_o(&cutb, opts(false, cs)), zdec_o(&cutb, opts(true, cs)))) else { return };
        match l {
            Ok(l) => {
                c.check(l.w == whole.w && l.h == whole.h && l.px.len() == whole.px.len(), "lenient-size", || format!("{name}: {}", j.describe()));
                // the next row's chroma may reach into the last finished one
                let n = (k * 8 * vm).saturating_sub(if vm > 1 { 8 * vm } else { 0 });
                let same = rows(&l, n) == rows(&whole, n);
                c.check(same, "finished-rows-lost", || {
                    let st = whole.px.len() / whole.h;
                    let y = (0..whole.px.len()).find(|i| whole.px[*i] != l.px[*i]).unwrap_or(0) / st;
                    format!("{name} after {k} of {mh} MCU rows: first difference in row {y}: {}", j.describe())
                });
                c.tag(name);
                c.tag_n("rows-kept", n.min(whole.h) as u64);
                if let Ok(s) = &s {
                    c.check(s.px == l.px, "strict-pixels", || format!("{name}: {}", j.describe()));
                }
            }
            Err(e) => {
                c.check(how == 3, "lenient-refuses-cut", || format!("{name} after {k} of {mh} MCU rows: {e}: {}", j.describe()));
                c.check(s.is_err(), "strict-wider", || format!("{name}: {}", j.describe()));
            }
        }
        if short {
            c.check(s.is_err(), "strict-accepts-cut", || format!("{name} after {k} of {mh} MCU rows: {}", j.describe()));
        }
        c.saw(hash_bytes(&cutb));
    }
}
/// a progressive file cut where a later scan starts is the file that ends there
pub fn prog_cut(c: &mut Case) {
    let j = Jpeg::random(&mut c.rng, Opt { odd_sampling: false, ncomp: 0, mode: 2, max_dim: 60, wide: false });
    c.sample(|| j.describe());
    let b = j.write(&mut c.rng);
    let cs = out_space(c, &j);
    let all = markers(&b, 2);
    let sos: Vec<usize> = all.iter().filter(|m| m.2 == 0xda).map(|m| m.0).collect();
    if sos.len() < 3 || j.comps.len() == 2 {
        c.tag("few-scans");
        return;
    }
    for _ in 0..4 {
        let k = c.rng.range(2, sos.len() - 1);
        // what lies before the scan: its tables, then the end of the last one's data
        let part = b[..sos[k]].to_vec();
        let mut ended = part.clone();
        ended.extend([0xff, 0xd9]);
        c.blob(&part);
        let Some((l, e, s)) = c.lib("decode", || (zdec_o(&part, opts(false, cs)), zdec_o(&ended, opts(false, cs)), zdec_o(&part, opts(true, cs)))) else { return };
        match (&l, &e) {
            (Ok(l), Ok(e)) => {
                c.check(l.px == e.px && l.w == e.w, "finished-scans-lost", || format!("{k} of {} scans: {}", sos.len(), j.describe()));
                c.tag("scan-cut");
            }
            _ => c.fail("lenient-refuses-cut", format!("{k} of {} scans: cut {:?} ended {:?}: {}", sos.len(), l.as_ref().err(), e.as_ref().err(), j.describe()))
        }
        c.check(s.is_err(), "strict-accepts-cut", || format!("{k} of {} scans: {}", sos.len(), j.describe()));
        // inside the scan: the finished scans still show
        let hdr = sos[k] + b[sos[k]..].iter().position(|x| *x == 0xda).unwrap() + 1;
        let data = hdr + (usize::from(b[hdr]) << 8 | usize::from(b[hdr + 1]));
        let end = all.iter().find(|m| m.0 >= data && !(0xd0..=0xd7).contains(&m.2)).map_or(b.len() - 2, |m| m.0);
        let m = c.rng.range(data, end.max(data));
        let inside = b[..m].to_vec();
        c.blob(&inside);
        let Some((l, s)) = c.lib("decode", || (zdec_o(&inside, opts(false, cs)), zdec_o(&inside, opts(true, cs)))) else { return };
        c.check(l.is_ok(), "lenient-refuses-cut", || format!("inside scan {k}, {m} of {}: {:?}: {}", b.len(), l.as_ref().err(), j.describe()));
        c.check(s.is_err(), "strict-accepts-cut", || format!("inside scan {k}, {m} of {}: {}", b.len(), j.describe()));
        c.saw(hash_bytes(&inside));
    }
}
/// departures from the standard the decoder tolerates by default and refuses when strict
pub fn tolerated(c: &mut Case) {
    let mode = 1 + c.rng.below(2) as u8;
    let how = c.rng.below(3);
    let j = if how == 1 && mode == 1 {
        one_scan(&mut c.rng, false)
    } else {
        Jpeg::random(&mut c.rng, Opt { odd_sampling: false, ncomp: 0, mode, max_dim: 60, wide: false })
    };
    if j.comps.len() == 2 {
        return;
    }
    c.sample(|| j.describe());
    let b = j.write(&mut c.rng);
    let cs = out_space(c, &j);
    let all = markers(&b, 2);
    let first = all.iter().position(|m| m.2 == 0xda).unwrap();
    let (v, name, refused) = match how {
        0 => {
            // bytes between two header segments
            let at = all[c.rng.below(first + 1)].0;
            let n = c.rng.range(2, 40);
            let junk: Vec<u8> = (0..n).map(|_| c.rng.below(255) as u8).collect();
            let mut v = b[..at].to_vec();
            v.extend(&junk);
            v.extend(&b[at..]);
            (v, "bytes between headers", n > 3)
        }
        1 => {
            let mut v = b.clone();
            v.truncate(b.len() - 2);
            // a last row short enough to be read ahead of is taken for missing
            if mode == 1 && all.iter().filter(|m| (0xd0..=0xd7).contains(&m.2)).last().map_or(true, |m| b.len() - m.1 < 14) {
                c.tag("short-last-row");
                return;
            }
            while v.last() == Some(&0xff) {
                v.pop();
            }
            (v, "no end marker", true)
        }
        _ => {
            // trailing bytes are nobody's business
            let mut v = b.clone();
            let n = c.rng.range(1, 60);
            v.extend(c.rng.bytes(n));
            (v, "bytes after the end", false)
        }
    };
    c.blob(&v);
    let Some((w, l, s)) = c.lib("decode", || (zdec_o(&b, opts(false, cs)), zdec_o(&v, opts(false, cs)), zdec_o(&v, opts(true, cs)))) else { return };
    match (&w, &l) {
        (Ok(w), Ok(l)) => {
            c.check(w.px == l.px && w.w == l.w, "tolerated-pixels", || format!("{name}: {}", j.describe()));
            c.tag(name);
        }
        (Ok(_), Err(e)) => {
            c.check(name == "no end marker" && j.progressive && j.scans.len() == 1, "tolerated-refused", || format!("{name}: {e}: {}", j.describe()));
        }
        _ => c.fail("conforming-refused", format!("{:?}: {}", w.err(), j.describe()))
    }
    if refused {
        c.check(s.is_err(), "strict-tolerates", || format!("{name}: {}", j.describe()));
    } else if how == 2 {
        c.check(s.is_ok(), "conforming-refused", || format!("{name}: {:?}: {}", s.as_ref().err(), j.describe()));
    }
    c.saw(hash_bytes(&v));
}
