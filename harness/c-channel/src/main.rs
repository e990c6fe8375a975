//! I05: channels against plain vectors of bytes, over random histories.
use std::any::TypeId;
use std::panic::{catch_unwind, AssertUnwindSafe};
use zune_core::bit_depth::BitType;
use zune_image::channel::{Channel, ChannelErrors};
use zune_image::frame::Frame;
use zvcore::{hash_bytes, Case, Family, Rng};

/// The sample types a channel may hold.
trait Elem: Copy + PartialEq + std::fmt::Debug + 'static {
    const SIZE: usize;
    fn any(r: &mut Rng) -> Self;
    fn put(self, to: &mut Vec<u8>);
    fn get(b: &[u8]) -> Self;
    fn same(a: Self, b: Self) -> bool;
}
macro_rules! elem {
    ($t:ty, $n:expr, $any:expr) => {
        impl Elem for $t {
            const SIZE: usize = $n;
            fn any(r: &mut Rng) -> Self {
                let f: fn(&mut Rng) -> $t = $any;
                f(r)
            }
            fn put(self, to: &mut Vec<u8>) {
                to.extend_from_slice(&self.to_ne_bytes());
            }
            fn get(b: &[u8]) -> Self {
                <$t>::from_ne_bytes(b.try_into().unwrap())
            }
            fn same(a: Self, b: Self) -> bool {
                a.to_ne_bytes() == b.to_ne_bytes()
            }
        }
    };
}
elem!(u8, 1, |r| r.u8());
elem!(u16, 2, |r| r.u16());
elem!(u32, 4, |r| r.u32());
elem!(u64, 8, |r| r.u64());
elem!(f32, 4, |r| f32::from_bits(r.u32()));
elem!(f64, 8, |r| f64::from_bits(r.u64()));

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    U8,
    U16,
    U32,
    U64,
    F32,
    F64
}
const TYS: [Ty; 6] = [Ty::U8, Ty::U16, Ty::F32, Ty::U32, Ty::U64, Ty::F64];
macro_rules! with {
    ($ty:expr, $t:ident => $e:expr) => {
        match $ty {
            Ty::U8 => {
                type $t = u8;
                $e
            }
            Ty::U16 => {
                type $t = u16;
                $e
            }
            Ty::U32 => {
                type $t = u32;
                $e
            }
            Ty::U64 => {
                type $t = u64;
                $e
            }
            Ty::F32 => {
                type $t = f32;
                $e
            }
            Ty::F64 => {
                type $t = f64;
                $e
            }
        }
    };
}
fn id(t: Ty) -> TypeId {
    with!(t, T => TypeId::of::<T>())
}
fn size(t: Ty) -> usize {
    with!(t, T => T::SIZE)
}
#[derive(Clone)]
struct Model {
    ty: Ty,
    bytes: Vec<u8>
}
fn len(r: &mut Rng, big: bool) -> usize {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 2 + r.below(14),
        3 if !cfg!(miri) => *r.pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
        4 if big => 900 + r.below(300),
        _ if cfg!(miri) => r.below(9),
        _ => r.below(40)
    }
}
/// a new channel with its model
fn fresh(c: &mut Case, big: bool) -> Option<(Channel, Model)> {
    let ty = *c.rng.pick(&TYS);
    let n = len(&mut c.rng, big);
    let how = c.rng.below(7);
    c.log(&format!("new {how} {ty:?} {n}"));
    let zeros = |n: usize| Model { ty, bytes: vec![0; n] };
    Some(match how {
        0 => (c.lib("new", || with!(ty, T => Channel::new::<T>()))?, zeros(0)),
        1 => (c.lib("new_with_length", || with!(ty, T => Channel::new_with_length::<T>(n)))?, zeros(n)),
        2 => (c.lib("new_with_length_and_type", || Channel::new_with_length_and_type(n, id(ty)))?, zeros(n)),
        3 => (c.lib("new_with_capacity", || with!(ty, T => Channel::new_with_capacity::<T>(n)))?, zeros(0)),
        4 => {
            let t = *c.rng.pick(&[Ty::U8, Ty::U16, Ty::F32]);
            let b = match t {
                Ty::U8 => BitType::U8,
                Ty::U16 => BitType::U16,
                _ => BitType::F32
            };
            (c.lib("new_with_bit_type", || Channel::new_with_bit_type(n, b))?, Model { ty: t, bytes: vec![0; n] })
        }
        _ => {
            let (ch, bytes) = with!(ty, T => {
                let e = T::any(&mut c.rng);
                let mut b = vec![];
                (0..n).for_each(|_| e.put(&mut b));
                (c.lib("from_elm", || Channel::from_elm::<T>(n, e))?, b)
            });
            (ch, Model { ty, bytes })
        }
    })
}
fn err(e: &ChannelErrors) -> &'static str {
    match e {
        ChannelErrors::UnalignedPointer(..) => "unaligned",
        ChannelErrors::UnevenLength(..) => "uneven",
        ChannelErrors::DifferentType(..) => "type"
    }
}
/// everything that can be seen of a channel
fn look(c: &mut Case, ch: &Channel, m: &Model) {
    c.check(ch.len() == m.bytes.len(), "len", || format!("{} for {}", ch.len(), m.bytes.len()));
    c.check(ch.is_empty() == m.bytes.is_empty(), "is_empty", || format!("{}", ch.is_empty()));
    c.check(ch.capacity() >= ch.len(), "capacity", || format!("{} below the length {}", ch.capacity(), ch.len()));
    c.check(ch.type_id() == id(m.ty), "type", || format!("not {:?}", m.ty));
    let raw = unsafe { ch.alias() };
    c.check(raw == &m.bytes[..], "bytes", || format!("{} bytes of {:?}: {:?} for {:?}", m.bytes.len(), m.ty, &raw[..raw.len().min(40)], &m.bytes[..m.bytes.len().min(40)]));
    c.check(raw.as_ptr() as usize % 64 == 0, "alignment", || format!("{:p}", raw.as_ptr()));
    let own = TYS.iter().position(|t| *t == m.ty).unwrap();
    for (i, t) in TYS.into_iter().enumerate() {
        if cfg!(miri) && i != own && i != (own + m.bytes.len()) % 6 {
            continue;
        }
        let even = m.bytes.len() % size(t) == 0;
        let ok = with!(t, T => match ch.reinterpret_as::<T>() {
            Ok(s) => {
                let want: Vec<T> = m.bytes.chunks_exact(T::SIZE).map(T::get).collect();
                // one by one is slow in the interpreter; the bytes were compared above
                if s.len() != want.len() || !s.iter().step_by(if cfg!(miri) { 1 + want.len() / 8 } else { 1 }).zip(want.iter().step_by(if cfg!(miri) { 1 + want.len() / 8 } else { 1 })).all(|(a, b)| T::same(*a, *b)) {
                    c.fail("reinterpret-values", format!("as {t:?}: {:?} for {:?}", &s[..s.len().min(10)], &want[..want.len().min(10)]));
                }
                true
            }
            Err(e) => {
                // what is said has to be so
                match err(&e) {
                    "uneven" => c.check(!even, "reinterpret-error", || format!("as {t:?}: {} bytes called uneven", m.bytes.len())),
                    "type" => c.check(t != m.ty, "reinterpret-error", || format!("as {t:?} called another type")),
                    _ => c.check(false, "reinterpret-error", || format!("as {t:?}: {e:?}"))
                };
                false
            }
        });
        c.check(ok == (t == m.ty && even), "reinterpret-refusal", || format!("{} bytes of {:?} as {t:?}: {}", m.bytes.len(), m.ty, if ok { "accepted" } else { "refused" }));
    }
}
pub fn history(c: &mut Case) {
    let big = c.rng.one_in(6) && !cfg!(miri);
    let Some(first) = fresh(c, big) else { return };
    let mut pool = vec![first];
    let steps = 1 + c.rng.below(if cfg!(miri) { 10 } else { 25 });
    let mut h = vec![];
    for _ in 0..steps {
        let k = c.rng.below(pool.len());
        let ty = pool[k].1.ty;
        let op = c.rng.below(12);
        h.push(op as u8);
        match op {
            0 if pool.len() < 4 => {
                let Some(x) = fresh(c, big) else { return };
                pool.push(x);
            }
            1 | 2 => {
                // mostly its own type, sometimes another
                let t = if c.rng.one_in(5) { *c.rng.pick(&TYS) } else { ty };
                let n = 1 + if c.rng.one_in(4) { c.rng.below(30) } else { 0 };
                c.log(&format!("push {k} {t:?} x{n}"));
                for _ in 0..n {
                    let (ch, m) = &mut pool[k];
                    let r = with!(t, T => {
                        let e = T::any(&mut c.rng);
                        e.put(&mut m.bytes);
                        c.lib("push", || ch.push::<T>(e))
                    });
                    if r.is_none() {
                        return;
                    }
                }
            }
            3 | 4 => {
                let n = len(&mut c.rng, big);
                c.log(&format!("extend {k} {ty:?} {n}"));
                let (ch, m) = &mut pool[k];
                let r = with!(ty, T => {
                    let v: Vec<T> = (0..n).map(|_| T::any(&mut c.rng)).collect();
                    v.iter().for_each(|e| e.put(&mut m.bytes));
                    c.lib("extend", || ch.extend::<T>(&v))
                });
                if r.is_none() {
                    return;
                }
            }
            5 => {
                // the wrong type is refused, nothing changes
                let t = *c.rng.pick(&TYS);
                if t != ty {
                    c.log(&format!("extend {k} with {t:?}"));
                    let ch = &mut pool[k].0;
                    let n = c.rng.below(6);
                    let bad = with!(t, T => {
                        let v: Vec<T> = (0..n).map(|_| T::any(&mut c.rng)).collect();
                        catch_unwind(AssertUnwindSafe(|| ch.extend::<T>(&v))).is_ok()
                    });
                    c.check(!bad, "extend-refusal", || format!("{t:?} into a channel of {ty:?} accepted"));
                    c.tag("refused-extend");
                }
            }
            6 => {
                let t = if c.rng.one_in(4) { *c.rng.pick(&TYS) } else { ty };
                c.log(&format!("fill {k} {t:?}"));
                let (ch, m) = &mut pool[k];
                let even = m.bytes.len() % size(t) == 0;
                let r = with!(t, T => {
                    let e = T::any(&mut c.rng);
                    let r = c.lib("fill", || ch.fill::<T>(e).is_ok());
                    if r == Some(true) {
                        let n = m.bytes.len() / T::SIZE;
                        m.bytes.clear();
                        (0..n).for_each(|_| e.put(&mut m.bytes));
                    }
                    r
                });
                let Some(ok) = r else { return };
                c.check(ok == (t == ty && even), "fill-refusal", || format!("{} bytes of {ty:?} filled with {t:?}: {ok}", pool[k].1.bytes.len()));
            }
            7 | 8 => {
                let t = if c.rng.one_in(4) { *c.rng.pick(&TYS) } else { ty };
                c.log(&format!("write {k} {t:?}"));
                let (ch, m) = &mut pool[k];
                let even = m.bytes.len() % size(t) == 0;
                let (seed, stride) = (c.rng.u64(), 1 + c.rng.below(3));
                let r = with!(t, T => {
                    let mut r = Rng::new(seed);
                    c.lib("reinterpret_as_mut", || match ch.reinterpret_as_mut::<T>() {
                        Err(_) => None,
                        Ok(s) => {
                            s.iter_mut().step_by(stride).for_each(|x| *x = T::any(&mut r));
                            Some(s.len())
                        }
                    })
                });
                let Some(r) = r else { return };
                c.check(r.is_some() == (t == ty && even), "write-refusal", || format!("{ty:?} as {t:?}: {}", r.is_some()));
                if let Some(n) = r {
                    with!(t, T => {
                        let mut r = Rng::new(seed);
                        for i in (0..n).step_by(stride) {
                            let mut b = vec![];
                            T::any(&mut r).put(&mut b);
                            if let Some(d) = m.bytes.get_mut(i * T::SIZE..(i + 1) * T::SIZE) {
                                d.copy_from_slice(&b);
                            }
                        }
                    });
                }
            }
            9 if pool.len() < 4 => {
                c.log(&format!("clone {k}"));
                let Some(ch) = c.lib("clone", || pool[k].0.clone()) else { return };
                let m = pool[k].1.clone();
                pool.push((ch, m));
            }
            10 => {
                let j = c.rng.below(pool.len());
                let (a, b) = (&pool[k], &pool[j]);
                let want = a.1.ty == b.1.ty && a.1.bytes == b.1.bytes;
                let got = a.0 == b.0;
                c.check(got == want, "equality", || format!("{got} for {:?} x{} and {:?} x{}", a.1.ty, a.1.bytes.len(), b.1.ty, b.1.bytes.len()));
                // one byte of difference anywhere shows
                if !a.1.bytes.is_empty() {
                    let i = c.rng.below(a.1.bytes.len());
                    let bit = 1u8 << c.rng.below(8);
                    let mut x = a.0.clone();
                    unsafe { x.alias_mut()[i] ^= bit };
                    c.check(x != a.0 && a.0 != x, "equality", || format!("equal though byte {i} of {} differs", a.1.bytes.len()));
                }
            }
            11 if pool.len() > 1 => {
                c.log(&format!("drop {k}"));
                pool.swap_remove(k);
            }
            _ => {
                let m = &pool[k].1;
                let d = format!("{:?}", pool[k].0);
                let want = format!("raw_bytes: {:?}\n", m.bytes);
                c.check(d == want, "debug", || format!("{} for {}", &d[..d.len().min(200)], &want[..want.len().min(200)]));
            }
        }
        for (i, (ch, m)) in pool.iter().enumerate() {
            // the interpreter is slow: look at the others at the end only
            if !cfg!(miri) || i == k {
                look(c, ch, m);
            }
        }
        if c.failed() {
            return;
        }
    }
    if cfg!(miri) {
        for (ch, m) in &pool {
            look(c, ch, m);
        }
    }
    c.tag_n("operations", h.len() as u64);
    c.saw(hash_bytes(&h) ^ hash_bytes(&pool[0].1.bytes));
}
/// Frames clone their channels, on threads when they are long.
pub fn frames(c: &mut Case) {
    let ty = *c.rng.pick(&[Ty::U8, Ty::U16, Ty::F32]);
    let n = 1 + c.rng.below(5);
    let items = match c.rng.below(4) {
        _ if cfg!(miri) => (1000 / size(ty)).saturating_sub(2) + c.rng.below(6),
        0 => c.rng.below(5),
        1 => 240 + c.rng.below(20),
        2 => 495 + c.rng.below(12),
        _ => 995 + c.rng.below(300)
    };
    let mut ms = vec![];
    let mut chans = vec![];
    for _ in 0..n {
        let mut m = Model { ty, bytes: vec![] };
        let mut ch = with!(ty, T => Channel::new::<T>());
        with!(ty, T => {
            let v: Vec<T> = (0..items).map(|_| T::any(&mut c.rng)).collect();
            v.iter().for_each(|e| e.put(&mut m.bytes));
            if cfg!(miri) || c.rng.bool() {
                ch.extend::<T>(&v);
            } else {
                v.iter().for_each(|e| ch.push::<T>(*e));
            }
        });
        ms.push(m);
        chans.push(ch);
    }
    let (num, den) = (c.rng.below(1000), 1 + c.rng.below(1000));
    let f = Frame::new_with_duration(chans, num, den);
    c.tag(if items * size(ty) > 1000 && n > 1 { "threads" } else { "one thread" });
    let Some(mut g) = c.lib("clone", || f.clone()) else { return };
    c.check(g == f, "frame-equality", || format!("clone of {n} channels of {items} {ty:?} differs"));
    c.check((g.numerator(), g.denominator()) == (num, den), "frame-times", || format!("{}/{} for {num}/{den}", g.numerator(), g.denominator()));
    c.check(g.channels_vec_ref().len() == n, "frame-channels", || format!("{} for {n}", g.channels_vec_ref().len()));
    for (ch, m) in g.channels_vec_ref().iter().zip(&ms) {
        look(c, ch, m);
    }
    // clones are independent, and stay growable
    let k = c.rng.below(n);
    with!(ty, T => {
        let v: Vec<T> = (0..c.rng.below(60)).map(|_| T::any(&mut c.rng)).collect();
        if c.lib("grow", || v.iter().for_each(|e| g.channels_vec()[k].push::<T>(*e))).is_none() { return }
        v.iter().for_each(|e| e.put(&mut ms[k].bytes));
    });
    look(c, &g.channels_vec_ref()[k], &ms[k]);
    c.check(items == 0 || f.channels_vec_ref()[k].len() == items * size(ty), "frame-independent", || "the original grew with its clone".into());
    if let Some(h) = c.lib("clone", || g.clone()) {
        c.check(h == g, "frame-equality", || "clone of a clone differs".into());
    }
    c.saw(hash_bytes(&ms[0].bytes) ^ n as u64);
}
static FAMILIES: &[Family] = &[
    Family { property: "R11", name: "channel", n: (1500, 40_000), rule: "cases of this program's other families run again and again; bytes, files and threads held must not grow", f: zvcore::balanced },
    Family { property: "I05", name: "history", n: (20_000, 600_000), rule: "random histories of every safe channel call on up to four channels, everything visible compared after each call", f: history },
    Family { property: "I05", name: "frames", n: (3000, 60_000), rule: "frames of one to five channels around the size where cloning turns to threads", f: frames }
];
fn main() {
    zvcore::main(FAMILIES)
}
