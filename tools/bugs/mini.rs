#[allow(dead_code)]
fn crc32(d: &[u8]) -> u32 { let mut c = !0u32; for &b in d { c ^= b as u32; for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 } } } !c }
#[allow(dead_code)]
fn adler(d: &[u8]) -> u32 { let (mut a, mut b) = (1u32, 0u32); for &x in d { a = (a + x as u32) % 65521; b = (b + a) % 65521; } (b << 16) | a }
#[allow(dead_code)]
fn stored(d: &[u8]) -> Vec<u8> { let mut o = vec![]; let n = d.chunks(60000).count().max(1); if d.is_empty() { o.extend([1, 0, 0, 255, 255]); } for (i, c) in d.chunks(60000).enumerate() { o.push((i + 1 == n) as u8); let l = c.len() as u16; o.extend(l.to_le_bytes()); o.extend((!l).to_le_bytes()); o.extend(c); } o }
#[allow(dead_code)]
fn zlib(d: &[u8]) -> Vec<u8> { let mut o = vec![0x78, 1]; o.extend(stored(d)); o.extend(adler(d).to_be_bytes()); o }
#[allow(dead_code)]
fn chunk(o: &mut Vec<u8>, t: &[u8; 4], d: &[u8]) { o.extend((d.len() as u32).to_be_bytes()); let s = o.len(); o.extend(t); o.extend(d); let c = crc32(&o[s..]); o.extend(c.to_be_bytes()); }
#[allow(dead_code)]
fn ihdr(w: u32, h: u32, depth: u8, color: u8, il: u8) -> Vec<u8> { let mut o = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10]; let mut d = vec![]; d.extend(w.to_be_bytes()); d.extend(h.to_be_bytes()); d.extend([depth, color, 0, 0, il]); chunk(&mut o, b"IHDR", &d); o }
