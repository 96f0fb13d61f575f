// a small independent writer of 7z archives
#![allow(dead_code)]
pub fn crc(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { c >> 1 ^ 0xEDB88320 } else { c >> 1 };
        }
    }
    !c
}
pub fn num(v: u64) -> Vec<u8> {
    let mut n = 0;
    while n < 8 && v >= 1u64 << (7 * (n + 1)) {
        n += 1;
    }
    let top = if n == 8 { 0xff } else { !(0xffu32 >> n) as u8 | (v >> (8 * n)) as u8 };
    let mut o = vec![top];
    for i in 0..n {
        o.push((v >> (8 * i)) as u8);
    }
    o
}
pub fn archive(pack: &[u8], header: &[u8]) -> Vec<u8> {
    let mut sh = vec![];
    sh.extend((pack.len() as u64).to_le_bytes());
    sh.extend((header.len() as u64).to_le_bytes());
    sh.extend(crc(header).to_le_bytes());
    let mut v = b"7z\xBC\xAF\x27\x1C\x00\x04".to_vec();
    v.extend(crc(&sh).to_le_bytes());
    v.extend(sh);
    v.extend(pack);
    v.extend(header);
    v
}
/// one coder, one packed stream, one folder, `subs` (size, crc) entries named a, b, c...
pub fn folder(id: &[u8], props: &[u8], pack: &[u8], subs: &[(u64, u32)]) -> Vec<u8> {
    let mut h = vec![1, 4, 6, 0, 1, 9];
    h.extend(num(pack.len() as u64));
    h.extend([0, 7, 0x0B, 1, 0, 1, id.len() as u8 | if props.is_empty() { 0 } else { 0x20 }]);
    h.extend(id);
    if !props.is_empty() {
        h.push(props.len() as u8);
        h.extend(props);
    }
    h.push(0x0C);
    h.extend(num(subs.iter().map(|s| s.0).sum()));
    h.extend([0, 8, 0x0D]);
    h.extend(num(subs.len() as u64));
    if subs.len() > 1 {
        h.push(9);
        for s in &subs[..subs.len() - 1] {
            h.extend(num(s.0));
        }
    }
    h.extend([0x0A, 1]);
    for s in subs {
        h.extend(s.1.to_le_bytes());
    }
    h.extend([0, 0, 5]);
    h.extend(num(subs.len() as u64));
    h.push(0x11);
    h.extend(num(1 + 4 * subs.len() as u64));
    h.push(0);
    for i in 0..subs.len() {
        h.extend([b'a' + i as u8, 0, 0, 0]);
    }
    h.extend([0, 0]);
    archive(pack, &h)
}
