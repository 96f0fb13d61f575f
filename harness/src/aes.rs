//! Encryption: block chaining, key derivation, properties, passwords, and what stays secret.
use crate::util::{self, chain, coder, file, p, Src};
use crate::write::{self, Sink, PW};
use crate::{check, rt};
use sevenz_rust::{AesEncoderOptions, Error, Password, SevenZMethod, SevenZReader, SevenZWriter};
use sha2::Digest;
use std::io::Read;

const AES: &[u8] = &[6, 0xf1, 7, 1];
/// The cipher stand-in, written down once more.
fn enc(k: &[u8; 32], b: &[u8; 16]) -> [u8; 16] {
    let mut t = [0u8; 16];
    for i in 0..16 {
        t[i] = b[(i + 5) % 16].rotate_left(3) ^ k[i] ^ k[31 - i] ^ (i as u8);
    }
    t
}
/// CBC over whole blocks.
fn cbc(k: &[u8; 32], iv: &[u8; 16], plain: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut last = *iv;
    for b in plain.chunks(16) {
        let mut t = [0u8; 16];
        for i in 0..16 {
            t[i] = b[i] ^ last[i];
        }
        last = enc(k, &t);
        out.extend_from_slice(&last);
    }
    out
}
fn uncbc(k: &[u8; 32], iv: &[u8; 16], c: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut last = *iv;
    for b in c.chunks(16) {
        let mut t = [0u8; 16];
        for i in 0..16 {
            t[(i + 5) % 16] = (b[i] ^ k[i] ^ k[31 - i] ^ (i as u8)).rotate_right(3);
        }
        for i in 0..16 {
            out.push(t[i] ^ last[i]);
        }
        last.copy_from_slice(b);
    }
    out
}
/// The key a password and salt give.
fn kdf(power: u8, salt: &[u8], pw: &[u8]) -> [u8; 32] {
    if power == 63 {
        let mut k = [0u8; 32];
        for (i, b) in salt.iter().chain(pw).take(32).enumerate() {
            k[i] = *b;
        }
        return k;
    }
    let mut all = vec![];
    for i in 0..1u64 << power {
        all.extend_from_slice(salt);
        all.extend_from_slice(pw);
        all.extend_from_slice(&i.to_le_bytes());
    }
    sha2::Sha256::digest(&all).into()
}
fn props(power: u8, salt: &[u8], iv: &[u8]) -> Vec<u8> {
    let (s, i) = (salt.len() as u8, iv.len() as u8);
    let mut v = vec![power, 0];
    if i > 0 {
        v[0] |= 0x40;
        v[1] |= i - 1;
    }
    if s > 0 {
        v[0] |= 0x80;
        v[1] |= (s - 1) << 4;
    }
    v.extend_from_slice(salt);
    v.extend_from_slice(iv);
    v
}
fn pad(iv: &[u8]) -> [u8; 16] {
    let mut v = [0; 16];
    v[..iv.len()].copy_from_slice(iv);
    v
}
/// Decryption of a whole stream, however it arrives and is asked for. params: content length, delivery, read size, bytes the
/// packed stream is cut by, symbolic bytes of the content's end
pub fn h_aes_dec() {
    let (n, max, chunk, cut, sym) = (p(0), p(1), p(2), p(3), p(4));
    let mut plain: Vec<u8> = (0..n.saturating_sub(sym)).map(|i| i as u8).collect();
    plain.extend_from_slice(&rt::vec(n.min(sym)));
    let mut padded = plain.clone();
    padded.resize((n + 15) / 16 * 16, 0x77);
    let iv = rt::bytes::<16>();
    let pw = [b'p' as u16, 0xe9];
    let k = kdf(0, &[1, 2, 3], &[b'p', 0, 0xe9, 0]);
    let mut c = cbc(&k, &iv, &padded);
    c.truncate(c.len() - cut);
    let mut f = chain(&[coder(AES, &props(0, &[1, 2, 3], &iv))], &[n as u64]);
    f.subs = vec![(n as u64, None)];
    let h = util::header(0, &[(c.len() as u64, None)], &[f], &[file("a")]);
    let r = util::extract(util::archive(&c, &h), max, chunk, n + 40, &pw);
    // what the whole blocks hold is there; nothing is invented for what is missing
    match r {
        Ok(r) => {
            check!(c.len() >= n);
            check!(r.len() == 1 && r[0].1 == plain);
            rt::reach(1);
        }
        Err(_) => {
            check!(cut > 0 && c.len() < padded.len());
            rt::reach(2);
        }
    }
}
/// The derived key and the vector. params: power, salt bytes, vector bytes, password characters, of these symbolic
pub fn h_aes_key() {
    let (power, s, i, l, sym) = (p(0) as u8, p(1), p(2), p(3), p(4));
    let mut salt = vec![9; s];
    let mut iv = vec![7; i];
    let mut pw: Vec<u16> = vec![0x41; l];
    if sym & 1 != 0 {
        salt = rt::vec(s);
    }
    if sym & 2 != 0 {
        iv = rt::vec(i);
    }
    if sym & 4 != 0 {
        pw = (0..l).map(|_| rt::u16()).collect();
    }
    let bytes: Vec<u8> = pw.iter().flat_map(|c| c.to_le_bytes()).collect();
    let c: Vec<u8> = (0..32).collect();
    let plain = uncbc(&kdf(power, &salt, &bytes), &pad(&iv), &c);
    let mut f = chain(&[coder(AES, &props(power, &salt, &iv))], &[32]);
    f.subs = vec![(32, None)];
    let h = util::header(0, &[(32, None)], &[f], &[file("a")]);
    match util::extract(util::archive(&c, &h), 0, 64, 100, &pw) {
        Ok(r) => {
            check!(r.len() == 1 && r[0].1 == plain);
            rt::reach(1);
        }
        Err(_) => check!(false),
    }
}
/// Arbitrary property bytes. params: bytes, of the first byte's power at most (or from 32 on), password characters
pub fn h_aes_props() {
    let (n, most, l) = (p(0), p(1) as u8, p(2));
    let pr = rt::vec(n);
    if n > 0 {
        rt::assume(pr[0] & 63 <= most || pr[0] & 63 >= 32);
    }
    let mut f = chain(&[coder(AES, &pr)], &[16]);
    f.subs = vec![(16, None)];
    let h = util::header(0, &[(16, None)], &[f], &[file("a")]);
    let pw: Vec<u16> = vec![0x41; l];
    let r = util::extract(util::archive(&[5; 16], &h), 0, 64, 100, &pw);
    let power = if n > 0 { pr[0] & 63 } else { 0 };
    let salt = if n > 1 { (pr[0] >> 7) as usize + (pr[1] >> 4) as usize } else { 0 };
    let iv = if n > 1 { (pr[0] >> 6 & 1) as usize + (pr[1] & 15) as usize } else { 0 };
    let fits = n >= 2 && 2 + salt + iv <= n;
    match r {
        Ok(_) => {
            check!(l > 0 && fits && (power <= most || power == 63));
            rt::reach(1);
        }
        Err(e) => {
            check!(l == 0 || !fits || power > 31 && power < 63);
            check!(l > 0 || !fits || matches!(e, Error::PasswordRequired));
            rt::reach(2);
        }
    }
}
/// What is written is what was agreed on. params: content lengths (hex digits, per push), delivery, short writes
pub fn h_aes_enc() {
    let (lens, n, max, short) = (p(0), p(1), p(2), p(3));
    let sink = Sink::new(short);
    let mut w = match SevenZWriter::new(sink.clone()) {
        Ok(w) => w,
        Err(_) => return check!(false),
    };
    let o = AesEncoderOptions { password: Password::from(PW), iv: rt::bytes(), salt: [0x31; 16], num_cycles_power: 1 };
    let (iv, salt, power) = (o.iv, o.salt, o.num_cycles_power);
    check!(o.properties()[..] == props(power, &salt, &iv)[..]);
    w.set_content_methods(vec![o.into()]);
    let k = kdf(power, &salt, &[b'p', 0, 0xe9, 0]);
    let mut at = 32;
    for i in 0..n {
        let len = lens >> (8 * i) & 255;
        let data = rt::vec(len);
        let e = match w.push_archive_entry(write::ent("a"), Some(Src::new(data.clone(), max))) {
            Ok(e) => e,
            Err(_) => return check!(false),
        };
        let packed = (len + 15) / 16 * 16;
        check!(e.compressed_size == packed as u64 && e.size == len as u64);
        let l = sink.0.borrow();
        check!(l.data.len() == at + packed);
        let mut padded = data;
        padded.resize(packed, 0);
        // (the padding is the writer's choice: zeros)
        check!(l.data[at..] == cbc(&k, &iv, &padded)[..]);
        at += packed;
    }
    rt::reach(1);
}
/// Passwords are UTF-16LE. params: bytes of text
pub fn h_password() {
    let n = p(0);
    let b = rt::vec(n);
    let Ok(s) = std::str::from_utf8(&b) else { return };
    let mut want = vec![];
    let mut i = 0;
    while i < n {
        let (c, k) = match b[i] {
            x if x < 0x80 => (x as u32, 1),
            x if x < 0xe0 => ((x as u32 & 31) << 6 | b[i + 1] as u32 & 63, 2),
            x if x < 0xf0 => ((x as u32 & 15) << 12 | (b[i + 1] as u32 & 63) << 6 | b[i + 2] as u32 & 63, 3),
            x => ((x as u32 & 7) << 18 | (b[i + 1] as u32 & 63) << 12 | (b[i + 2] as u32 & 63) << 6 | b[i + 3] as u32 & 63, 4),
        };
        i += k;
        if c < 0x10000 {
            want.extend_from_slice(&(c as u16).to_le_bytes());
        } else {
            want.extend_from_slice(&((0xd800 + (c - 0x10000 >> 10)) as u16).to_le_bytes());
            want.extend_from_slice(&((0xdc00 + (c - 0x10000 & 0x3ff)) as u16).to_le_bytes());
        }
    }
    let pw = Password::from(s);
    check!(pw.as_slice() == &want[..] && pw.as_ref() == &want[..] && pw.is_empty() == (n == 0));
    let units: Vec<u16> = want.chunks(2).map(|c| c[0] as u16 | (c[1] as u16) << 8).collect();
    check!(Password::from(&units[..]) == pw && pw.clone().to_vec() == want);
    rt::reach(1);
}
/// Every set of options draws its own salt and vector. params: sets
#[allow(static_mut_refs)]
pub fn h_random() {
    let n = p(0);
    unsafe { rt::RANDOM = 400 };
    let o: Vec<AesEncoderOptions> = (0..n).map(|_| AesEncoderOptions::new(Password::from("a"))).collect();
    let d = unsafe { rt::DRAWN.clone() };
    check!(d.len() >= n * 8);
    // as long as the drawn bytes of a set differ from those of the others (in any one place), so do its salts and vectors
    let flat: Vec<u8> = o.iter().flat_map(|o| o.iv.iter().chain(&o.salt).copied().collect::<Vec<u8>>()).collect();
    let src: Vec<u8> = d.iter().flat_map(|w| w.to_le_bytes()).collect();
    let mut distinct = true;
    for i in 0..src.len() {
        for j in 0..i {
            distinct &= i % 4 != j % 4 || src[i] != src[j];
        }
    }
    rt::assume(distinct);
    rt::reach(1);
    for i in 0..flat.len() {
        for j in 0..i {
            check!(i / 16 == j / 16 || i % 16 != j % 16 || flat[i] != flat[j]);
        }
    }
}
fn has(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}
/// Without the password (or with another one) nothing is learnt. params: methods (0 AES, 1 AES over LZMA2), entries pushed as
/// block, header encrypted, extra entry without content, wrong password
pub fn h_secret() {
    let (m, solid, enc, extra, wrong) = (p(0), p(1), p(2), p(3), p(4));
    let sink = Sink::new(0);
    let mut w = match SevenZWriter::new(sink.clone()) {
        Ok(w) => w,
        Err(_) => return check!(false),
    };
    let mut ms = vec![write::aes(5, PW)];
    if m != 0 {
        ms.push(SevenZMethod::LZMA2.into());
    }
    w.set_content_methods(ms);
    w.set_encrypt_header(enc != 0);
    let data = b"the quick brown fox jumps over the lazy dog";
    let names = ["first name", "second name", "third name"];
    let src = |d: &[u8]| Src::new(d.to_vec(), 0);
    let ok = if solid != 0 {
        let rs = vec![sevenz_rust::SourceReader::new(src(data)), sevenz_rust::SourceReader::new(src(&data[3..]))];
        w.push_archive_entries(vec![write::ent(names[0]), write::ent(names[1])], sevenz_rust::SeqReader::new(rs)).is_ok()
    } else {
        w.push_archive_entry(write::ent(names[0]), Some(src(data))).is_ok() && w.push_archive_entry(write::ent(names[1]), Some(src(&data[3..]))).is_ok()
    };
    check!(ok);
    if extra != 0 {
        let mut e = write::ent(names[2]);
        e.is_directory = extra == 1;
        check!(w.push_archive_entry::<Src>(e, None).is_ok());
    }
    check!(w.finish().is_ok());
    let arc = sink.0.borrow().data.clone();
    for k in 0..data.len() - 12 {
        check!(!has(&arc, &data[k..k + 12]));
    }
    if enc != 0 {
        for n in names {
            let u: Vec<u8> = n.bytes().flat_map(|b| [b, 0]).collect();
            check!(!has(&arc, n.as_bytes()) && !has(&arc, &u));
            check!(!has(&arc, &u[..8]));
        }
    }
    let pw = match wrong {
        0 => Password::empty(),
        1 => Password::from("p\u{e9}\u{e9}"),
        2 => Password::from("p"),
        3 => Password::from("P\u{e9}"),
        _ => Password::from("anything else, and longer than the cipher's block"),
    };
    let len = arc.len() as u64;
    match SevenZReader::new(Src::new(arc.clone(), 0), len, pw) {
        Err(e) => {
            check!(enc != 0);
            check!(wrong != 0 || matches!(e, Error::PasswordRequired));
        }
        Ok(mut r) => {
            check!(enc == 0);
            let mut leaked = false;
            let res = r.for_each_entries(|_, rd| {
                let mut b = vec![];
                let ok = rd.read_to_end(&mut b).is_ok();
                leaked |= has(&b, &data[3..12]);
                if !ok {
                    return Err(Error::other("x"));
                }
                Ok(true)
            });
            check!(res.is_err() && !leaked);
            check!(wrong != 0 || matches!(res, Err(Error::PasswordRequired)));
        }
    }
    rt::reach(1);
}
