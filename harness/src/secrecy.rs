//! C09, C10, C11: encryption and corruption.
use crate::arc::*;
use crate::blocks::Any;
use crate::fw::{no_panic, Ctx, Obs};
use crate::hostile::{apply, edit, Edit};
use crate::reading::label_arch;
use crate::util::*;
use crate::writing::*;
use crate::writing2::{aes_case, AesCase};
use crate::z7::{self, aes_p, g_arch, utf16, AesP, Chain, GArch, M};
use lzma_rust::CountingWriter;
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sevenz_rust::{Aes256Sha256Decoder, Aes256Sha256Encoder, AesEncoderOptions, Archive, BlockDecoder, Error, Password, SevenZArchiveEntry, SevenZReader};
use std::cell::RefCell;
use std::collections::HashSet;
use std::io::{self, Read, Seek, SeekFrom, Write};

// ------------------------------------------------------------------------------------------ C09
fn c09_encode(c: &AesCase, o: &Obs) -> Result<(), String> {
    let d = c.data.bytes();
    o.nontrivial(d.len() > 16);
    o.label(match d.len() % 16 {
        0 => "whole blocks",
        1 => "one byte over",
        15 => "one byte short",
        _ => "partial block",
    });
    o.label_if(c.power == 0x3f, "unhashed key");
    let p = AesP { power: c.power, salt: c.salt.to_vec(), iv: c.iv.to_vec() };
    let mut opt = AesEncoderOptions::new(pw(&c.password));
    opt.num_cycles_power = c.power;
    opt.salt = c.salt;
    opt.iv = c.iv;
    same("coder properties", &opt.properties(), &p.props())?;
    same("encrypted stream", &c.encode(&d, true)?, &p.encrypt(&utf16(&c.password), &d))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DecCase {
    p: AesP,
    /// UTF-16 units, paired or not
    password: Vec<u16>,
    data: Data,
    src: Splits,
    reads: Splits,
}
fn units() -> BoxedStrategy<Vec<u16>> {
    prop_oneof![
        3 => z7::password().prop_map(|s| s.encode_utf16().collect()),
        1 => pvec(any::<u16>(), 1..40),
        1 => pvec(prop_oneof![32u16..127, 0xd800u16..0xe000], 1..8),
    ]
    .boxed()
}
fn c09_decode(c: &DecCase, o: &Obs) -> Result<(), String> {
    let d = c.data.bytes();
    let key: Vec<u8> = c.password.iter().flat_map(|u| u.to_le_bytes()).collect();
    let lib = Password::from(&c.password[..]);
    same("password bytes", lib.as_slice(), &key)?;
    if let Ok(s) = String::from_utf16(&c.password) {
        same("password bytes", Password::from(&s[..]).as_slice(), &key)?;
    }
    o.nontrivial(d.len() > 16);
    o.label_if(c.p.salt.is_empty(), "no salt");
    o.label_if(c.p.iv.len() < 16, "short IV");
    o.label_if(c.p.power == 0x3f, "unhashed key");
    let enc = c.p.encrypt(&key, &d);
    let mut want = d;
    want.resize(enc.len(), 0);
    let mut r = Aes256Sha256Decoder::new(ShortReader::new(enc, c.src.clone()), &c.p.props(), lib.as_slice()).map_err(|e| format!("decoder: {e}"))?;
    let got = read_all(&mut r, &c.reads, want.len() as u64).map_err(|e| format!("decoding: {e}"))?;
    same("decrypted", &got, &want)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum SeekOp {
    Read(u16),
    To(u32),
    By(i64),
    End(i64),
    Tell,
}
/// Reading and seeking in a decrypted stream: what is read is what the stream has at the position a seek reported.
fn c09_seek(c: &(DecCase, Vec<SeekOp>), o: &Obs) -> Result<(), String> {
    let (c, ops) = c;
    let d = c.data.bytes();
    let key: Vec<u8> = c.password.iter().flat_map(|u| u.to_le_bytes()).collect();
    let enc = c.p.encrypt(&key, &d);
    let mut want = d;
    want.resize(enc.len(), 0);
    let mut r = Aes256Sha256Decoder::new(ShortReader::new(enc, c.src.clone()), &c.p.props(), &key).map_err(|e| format!("decoder: {e}"))?;
    let mut at = 0usize;
    let mut moved = 0;
    for op in ops {
        let seek = match op {
            SeekOp::Read(n) => {
                let mut b = vec![0u8; *n as usize];
                let k = r.read(&mut b).map_err(|e| format!("reading at {at}: {e}"))?;
                if k > b.len() || at + k > want.len() || (k == 0 && !b.is_empty() && at < want.len()) {
                    return Err(format!("{k} bytes read at {at} of {}", want.len()));
                }
                same(&format!("bytes at {at}"), &b[..k], &want[at..at + k])?;
                at += k;
                continue;
            }
            SeekOp::To(n) => SeekFrom::Start(*n as u64),
            SeekOp::By(n) => SeekFrom::Current(*n),
            SeekOp::End(n) => SeekFrom::End(*n),
            SeekOp::Tell => SeekFrom::Current(0),
        };
        let target = match seek {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(n) => at as i128 + n as i128,
            SeekFrom::End(n) => want.len() as i128 + n as i128,
        };
        match r.seek(seek) {
            Ok(p) if p as i128 == target || (target > want.len() as i128 && p == want.len() as u64) => {
                moved += (p as usize != at) as u32;
                at = (p as usize).min(want.len());
            }
            Ok(p) => return Err(format!("{seek:?} at {at} of {} reported {p}", want.len())),
            // only moving on is what a stream of chained blocks promises
            Err(e) if target >= at as i128 && !matches!(seek, SeekFrom::End(_)) => return Err(format!("{seek:?} at {at}: {e}")),
            Err(_) => o.label("refused"),
        }
    }
    o.nontrivial(moved > 0);
    let got = read_all(&mut r, &c.reads, want.len() as u64).map_err(|e| format!("decoding: {e}"))?;
    same(&format!("the rest, from {at}"), &got, &want[at..])
}
/// The writer's archives with AES, read by the independent reader.
fn c09_written(h: &Hist, o: &Obs) -> Result<(), String> {
    h.label(o);
    let (bytes, _) = h.write(MemFile::new(), true)?;
    let p = check_format(&bytes, &h.password, &h.want(), false)?;
    let n = p.s.folders.iter().filter(|f| f.coders.iter().any(|c| c.id == M::Aes(no_aes()).id())).count();
    o.label_if(n > 0, "encrypted folder");
    o.nontrivial(n > 0);
    Ok(())
}
fn no_aes() -> AesP {
    AesP { power: 0, salt: vec![], iv: vec![] }
}
fn force_aes(g: &mut GArch, a: &[AesP]) {
    for (b, p) in g.blocks.iter_mut().zip(a) {
        if let Chain::Linear(v) = &mut b.chain {
            if !v.iter().any(|m| m.is_aes()) {
                v.push(M::Aes(p.clone()));
            }
        } else if let Chain::Bcj2(_, sides) = &mut b.chain {
            for v in sides {
                v.retain(|m| !m.is_aes());
                v.push(M::Aes(p.clone()));
            }
        }
    }
}
/// Archives of the independent writer with AES, read by the library.
fn c09_read(c: &(GArch, Vec<AesP>, Splits, Splits), o: &Obs) -> Result<(), String> {
    let mut g = c.0.clone();
    force_aes(&mut g, &c.1);
    label_arch(&g, o);
    o.nontrivial(g.blocks.iter().any(|b| !b.entries.is_empty()));
    let (s, want) = g.spec();
    let (a, v) = read_archive(s.build().bytes, &c.2, &g.password, &How::with(&c.3)).map_err(|e| format!("reading: {e}"))?;
    check_records(&a, &want)?;
    check_visits(&v, &want)
}
/// A stream that grows beyond 4 GiB.
fn c09_long(c: &(AesP, u32), o: &Obs) -> Result<(), String> {
    struct Check {
        total: u64,
        tail: Vec<u8>,
    }
    impl Write for Check {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.total += b.len() as u64;
            if self.tail.len() > 1 << 16 {
                self.tail.drain(..1 << 15);
            }
            self.tail.extend_from_slice(&b[b.len().saturating_sub(1 << 12)..]);
            Ok(b.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    o.nontrivial(true);
    let mut opt = AesEncoderOptions::new(pw("pw"));
    opt.num_cycles_power = c.0.power;
    let mut sink = Check { total: 0, tail: vec![] };
    let total = (1u64 << 32) + c.1 as u64;
    {
        let mut w = Aes256Sha256Encoder::new(CountingWriter::new(&mut sink), &opt).map_err(|e| format!("encoder: {e}"))?;
        let block = vec![0x5au8; 1 << 20];
        let mut left = total;
        while left > 0 {
            let n = left.min(1 << 20);
            w.write_all(&block[..n as usize]).map_err(|e| format!("after {} bytes: {e}", total - left))?;
            left -= n;
        }
        w.write(&[]).map_err(|e| format!("finish: {e}"))?;
    }
    if sink.total != total.div_ceil(16) * 16 {
        return Err(format!("{} bytes written for {total}", sink.total));
    }
    // CBC: the last blocks follow from the one before
    let t = &sink.tail[sink.tail.len() - 64..];
    let p = AesP { power: c.0.power, salt: opt.salt.to_vec(), iv: t[..16].to_vec() };
    let want = p.decrypt(&utf16("pw"), &t[16..])?;
    let rest = (total % 16) as usize;
    let mut exp = vec![0x5au8; 48];
    if rest > 0 {
        exp[32 + rest..].fill(0);
    }
    same("end of the stream", &want, &exp)
}
pub fn c09(cx: &Ctx) {
    cx.rule("more than one block of content; for archives: at least one encrypted folder with entries");
    cx.assume("the AES block cipher and SHA-256 of the RustCrypto crates; key derivation, chaining and padding are the harness's own");
    cx.run("encode", cx.n(300_000, 5_000_000), || aes_case(3_000), c09_encode);
    cx.run(
        "decode",
        cx.n(300_000, 5_000_000),
        || {
            (aes_p(9), units(), data(3_000), splits(), splits())
                .prop_map(|(p, password, data, src, reads)| DecCase { p, password, data, src, reads })
                .boxed()
        },
        c09_decode,
    );
    cx.run(
        "seek",
        cx.n(60_000, 1_000_000),
        || {
            let op = prop_oneof![
                4 => prop_oneof![0u16..40, 0u16..1200].prop_map(SeekOp::Read),
                2 => (0u32..3_200).prop_map(SeekOp::To),
                3 => prop_oneof![0i64..40, -20i64..1200].prop_map(SeekOp::By),
                1 => prop_oneof![Just(0i64), -100i64..10, any::<i64>()].prop_map(SeekOp::By),
                1 => (-50i64..3).prop_map(SeekOp::End),
                1 => Just(SeekOp::Tell),
            ];
            let c = (aes_p(3), units(), data(3_000), splits(), splits())
                .prop_map(|(p, password, data, src, reads)| DecCase { p, password, data, src, reads });
            (c, pvec(op, 1..12)).boxed()
        },
        c09_seek,
    );
    // the exponent 7-Zip itself uses
    cx.run(
        "decode-default",
        cx.n(40, 200),
        || {
            (pvec(any::<u8>(), 0..=16), pvec(any::<u8>(), 0..=16), 18u8..20, units(), data(300), splits(), splits())
                .prop_map(|(salt, iv, power, password, data, src, reads)| DecCase { p: AesP { power, salt, iv }, password, data, src, reads })
                .boxed()
        },
        c09_decode,
    );
    cx.run("written", cx.n(6_000, 60_000), || aes_hist(3_000, 6), c09_written);
    cx.run("read", cx.n(12_000, 200_000), || (g_arch(2_000, true), pvec(aes_p(7), 4), splits(), splits()).boxed(), c09_read);
    cx.cpu_limit(200);
    cx.run("long", cx.n(1, 3), || (aes_p(3), 0u32..100).boxed(), c09_long);
}

// ------------------------------------------------------------------------------------------ C10
/// Histories in which every list of methods encrypts.
fn aes_hist(max: u32, ops: usize) -> BoxedStrategy<Hist> {
    (hist(max, ops, true), aes_method(), any::<bool>())
        .prop_map(|(mut h, a, lead)| {
            let mut seen = false;
            for o in &mut h.ops {
                if let WOp::Methods(m) = o {
                    if !m.iter().any(|m| m.is_aes()) {
                        m.insert(if lead { 0 } else { m.len() }, a.clone());
                    }
                    seen = true;
                }
            }
            if !seen || !matches!(h.ops[0], WOp::Methods(_)) {
                h.ops.insert(0, WOp::Methods(vec![a, WM::Lzma2Num(4096)]));
            }
            h
        })
        .boxed()
}
/// Another password made from the right one.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Wrong {
    None,
    Other(String),
    Cut,
    Append(char),
    Prepend(char),
    Case,
    Reverse,
    Twice,
    Swap(u8),
}
fn wrong() -> BoxedStrategy<Wrong> {
    prop_oneof![
        2 => Just(Wrong::None),
        3 => z7::password().prop_map(Wrong::Other),
        1 => Just(Wrong::Cut),
        1 => prop_oneof![Just('\0'), Just(' '), Just('\n'), any::<char>()].prop_map(Wrong::Append),
        1 => prop_oneof![Just('\0'), Just(' '), any::<char>()].prop_map(Wrong::Prepend),
        1 => Just(Wrong::Case),
        1 => Just(Wrong::Reverse),
        1 => Just(Wrong::Twice),
        2 => any::<u8>().prop_map(Wrong::Swap),
    ]
    .boxed()
}
impl Wrong {
    fn of(&self, p: &str) -> String {
        match self {
            Wrong::None => String::new(),
            Wrong::Other(s) => s.clone(),
            Wrong::Cut => {
                let mut c: Vec<char> = p.chars().collect();
                c.pop();
                c.into_iter().collect()
            }
            Wrong::Append(c) => format!("{p}{c}"),
            Wrong::Prepend(c) => format!("{c}{p}"),
            Wrong::Case => p.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
            Wrong::Reverse => p.chars().rev().collect(),
            Wrong::Twice => format!("{p}{p}"),
            Wrong::Swap(i) => {
                let mut c: Vec<char> = p.chars().collect();
                let n = c.len();
                let k = *i as usize % n;
                c[k] = if c[k] == 'x' { 'y' } else { 'x' };
                c.into_iter().collect()
            }
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct WrongCase {
    a: Any,
    wrong: Wrong,
    reads: Splits,
}
/// Every AES coder of the folder has another key under the other password.
fn keys_differ(a: &Archive, i: usize, p: &[u8], q: &[u8]) -> Option<bool> {
    let mut any = None;
    for c in &a.folders[i].coders {
        if c.decompression_method_id() == M::Aes(no_aes()).id() {
            let x = AesP::from_props(&c.properties).ok()?;
            if q.is_empty() {
                return Some(true);
            }
            let d = z7::aes_key(x.power, &x.salt, p) != z7::aes_key(x.power, &x.salt, q);
            any = Some(any.unwrap_or(false) || d);
        }
    }
    any
}
fn aes_any(max: u32) -> BoxedStrategy<Any> {
    let g = (g_arch(max, true), pvec(aes_p(6), 4), prop::option::weighted(0.25, aes_p(6))).prop_map(|(mut g, a, head)| {
        force_aes(&mut g, &a);
        all_crcs(&mut g);
        if let Some(p) = head {
            g.h.encoded = Some(vec![M::Lzma2(small_opts()), M::Aes(p)]);
            g.h.enc_crc = true;
        }
        Any::G(g)
    });
    let h = (aes_hist(max, 5), any::<bool>()).prop_map(|(mut h, plain)| {
        if plain {
            h.ops.push(WOp::EncHeader(false));
        }
        Any::H(h)
    });
    prop_oneof![2 => g, 1 => h].boxed()
}
fn small_opts() -> crate::codec::ForeignOpts {
    crate::codec::ForeignOpts { lc: 3, lp: 0, pb: 2, dict: 4096, mode: 1, nice: 32, mf: 0x14, depth: 0 }
}
/// Without a checksum nothing can be noticed.
fn all_crcs(g: &mut GArch) {
    for b in &mut g.blocks {
        for e in &mut b.entries {
            e.crc = true;
        }
    }
    g.h.enc_crc = true;
}
fn c10_wrong(c: &WrongCase, o: &Obs) -> Result<(), String> {
    let (bytes, right) = c.a.build()?;
    c.a.label(o);
    let other = c.wrong.of(&right);
    if other == right {
        return Ok(());
    }
    let (orig, seen) = read_archive(bytes.clone(), &Splits::whole(), &right, &How::plain()).map_err(|e| format!("with the right password: {e}"))?;
    let head = match &c.a {
        Any::G(g) => {
            match &g.h.encoded {
                Some(v) => v.iter().find_map(|m| if let M::Aes(p) = m { Some(p.clone()) } else { None }),
                None => None,
            }
        }
        Any::H(_) => {
            let p = z7::parse(&bytes, &utf16(&right))?;
            p.enc.and_then(|s| s.folders[0].coders.iter().find(|c| c.id == M::Aes(no_aes()).id()).and_then(|c| AesP::from_props(&c.props.clone().unwrap_or_default()).ok()))
        }
    };
    let (p, q) = (utf16(&right), utf16(&other));
    let pass = Password::from(&other[..]);
    let opened = no_panic(|| SevenZReader::new(io::Cursor::new(&bytes), bytes.len() as u64, pass.clone()).map(|r| r.archive().clone()))?;
    if let Some(h) = &head {
        if q.is_empty() || z7::aes_key(h.power, &h.salt, &p) != z7::aes_key(h.power, &h.salt, &q) {
            o.label("header encrypted");
            o.nontrivial(true);
            // as the header of an archive without entries is only a few bytes long, a wrong one is at best unreadable
            return match opened {
                Err(_) => Ok(()),
                Ok(a) if a.files.is_empty() && seen.is_empty() => Ok(()),
                Ok(a) => Err(format!("an encrypted header opens with a wrong password ({} entries)", a.files.len())),
            };
        }
    }
    let a = opened.map_err(|e| format!("the header is not encrypted, but: {e}"))?;
    if a.files.len() != orig.files.len() {
        return Err("entries differ with another password".into());
    }
    let mut locked = false;
    let mut by_folder: Vec<Vec<&Seen>> = vec![vec![]; a.folders.len()];
    for (i, s) in seen.iter().enumerate() {
        if let Some(Some(f)) = orig.stream_map.file_folder_index.get(i) {
            by_folder[*f].push(s);
        }
    }
    // by block
    for f in 0..a.folders.len() {
        let differ = keys_differ(&a, f, &p, &q) == Some(true);
        let mut src = io::Cursor::new(&bytes);
        let err: RefCell<Option<String>> = RefCell::new(None);
        let at = RefCell::new(0usize);
        let d = BlockDecoder::new(f, &a, &q, &mut src);
        let res = no_panic(|| {
            d.for_each_entries(&mut |e: &SevenZArchiveEntry, rd: &mut dyn Read| {
                let r = How::with(&c.reads).read(rd);
                if let Ok(v) = r {
                    if differ && e.size() >= 6 {
                        *err.borrow_mut() = Some(format!("an encrypted entry of {} bytes is read with a wrong password", e.size()));
                    } else if differ && !v.is_empty() && crc32(&v) as u64 != e.crc {
                        *err.borrow_mut() = Some("wrong content of an encrypted entry is accepted".into());
                    }
                }
                *at.borrow_mut() += 1;
                Ok(true)
            })
        })?;
        let _ = res;
        if let Some(e) = err.into_inner() {
            return Err(e);
        }
        if differ && by_folder[f].iter().any(|s| s.size >= 6) {
            locked = true;
        }
    }
    // all entries
    let (_, res) = no_panic(|| match SevenZReader::new(io::Cursor::new(&bytes), bytes.len() as u64, pass.clone()) {
        Ok(mut r) => visit(&mut r, &How::with(&c.reads)),
        Err(e) => (vec![], Err(e)),
    })?;
    if locked {
        o.nontrivial(true);
        o.label("encrypted content");
        if q.is_empty() {
            o.label("no password");
        }
        if res.is_ok() {
            return Err("iterating with a wrong password succeeds".into());
        }
    }
    Ok(())
}
fn windows(v: &[u8]) -> HashSet<u64> {
    v.windows(8).map(|w| u64::from_le_bytes(w.try_into().unwrap())).collect()
}
fn distinct(w: &[u8]) -> usize {
    let mut s = [false; 256];
    w.iter().filter(|b| !std::mem::replace(&mut s[**b as usize], true)).count()
}
fn find(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}
fn c10_clear(h: &Hist, o: &Obs) -> Result<(), String> {
    let mut h = h.clone();
    h.ops.push(WOp::EncHeader(true));
    let (bytes, _) = h.write(MemFile::new(), true)?;
    h.label(o);
    let head = 32 + u64::from_le_bytes(bytes[12..20].try_into().unwrap()) as usize;
    let (data, stub) = (&bytes[32..head], &bytes[head..]);
    let entries = h.entries();
    o.nontrivial(!entries.is_empty());
    // the description of the header says that it is encrypted
    if !entries.is_empty() {
        let p = z7::parse(&bytes, &utf16(&h.password))?;
        match &p.enc {
            None => return Err("the header is stored as it is".into()),
            Some(s) if !s.folders[0].coders.iter().any(|c| c.id == M::Aes(no_aes()).id()) => return Err("the header is packed, but not encrypted".into()),
            _ => {}
        }
        let raw = &p.header;
        let w = windows(data);
        for x in raw.windows(8) {
            if distinct(x) >= 4 && w.contains(&u64::from_le_bytes(x.try_into().unwrap())) {
                return Err(format!("bytes {x:02x?} of the header are in the archive"));
            }
        }
    }
    let w = windows(data);
    for e in &entries {
        let n = utf16(&e.meta.name);
        for n in [n, e.meta.name.clone().into_bytes()] {
            if n.len() >= 6 && distinct(&n) >= 3 && (find(data, &n) || n.len() >= 8 && find(stub, &n)) {
                return Err(format!("the name {:?} is in the archive", e.meta.name));
            }
        }
        if let Kind::File(d) = &e.kind {
            let d = d.bytes();
            o.label_if(d.len() < 16, "less than one block");
            o.label_if(d.len() > 100 && distinct(&d) == 1, "constant content");
            for (k, x) in d.windows(8).enumerate() {
                if (d.len() < 4000 || k % 3 == 0) && distinct(x) >= 3 && w.contains(&u64::from_le_bytes(x.try_into().unwrap())) {
                    return Err(format!("bytes {x:02x?} of the content are in the archive"));
                }
            }
        }
    }
    if data.windows(40).any(|x| distinct(x) == 1) {
        return Err("a run of equal bytes is in the archive".into());
    }
    Ok(())
}
/// Salt and IV are not used twice.
fn c10_fresh(p: &String, o: &Obs) -> Result<(), String> {
    let v: Vec<AesEncoderOptions> = (0..4).map(|_| AesEncoderOptions::new(pw(p))).collect();
    o.nontrivial(true);
    for i in 0..4 {
        for j in 0..i {
            if v[i].salt == v[j].salt || v[i].iv == v[j].iv {
                return Err("options made twice have the same salt or IV".into());
            }
        }
        if v[i].salt == [0; 16] || v[i].iv == [0; 16] {
            return Err("salt or IV are not set".into());
        }
        if v[i].num_cycles_power < 6 {
            return Err(format!("only 2^{} cycles by default", v[i].num_cycles_power));
        }
    }
    Ok(())
}
pub fn c10(cx: &Ctx) {
    cx.rule("something encrypted that a wrong password would have to unlock; for clear text: at least one entry");
    cx.assume("entries have checksums; entries under 6 bytes may by chance decrypt to what their checksum demands, so only their checksum is compared");
    cx.assume("'AES in use' means that the methods set when the archive is finished include it; content is looked for in runs of 8 bytes with at least 3 different values, and in runs of 40 equal bytes");
    cx.cpu_limit(60);
    cx.run("wrong", cx.n(40_000, 400_000), || (aes_any(600), wrong(), splits()).prop_map(|(a, wrong, reads)| WrongCase { a, wrong, reads }).boxed(), c10_wrong);
    cx.run("wrong-large", cx.n(1_000, 20_000), || (aes_any(40_000), wrong(), splits()).prop_map(|(a, wrong, reads)| WrongCase { a, wrong, reads }).boxed(), c10_wrong);
    cx.run("clear", cx.n(20_000, 150_000), || aes_hist(600, 6), c10_clear);
    cx.run("clear-large", cx.n(200, 10_000), || aes_hist(40_000, 5), c10_clear);
    cx.run("fresh", cx.n(500, 10_000), || z7::password(), c10_fresh);
}

// ------------------------------------------------------------------------------------------ C11
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Where {
    Start,
    Data,
    Header,
    Anywhere,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Broken {
    a: Any,
    edits: Vec<(Where, Edit)>,
    src: Splits,
    reads: Splits,
    /// entries read up to their size only
    exact: bool,
    /// the callback goes on after an error
    go_on: bool,
}
fn flaw() -> BoxedStrategy<Edit> {
    let p = || prop_oneof![4 => any::<u32>(), 1 => 0u32..32];
    prop_oneof![
        10 => (p(), 0u8..8).prop_map(|(p, b)| Edit::Flip(p, b)),
        8 => (p(), any::<u8>()).prop_map(|(p, b)| Edit::Set(p, b)),
        6 => (p(), 1u16..60, prop_oneof![Just(0u8), Just(255), any::<u8>()]).prop_map(|(p, n, b)| Edit::Fill(p, n, b)),
        1 => p().prop_map(Edit::Cut),
        4 => edit(),
    ]
    .boxed()
}
fn broken(max: u32) -> BoxedStrategy<Broken> {
    let g = g_arch(max, true).prop_map(|mut g| {
        all_crcs(&mut g);
        Any::G(g)
    });
    let w = prop_oneof![1 => Just(Where::Start), 6 => Just(Where::Data), 3 => Just(Where::Header), 1 => Just(Where::Anywhere)];
    (
        prop_oneof![3 => g, 1 => hist(max, 5, true).prop_map(Any::H)],
        prop_oneof![4 => pvec((w.clone(), flaw()), 1..2), 1 => pvec((w, flaw()), 2..4)],
        splits(),
        splits(),
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(a, edits, src, reads, exact, go_on)| Broken { a, edits, src, reads, exact, go_on })
        .boxed()
}
fn deface(bytes: &mut Vec<u8>, edits: &[(Where, Edit)]) {
    let head = (32 + u64::from_le_bytes(bytes[12..20].try_into().unwrap()) as usize).min(bytes.len());
    for (w, e) in edits {
        let n = bytes.len();
        let (a, b) = match w {
            Where::Start => (0, 32.min(n)),
            Where::Data => (32.min(n), head.min(n)),
            Where::Header => (head.min(n), n),
            Where::Anywhere => (0, n),
        };
        if let Edit::Cut(p) = e {
            bytes.truncate(a + *p as usize % (b - a).max(1));
            continue;
        }
        let mut part = bytes[a..b].to_vec();
        apply(&mut part, e);
        bytes.splice(a..b, part);
    }
}
fn c11_one(c: &Broken, o: &Obs) -> Result<(), String> {
    let (orig, p) = c.a.build()?;
    let (arch, want) = read_archive(orig.clone(), &Splits::whole(), &p, &How::plain()).map_err(|e| format!("before any damage: {e}"))?;
    let mut bytes = orig.clone();
    deface(&mut bytes, &c.edits);
    if bytes == orig {
        return Ok(());
    }
    if bytes.len() >= 32 && bytes[8..32].iter().all(|b| *b == 0) {
        // says that the start header was never written; what is then found has no checksum
        o.label("start header lost");
        return Ok(());
    }
    let d = match &c.a {
        Any::G(_) => "independent writer",
        Any::H(_) => "library writer",
    };
    o.label(d);
    for (w, _) in &c.edits {
        o.label(match w {
            Where::Start => "start header",
            Where::Data => "packed data",
            Where::Header => "end header",
            Where::Anywhere => "anywhere",
        });
    }
    o.nontrivial(!want.is_empty());
    if arch.files.len() != want.len() {
        return Err("not every entry is visited".into());
    }
    let len = bytes.len() as u64;
    let r = no_panic(|| SevenZReader::new(ShortReader::new(bytes.clone(), c.src.clone()), len, pw(&p)))?;
    let mut r = match r {
        Ok(r) => r,
        Err(_) => {
            o.label("refused on opening");
            return Ok(());
        }
    };
    let a = r.archive().clone();
    if a.files.len() != arch.files.len() {
        return Err(format!("{} entries, there were {}", a.files.len(), arch.files.len()));
    }
    for (i, (x, y)) in a.files.iter().zip(&arch.files).enumerate() {
        if rec_of(x) != rec_of(y) || x.size != y.size {
            return Err(format!("entry {i} reads {:?} (size {}), it was {:?} (size {})", rec_of(x), x.size, rec_of(y), y.size));
        }
    }
    let mut bad = 0;
    let mut good = 0;
    let mut at = 0usize;
    let wrong: RefCell<Option<String>> = RefCell::new(None);
    let how = How::with(&c.reads);
    let mut one = |e: &SevenZArchiveEntry, rd: &mut dyn Read, w: Option<&Seen>| -> Result<bool, Error> {
        let res = if c.exact {
            let mut v = vec![0u8; e.size() as usize];
            rd.read_exact(&mut v).map(|_| v)
        } else {
            how.read(rd)
        };
        match res {
            Ok(v) => {
                good += 1;
                if w.map(|w| w.data != v || w.rec != rec_of(e)).unwrap_or(true) {
                    let n = w.map(|w| w.data.len()).unwrap_or(0);
                    *wrong.borrow_mut() = Some(format!("entry {:?} of {n} bytes is read as {} other bytes without an error", e.name(), v.len()));
                    return Ok(false);
                }
                Ok(true)
            }
            Err(_) if c.go_on => {
                bad += 1;
                Ok(true)
            }
            Err(x) => {
                bad += 1;
                Err(Error::io(x))
            }
        }
    };
    let res = no_panic(|| {
        r.for_each_entries(|e, rd| {
            let w = want.get(at);
            at += 1;
            one(e, rd, w)
        })
    })?;
    if let Some(e) = wrong.borrow_mut().take() {
        return Err(e);
    }
    if res.is_ok() && at != want.len() {
        return Err(format!("iteration succeeds with {at} of {} entries", want.len()));
    }
    // block by block
    let key = utf16(&p);
    let mut k = 0;
    for f in 0..a.folders.len() {
        let mut src = ShortReader::new(bytes.clone(), c.src.clone());
        let d = BlockDecoder::new(f, &a, &key, &mut src);
        let n = d.entry_count();
        let first = k;
        let mut at = 0usize;
        let res = no_panic(|| {
            d.for_each_entries(&mut |e: &SevenZArchiveEntry, rd: &mut dyn Read| {
                let w = want.get(first + at);
                at += 1;
                one(e, rd, w)
            })
        })?;
        if let Some(e) = wrong.borrow_mut().take() {
            return Err(format!("block {f}: {e}"));
        }
        if res.is_ok() && at != n {
            return Err(format!("block {f} succeeds with {at} of {n} entries"));
        }
        k += n;
    }
    o.label_if(bad > 0, "error while reading");
    o.label_if(bad > 0 && good > 0, "some entries unharmed");
    o.label_if(bad == 0, "harmless");
    Ok(())
}
pub fn c11(cx: &Ctx) {
    cx.rule("the bytes differ from the original's and there are entries");
    cx.assume("entries and packed headers have checksums, and CRC-32 does not collide on the generated damage; a start header that was zeroed says that nothing vouches for the header");
    cx.cpu_limit(60);
    cx.run("small", cx.n(100_000, 2_000_000), || broken(300), c11_one);
    cx.run("medium", cx.n(3_000, 100_000), || broken(20_000), c11_one);
}
