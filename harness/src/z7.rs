//! The 7z container, written from the published format description: an archive writer able to produce everything
//! a conforming writer may, and a strict parser. Neither shares code with the library under test.
use crate::codec::{foreign_opts, ForeignOpts};
use crate::liblzma as ll;
use crate::util::*;
use crate::util::Rng;
use aes::cipher::{generic_array::GenericArray, BlockDecrypt, BlockEncrypt, KeyInit};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};
use std::collections::HashMap;
use std::sync::Mutex;

pub const ID_COPY: &[u8] = &[0];
pub const ID_LZMA: &[u8] = &[3, 1, 1];
pub const ID_LZMA2: &[u8] = &[0x21];
pub const ID_BZIP2: &[u8] = &[4, 2, 2];
pub const ID_ZSTD: &[u8] = &[4, 0xf7, 0x11, 1];
pub const ID_AES: &[u8] = &[6, 0xf1, 7, 1];
pub const ID_DELTA: &[u8] = &[3];
pub const ID_BCJ2: &[u8] = &[3, 3, 1, 0x1b];
pub const BCJ_IDS: [&[u8]; 5] = [&[3, 3, 1, 3], &[3, 3, 2, 5], &[3, 3, 5, 1], &[3, 3, 7, 1], &[3, 3, 8, 5]];
pub const BCJ_FILTERS: [u64; 5] = [ll::F_X86, ll::F_PPC, ll::F_ARM, ll::F_ARMT, ll::F_SPARC];

// ------------------------------------------------------------------------------------- AES-256 CBC
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AesP {
    pub power: u8,
    pub salt: Vec<u8>,
    pub iv: Vec<u8>,
}
pub fn utf16(pw: &str) -> Vec<u8> {
    pw.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}
type KeyCache = HashMap<(u8, Vec<u8>, Vec<u8>), [u8; 32]>;
pub fn aes_key(power: u8, salt: &[u8], password: &[u8]) -> [u8; 32] {
    static CACHE: Mutex<Option<KeyCache>> = Mutex::new(None);
    if power == 0x3f {
        let mut k = [0u8; 32];
        for (i, b) in salt.iter().chain(password).take(32).enumerate() {
            k[i] = *b;
        }
        return k;
    }
    let key = (power, salt.to_vec(), password.to_vec());
    if power > 12 {
        if let Some(k) = CACHE.lock().unwrap().get_or_insert_with(HashMap::new).get(&key) {
            return *k;
        }
    }
    let mut h = Sha256::new();
    for round in 0u64..1u64 << power {
        h.update(salt);
        h.update(password);
        h.update(round.to_le_bytes());
    }
    let k: [u8; 32] = h.finalize().into();
    if power > 12 {
        CACHE.lock().unwrap().get_or_insert_with(HashMap::new).insert(key, k);
    }
    k
}
impl AesP {
    pub fn props(&self) -> Vec<u8> {
        let (s, v) = (self.salt.len(), self.iv.len());
        let mut p = vec![self.power & 63 | ((s > 0) as u8) << 7 | ((v > 0) as u8) << 6];
        if s > 0 || v > 0 {
            p.push((s.saturating_sub(1) as u8) << 4 | v.saturating_sub(1) as u8);
            p.extend_from_slice(&self.salt);
            p.extend_from_slice(&self.iv);
        }
        p
    }
    pub fn from_props(p: &[u8]) -> Result<AesP, String> {
        let b0 = *p.first().ok_or("AES properties empty")?;
        let power = b0 & 63;
        if b0 & 0xc0 == 0 {
            return if p.len() == 1 { Ok(AesP { power, salt: vec![], iv: vec![] }) } else { Err("AES properties".into()) };
        }
        let b1 = *p.get(1).ok_or("AES properties short")?;
        let s = ((b0 >> 7 & 1) + (b1 >> 4)) as usize;
        let v = ((b0 >> 6 & 1) + (b1 & 15)) as usize;
        if p.len() != 2 + s + v {
            return Err("AES properties length".into());
        }
        Ok(AesP { power, salt: p[2..2 + s].to_vec(), iv: p[2 + s..].to_vec() })
    }
    fn iv16(&self) -> [u8; 16] {
        let mut iv = [0u8; 16];
        iv[..self.iv.len()].copy_from_slice(&self.iv);
        iv
    }
    pub fn encrypt(&self, password: &[u8], data: &[u8]) -> Vec<u8> {
        let c = aes::Aes256::new(&GenericArray::from(aes_key(self.power, &self.salt, password)));
        let mut prev = self.iv16();
        let mut out = Vec::with_capacity(data.len() + 16);
        for ch in data.chunks(16) {
            let mut b = [0u8; 16];
            b[..ch.len()].copy_from_slice(ch);
            for i in 0..16 {
                b[i] ^= prev[i];
            }
            let mut g = GenericArray::from(b);
            c.encrypt_block(&mut g);
            prev.copy_from_slice(&g);
            out.extend_from_slice(&g);
        }
        out
    }
    pub fn decrypt(&self, password: &[u8], data: &[u8]) -> Result<Vec<u8>, String> {
        if data.len() % 16 != 0 {
            return Err("AES stream is not a whole number of blocks".into());
        }
        let c = aes::Aes256::new(&GenericArray::from(aes_key(self.power, &self.salt, password)));
        let mut prev = self.iv16();
        let mut out = Vec::with_capacity(data.len());
        for ch in data.chunks(16) {
            let mut g = GenericArray::clone_from_slice(ch);
            c.decrypt_block(&mut g);
            for i in 0..16 {
                out.push(g[i] ^ prev[i]);
            }
            prev.copy_from_slice(ch);
        }
        Ok(out)
    }
}

// ------------------------------------------------------------------------------------- BCJ2
struct Rc {
    low: u64,
    range: u32,
    cache: u8,
    pending: u64,
    out: Vec<u8>,
}
impl Rc {
    fn new() -> Self {
        Rc { low: 0, range: u32::MAX, cache: 0, pending: 1, out: vec![] }
    }
    fn shift(&mut self) {
        if self.low < 0xFF00_0000 || self.low > 0xFFFF_FFFF {
            let carry = (self.low >> 32) as u8;
            let mut c = self.cache;
            while self.pending > 0 {
                self.out.push(c.wrapping_add(carry));
                c = 0xff;
                self.pending -= 1;
            }
            self.cache = (self.low >> 24) as u8;
        }
        self.pending += 1;
        self.low = (self.low & 0x00FF_FFFF) << 8;
    }
    fn bit(&mut self, p: &mut u16, bit: bool) {
        let bound = (self.range >> 11) * *p as u32;
        if !bit {
            self.range = bound;
            *p += (2048 - *p) >> 5;
        } else {
            self.low += bound as u64;
            self.range -= bound;
            *p -= *p >> 5;
        }
        while self.range < 1 << 24 {
            self.range <<= 8;
            self.shift();
        }
    }
}
/// Standard BCJ2 transform; `mode` selects which branches get converted (the encoder is free to choose).
/// Returns main, call, jump and range-coder streams.
pub fn bcj2_encode(data: &[u8], mode: u8) -> [Vec<u8>; 4] {
    let mut e = Bcj2Enc::new(mode, data.len() as u64);
    e.run(data, 0);
    e.finish()
}
/// The transform for content made of runs between zero bytes that are left out of `main`.
pub struct Bcj2Enc {
    pub main: Vec<u8>,
    call: Vec<u8>,
    jump: Vec<u8>,
    rc: Rc,
    probs: [u16; 258],
    prev: u8,
    mode: u8,
    total: u64,
    rnd: Rng,
}
impl Bcj2Enc {
    pub fn new(mode: u8, total: u64) -> Self {
        Bcj2Enc {
            main: vec![],
            call: vec![],
            jump: vec![],
            rc: Rc::new(),
            probs: [1024; 258],
            prev: 0,
            mode,
            total,
            rnd: Rng::new(mode as u64),
        }
    }
    /// zeros up to position `at`
    pub fn gap(&mut self, at: u32) {
        if at > 0 {
            self.prev = 0;
        }
    }
    /// `data` starts at position `at`
    pub fn run(&mut self, data: &[u8], at: u32) {
        let mut i = 0usize;
        while i < data.len() {
            let b = data[i];
            self.main.push(b);
            i += 1;
            let idx = if b == 0xE8 {
                self.prev as usize
            } else if b == 0xE9 {
                256
            } else if self.prev == 0x0F && b & 0xF0 == 0x80 {
                257
            } else {
                self.prev = b;
                continue;
            };
            if data.len() - i >= 4 {
                let src = u32::from_le_bytes(data[i..i + 4].try_into().unwrap());
                let dest = src.wrapping_add(at).wrapping_add(i as u32 + 4);
                let conv = match self.mode % 4 {
                    0 => (dest as u64) < self.total || src >> 24 == 0 || src >> 24 == 0xff,
                    1 => true,
                    2 => false,
                    _ => self.rnd.chance(1, 2),
                };
                self.rc.bit(&mut self.probs[idx], conv);
                if conv {
                    if b == 0xE8 { &mut self.call } else { &mut self.jump }.extend_from_slice(&dest.to_be_bytes());
                    i += 4;
                    self.prev = (src >> 24) as u8;
                    continue;
                }
            } else {
                self.rc.bit(&mut self.probs[idx], false);
            }
            self.prev = b;
        }
    }
    pub fn finish(mut self) -> [Vec<u8>; 4] {
        for _ in 0..5 {
            self.rc.shift();
        }
        [self.main, self.call, self.jump, self.rc.out]
    }
}

// ------------------------------------------------------------------------------------- methods
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum M {
    Copy,
    /// options, end marker written
    Lzma(ForeignOpts, bool),
    Lzma2(ForeignOpts),
    Bzip2(u8),
    Zstd(u8),
    Aes(AesP),
    /// index into BCJ_IDS
    Bcj(u8),
    /// distance - 1
    Delta(u8),
}
/// LZMA2 dictionary property: 2 or 3 times a power of two, 40 for 4 GiB - 1.
pub fn lzma2_prop_dict(p: u8) -> Option<u64> {
    match p {
        0..=39 => Some((2 | (p as u64 & 1)) << (p / 2 + 11)),
        40 => Some(u32::MAX as u64),
        _ => None,
    }
}
pub fn lzma2_prop_for(dict: u64) -> u8 {
    (0..=40).find(|p| lzma2_prop_dict(*p).unwrap() >= dict).unwrap_or(40)
}
fn ext(o: &mut ll::OptLzma, n: Option<usize>) {
    match n {
        Some(n) => {
            o.ext_flags = 0;
            o.ext_size_low = n as u32;
            o.ext_size_high = (n as u64 >> 32) as u32;
        }
        None => {
            o.ext_flags = 1;
            o.ext_size_low = u32::MAX;
            o.ext_size_high = u32::MAX;
        }
    }
}
/// liblzma writes LZMA1 through its LZMA1EXT filter without end marker when the flag is off.
pub fn lzma_raw(o: &ForeignOpts, data: &[u8], eos: bool) -> Vec<u8> {
    let mut l = o.ll(&[]);
    if eos {
        ext(&mut l, None);
    } else {
        ext(&mut l, Some(data.len()));
    }
    ll::raw_encode(&[ll::F::Lzma1Ext(l)], &[(data, None)]).expect("liblzma lzma encode")
}
impl M {
    pub fn is_aes(&self) -> bool {
        matches!(self, M::Aes(_))
    }
    pub fn id(&self) -> &'static [u8] {
        match self {
            M::Copy => ID_COPY,
            M::Lzma(..) => ID_LZMA,
            M::Lzma2(_) => ID_LZMA2,
            M::Bzip2(_) => ID_BZIP2,
            M::Zstd(_) => ID_ZSTD,
            M::Aes(_) => ID_AES,
            M::Bcj(k) => BCJ_IDS[*k as usize % 5],
            M::Delta(_) => ID_DELTA,
        }
    }
    pub fn props(&self) -> Option<Vec<u8>> {
        match self {
            M::Lzma(o, _) => {
                let mut p = vec![((o.pb * 5 + o.lp) * 9 + o.lc) as u8];
                p.extend_from_slice(&o.dict.to_le_bytes());
                Some(p)
            }
            M::Lzma2(o) => Some(vec![lzma2_prop_for(o.dict as u64)]),
            M::Aes(a) => Some(a.props()),
            M::Delta(d) => Some(vec![*d]),
            _ => None,
        }
    }
    pub fn encode(&self, data: &[u8], password: &[u8]) -> Vec<u8> {
        use std::io::Write;
        match self {
            M::Copy => data.to_vec(),
            M::Lzma(o, eos) => lzma_raw(o, data, *eos),
            M::Lzma2(o) => ll::raw_encode(&[ll::F::Lzma2(o.ll(&[]))], &[(data, None)]).expect("liblzma lzma2 encode"),
            M::Bzip2(l) => {
                let mut w = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::new((*l as u32).clamp(1, 9)));
                w.write_all(data).unwrap();
                w.finish().unwrap()
            }
            M::Zstd(l) => zstd::encode_all(data, (*l as i32).clamp(1, 12)).unwrap(),
            M::Aes(a) => a.encrypt(password, data),
            M::Bcj(k) => ll::filter_encode(ll::F::Bcj(BCJ_FILTERS[*k as usize % 5]), data),
            M::Delta(d) => ll::filter_encode(ll::F::Delta(*d as u32 + 1), data),
        }
    }
}

// ------------------------------------------------------------------------------------- container writer
#[derive(Clone, Debug, Default)]
pub struct Coder {
    pub id: Vec<u8>,
    pub props: Option<Vec<u8>>,
    pub nin: u64,
    pub nout: u64,
}
#[derive(Clone, Debug, Default)]
pub struct Folder {
    pub coders: Vec<Coder>,
    pub binds: Vec<(u64, u64)>,
    pub packed: Vec<u64>,
    pub unpack: Vec<u64>,
    pub crc: Option<u32>,
    pub packs: Vec<Vec<u8>>,
    pub subs: Vec<(u64, Option<u32>)>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct FileRec {
    pub name: String,
    pub stream: bool,
    pub dir: bool,
    pub anti: bool,
    pub c: Option<u64>,
    pub a: Option<u64>,
    pub m: Option<u64>,
    pub attr: Option<u32>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PackCrc {
    None,
    All,
    Some(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HdrOpts {
    /// extra bytes of the i-th header number (cyclic)
    pub pads: Vec<u8>,
    pub pack_crc: PackCrc,
    pub gap_before: u16,
    pub gap_after: u16,
    pub arch_props: Vec<(u8, Vec<u8>)>,
    /// leave out records that hold only defaults
    pub omit: bool,
    /// use bit vectors even where all are defined
    pub bits: bool,
    /// order of the file properties
    pub order: u64,
    /// kDummy records of these sizes, and where
    pub dummies: Vec<(u8, u8)>,
    /// unknown file properties
    pub unknown: Vec<(u8, Vec<u8>, u8)>,
    /// write records which define nothing
    pub vacuous: bool,
    pub encoded: Option<Vec<M>>,
    pub enc_crc: bool,
    pub minor: u8,
}
impl HdrOpts {
    pub fn plain() -> Self {
        HdrOpts {
            pads: vec![],
            pack_crc: PackCrc::None,
            gap_before: 0,
            gap_after: 0,
            arch_props: vec![],
            omit: true,
            bits: false,
            order: 0,
            dummies: vec![],
            unknown: vec![],
            vacuous: false,
            encoded: None,
            enc_crc: true,
            minor: 4,
        }
    }
}
pub fn put_num(out: &mut Vec<u8>, v: u64, extra: u8) {
    let mut k = 8u32;
    for c in 0..8 {
        if v >> (7 * (c + 1)) == 0 {
            k = c;
            break;
        }
    }
    let k = (k + extra as u32).min(8);
    if k == 8 {
        out.push(0xff);
    } else {
        let mask = !(0xffu32 >> k) as u8;
        let hi = if k < 8 { (v >> (8 * k)) as u8 } else { 0 };
        out.push(mask | hi);
    }
    for i in 0..k {
        out.push((v >> (8 * i)) as u8);
    }
}
/// Header serialiser; numbers are counted so that one of them can be replaced.
pub struct Emit {
    pub out: Vec<u8>,
    pub nums: usize,
    pads: Vec<u8>,
    pub mutate: Vec<(usize, u64)>,
}
impl Emit {
    pub fn new(pads: &[u8]) -> Self {
        Emit { out: vec![], nums: 0, pads: pads.to_vec(), mutate: vec![] }
    }
    pub fn b(&mut self, v: u8) {
        self.out.push(v)
    }
    pub fn n(&mut self, v: u64) {
        let mut v = v;
        for (k, x) in &self.mutate {
            if *k == self.nums {
                v = *x;
            }
        }
        let pad = if self.pads.is_empty() { 0 } else { self.pads[self.nums % self.pads.len()] };
        self.nums += 1;
        put_num(&mut self.out, v, pad);
    }
    pub fn raw(&mut self, d: &[u8]) {
        self.out.extend_from_slice(d)
    }
    pub fn bits(&mut self, v: &[bool]) {
        for c in v.chunks(8) {
            let mut b = 0u8;
            for (i, x) in c.iter().enumerate() {
                b |= (*x as u8) << (7 - i);
            }
            self.out.push(b);
        }
    }
    pub fn defined(&mut self, v: &[bool], force: bool) {
        if v.iter().all(|x| *x) && !force {
            self.b(1);
        } else {
            self.b(0);
            self.bits(v);
        }
    }
    pub fn pack_info(&mut self, pos: u64, packs: &[&Vec<u8>], crc: &PackCrc) {
        self.b(6);
        self.n(pos);
        self.n(packs.len() as u64);
        self.b(9);
        for p in packs {
            self.n(p.len() as u64);
        }
        let def: Vec<bool> = match crc {
            PackCrc::None => vec![],
            PackCrc::All => vec![true; packs.len()],
            PackCrc::Some(m) => (0..packs.len()).map(|i| m >> (i % 64) & 1 == 1).collect(),
        };
        if !def.is_empty() {
            self.b(10);
            self.defined(&def, matches!(crc, PackCrc::Some(_)));
            for (p, d) in packs.iter().zip(&def) {
                if *d {
                    self.raw(&crc32(p).to_le_bytes());
                }
            }
        }
        self.b(0);
    }
    fn folder(&mut self, f: &Folder) {
        self.n(f.coders.len() as u64);
        for c in &f.coders {
            let simple = c.nin == 1 && c.nout == 1;
            self.b(c.id.len() as u8 | if simple { 0 } else { 0x10 } | if c.props.is_some() { 0x20 } else { 0 });
            self.raw(&c.id);
            if !simple {
                self.n(c.nin);
                self.n(c.nout);
            }
            if let Some(p) = &c.props {
                self.n(p.len() as u64);
                self.raw(p);
            }
        }
        for (i, o) in &f.binds {
            self.n(*i);
            self.n(*o);
        }
        if f.packed.len() > 1 {
            for p in &f.packed {
                self.n(*p);
            }
        }
    }
    pub fn unpack_info(&mut self, folders: &[Folder], bits: bool) {
        self.b(7);
        self.b(11);
        self.n(folders.len() as u64);
        self.b(0);
        for f in folders {
            self.folder(f);
        }
        self.b(12);
        for f in folders {
            for s in &f.unpack {
                self.n(*s);
            }
        }
        let def: Vec<bool> = folders.iter().map(|f| f.crc.is_some()).collect();
        if def.iter().any(|d| *d) {
            self.b(10);
            self.defined(&def, bits);
            for f in folders {
                if let Some(c) = f.crc {
                    self.raw(&c.to_le_bytes());
                }
            }
        }
        self.b(0);
    }
    fn sub_streams(&mut self, folders: &[Folder], h: &HdrOpts) {
        let single = folders.iter().all(|f| f.subs.len() == 1);
        let mut def = vec![];
        let mut crcs = vec![];
        for f in folders {
            if f.subs.len() == 1 && f.crc.is_some() {
                continue;
            }
            for s in &f.subs {
                def.push(s.1.is_some());
                if let Some(c) = s.1 {
                    crcs.push(c);
                }
            }
        }
        if h.omit && single && crcs.is_empty() {
            return;
        }
        self.b(8);
        if !(single && h.omit) {
            self.b(13);
            for f in folders {
                self.n(f.subs.len() as u64);
            }
        }
        if folders.iter().any(|f| f.subs.len() > 1) || !h.omit {
            self.b(9);
            for f in folders {
                for s in f.subs.iter().rev().skip(1).rev() {
                    self.n(s.0);
                }
            }
        }
        if !crcs.is_empty() || (!h.omit && !def.is_empty()) {
            self.b(10);
            self.defined(&def, h.bits);
            for c in crcs {
                self.raw(&c.to_le_bytes());
            }
        }
        self.b(0);
    }
    fn prop(&mut self, id: u8, body: Vec<u8>) {
        self.b(id);
        self.n(body.len() as u64);
        self.raw(&body);
    }
    fn files(&mut self, files: &[FileRec], h: &HdrOpts) {
        self.b(5);
        self.n(files.len() as u64);
        let mut props: Vec<(u8, Vec<u8>)> = vec![];
        let empty: Vec<bool> = files.iter().map(|f| !f.stream).collect();
        let of_empty = |g: &dyn Fn(&FileRec) -> bool| -> Vec<bool> { files.iter().filter(|f| !f.stream).map(g).collect() };
        let bits = |v: &[bool]| {
            let mut e = Emit::new(&[]);
            e.bits(v);
            e.out
        };
        let has_empty = empty.iter().any(|x| *x);
        if has_empty || h.vacuous {
            props.push((14, bits(&empty)));
            let ef = of_empty(&|f| !f.dir);
            if ef.iter().any(|x| *x) || (h.vacuous && has_empty) {
                props.push((15, bits(&ef)));
            }
            let an = of_empty(&|f| f.anti);
            if an.iter().any(|x| *x) || (h.vacuous && has_empty) {
                props.push((16, bits(&an)));
            }
        }
        let mut names = vec![0u8];
        for f in files {
            names.extend(utf16(&f.name));
            names.extend([0, 0]);
        }
        props.push((17, names));
        let times: [(u8, fn(&FileRec) -> Option<Vec<u8>>); 4] = [
            (18, |f| f.c.map(|t| t.to_le_bytes().to_vec())),
            (19, |f| f.a.map(|t| t.to_le_bytes().to_vec())),
            (20, |f| f.m.map(|t| t.to_le_bytes().to_vec())),
            (21, |f| f.attr.map(|t| t.to_le_bytes().to_vec())),
        ];
        for (id, g) in times {
            let vals: Vec<Option<Vec<u8>>> = files.iter().map(g).collect();
            if vals.iter().any(|v| v.is_some()) || h.vacuous {
                let mut e = Emit::new(&[]);
                e.defined(&vals.iter().map(|v| v.is_some()).collect::<Vec<_>>(), h.bits);
                e.b(0);
                for v in vals.iter().flatten() {
                    e.raw(v);
                }
                props.push((id, e.out));
            }
        }
        // shuffle, keeping kEmptyStream before kEmptyFile and kAnti
        let mut r = Rng::new(h.order);
        if h.order != 0 {
            for i in (1..props.len()).rev() {
                let j = r.below(i as u64 + 1) as usize;
                props.swap(i, j);
            }
            if let Some(at) = props.iter().position(|p| p.0 == 14) {
                let first = props.iter().position(|p| (14..=16).contains(&p.0)).unwrap();
                props.swap(at, first);
            }
        }
        for (n, at) in &h.dummies {
            let at = *at as usize % (props.len() + 1);
            props.insert(at, (25, vec![0; *n as usize]));
        }
        for (id, body, at) in &h.unknown {
            let at = *at as usize % (props.len() + 1);
            props.insert(at, (26 + id % 100, body.clone()));
        }
        for (id, body) in props {
            self.prop(id, body);
        }
        self.b(0);
    }
}

pub struct Spec {
    pub folders: Vec<Folder>,
    pub files: Vec<FileRec>,
    pub h: HdrOpts,
    pub password: Vec<u8>,
    pub mutate: Vec<(usize, u64)>,
}
#[derive(Clone, Debug)]
pub struct Built {
    pub bytes: Vec<u8>,
    /// offset and length of the (possibly packed) header in the file
    pub header_at: usize,
    pub header_len: usize,
    /// the unpacked header
    pub raw_header: Vec<u8>,
    /// numbers written into the unpacked header / into the stub of a packed one
    pub nums: usize,
    pub stub_nums: usize,
}
/// Signature and start header for a header at `at` of `len` bytes.
pub fn start_header(minor: u8, offset: u64, len: u64, crc: u32) -> [u8; 32] {
    let mut s = [0u8; 32];
    s[..6].copy_from_slice(&[b'7', b'z', 0xBC, 0xAF, 0x27, 0x1C]);
    s[7] = minor;
    s[12..20].copy_from_slice(&offset.to_le_bytes());
    s[20..28].copy_from_slice(&len.to_le_bytes());
    s[28..32].copy_from_slice(&crc.to_le_bytes());
    let c = crc32(&s[12..32]);
    s[8..12].copy_from_slice(&c.to_le_bytes());
    s
}
/// Assembles a file from its data area and header, with right checksums.
pub fn assemble(minor: u8, data: &[u8], header: &[u8]) -> Vec<u8> {
    let mut out = start_header(minor, data.len() as u64, header.len() as u64, crc32(header)).to_vec();
    out.extend_from_slice(data);
    out.extend_from_slice(header);
    out
}
/// Coders of a linear chain; `perm` permutes the order in which coders are listed.
pub fn linear_folder(chain: &[M], data: &[u8], password: &[u8], perm: u64) -> Folder {
    let n = chain.len();
    let mut ord: Vec<usize> = (0..n).collect();
    let mut r = Rng::new(perm);
    if perm != 0 {
        for i in (1..n).rev() {
            ord.swap(i, r.below(i as u64 + 1) as usize);
        }
    }
    let mut f = Folder { coders: vec![Coder::default(); n], unpack: vec![0; n], ..Default::default() };
    let mut cur = data.to_vec();
    for (j, m) in chain.iter().enumerate() {
        f.coders[ord[j]] = Coder { id: m.id().to_vec(), props: m.props(), nin: 1, nout: 1 };
        f.unpack[ord[j]] = cur.len() as u64;
        cur = m.encode(&cur, password);
        if j + 1 < n {
            f.binds.push((ord[j] as u64, ord[j + 1] as u64));
        }
    }
    if perm & 1 == 1 {
        f.binds.reverse();
    }
    f.packed = vec![ord[n - 1] as u64];
    f.packs = vec![cur];
    f
}
/// A BCJ2 folder: the BCJ2 coder at a position chosen by `perm`, each of its four inputs through its own chain.
pub fn bcj2_folder(mode: u8, chains: &[Vec<M>; 4], data: &[u8], password: &[u8], perm: u64) -> Folder {
    let streams = bcj2_encode(data, mode);
    // (stream, stage) per coder; the BCJ2 coder itself is None
    let mut list: Vec<Option<(usize, usize)>> = vec![None];
    for (s, c) in chains.iter().enumerate() {
        for j in 0..c.len() {
            list.push(Some((s, j)));
        }
    }
    let mut r = Rng::new(perm);
    if perm != 0 {
        for i in (1..list.len()).rev() {
            list.swap(i, r.below(i as u64 + 1) as usize);
        }
    }
    let mut f = Folder::default();
    let mut in_base = vec![];
    let mut base = 0;
    for e in &list {
        in_base.push(base);
        base += if e.is_none() { 4 } else { 1 };
    }
    let pos = |e: Option<(usize, usize)>| list.iter().position(|x| *x == e).unwrap();
    let b2 = pos(None);
    f.coders = vec![Coder::default(); list.len()];
    f.unpack = vec![0; list.len()];
    f.coders[b2] = Coder { id: ID_BCJ2.to_vec(), props: None, nin: 4, nout: 1 };
    f.unpack[b2] = data.len() as u64;
    for s in 0..4 {
        let mut cur = streams[s].clone();
        let mut input = (in_base[b2] + s) as u64;
        for (j, m) in chains[s].iter().enumerate() {
            let at = pos(Some((s, j)));
            f.coders[at] = Coder { id: m.id().to_vec(), props: m.props(), nin: 1, nout: 1 };
            f.unpack[at] = cur.len() as u64;
            cur = m.encode(&cur, password);
            f.binds.push((input, at as u64));
            input = in_base[at] as u64;
        }
        f.packed.push(input);
        f.packs.push(cur);
    }
    if perm != 0 {
        for i in (1..4).rev() {
            let j = r.below(i as u64 + 1) as usize;
            f.packed.swap(i, j);
            f.packs.swap(i, j);
        }
        for i in (1..f.binds.len()).rev() {
            let j = r.below(i as u64 + 1) as usize;
            f.binds.swap(i, j);
        }
    }
    f
}
impl Spec {
    pub fn build(&self) -> Built {
        let h = &self.h;
        let mut data = vec![0xA5u8; h.gap_before as usize];
        let packs: Vec<&Vec<u8>> = self.folders.iter().flat_map(|f| f.packs.iter()).collect();
        for p in &packs {
            data.extend_from_slice(p);
        }
        data.resize(data.len() + h.gap_after as usize, 0x5A);
        let mut e = Emit::new(&h.pads);
        e.mutate = self.mutate.clone();
        e.b(1);
        if !h.arch_props.is_empty() {
            e.b(2);
            for (id, body) in &h.arch_props {
                e.prop((*id).max(1), body.clone());
            }
            e.b(0);
        }
        if !self.folders.is_empty() || h.vacuous {
            e.b(4);
            if !self.folders.is_empty() || !packs.is_empty() {
                e.pack_info(h.gap_before as u64, &packs, &h.pack_crc);
                e.unpack_info(&self.folders, h.bits);
                e.sub_streams(&self.folders, h);
            }
            e.b(0);
        }
        if !self.files.is_empty() || !h.omit {
            e.files(&self.files, h);
        }
        e.b(0);
        let nums = e.nums;
        let raw_header = e.out;
        let mut stub_nums = 0;
        let header = match &h.encoded {
            None => raw_header.clone(),
            Some(chain) => {
                let mut f = linear_folder(chain, &raw_header, &self.password, h.order);
                f.crc = if h.enc_crc { Some(crc32(&raw_header)) } else { None };
                let pos = data.len() as u64;
                data.extend_from_slice(&f.packs[0]);
                let mut e = Emit::new(&h.pads);
                e.mutate = self
                    .mutate
                    .iter()
                    .filter(|m| m.0 >= 1_000_000)
                    .map(|m| (m.0 - 1_000_000, m.1))
                    .collect();
                e.b(0x17);
                e.pack_info(pos, &[&f.packs[0]], &h.pack_crc);
                e.unpack_info(std::slice::from_ref(&f), h.bits);
                e.b(0);
                stub_nums = e.nums;
                e.out
            }
        };
        let bytes = assemble(h.minor, &data, &header);
        Built { header_at: 32 + data.len(), header_len: header.len(), bytes, raw_header, nums, stub_nums }
    }
}

// ------------------------------------------------------------------------------------- strict parser
#[derive(Clone, Debug, Default)]
pub struct PFolder {
    pub coders: Vec<Coder>,
    pub binds: Vec<(u64, u64)>,
    pub packed: Vec<u64>,
    pub unpack: Vec<u64>,
    pub crc: Option<u32>,
    pub subs: Vec<(u64, Option<u32>)>,
    pub first_pack: usize,
    /// index of the coder whose output is the folder's
    pub main: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Streams {
    pub pack_pos: u64,
    pub packs: Vec<(u64, u64, Option<u32>)>,
    pub folders: Vec<PFolder>,
}
#[derive(Clone, Debug, Default)]
pub struct PFile {
    pub rec: FileRec,
    /// folder and index in it
    pub at: Option<(usize, usize)>,
}
#[derive(Clone, Debug, Default)]
pub struct Parsed {
    pub s: Streams,
    pub files: Vec<PFile>,
    /// streams of the packed header
    pub enc: Option<Streams>,
    pub header: Vec<u8>,
    pub header_at: u64,
}
struct P<'a> {
    d: &'a [u8],
    at: usize,
}
type R<T> = Result<T, String>;
impl<'a> P<'a> {
    fn b(&mut self) -> R<u8> {
        let v = *self.d.get(self.at).ok_or_else(|| format!("header ends at {}", self.at))?;
        self.at += 1;
        Ok(v)
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.d.len() - self.at < n {
            return Err(format!("header ends inside a field at {}", self.at));
        }
        let s = &self.d[self.at..self.at + n];
        self.at += n;
        Ok(s)
    }
    fn u32(&mut self) -> R<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> R<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn n(&mut self) -> R<u64> {
        let first = self.b()?;
        let k = first.leading_ones().min(8);
        let mut v = 0u64;
        for i in 0..k {
            v |= (self.b()? as u64) << (8 * i);
        }
        if k < 7 {
            v |= ((first & (0x7f >> k)) as u64) << (8 * k);
        }
        Ok(v)
    }
    fn count(&mut self, what: &str) -> R<usize> {
        let v = self.n()?;
        if v > 1 << 24 {
            return Err(format!("{what} is {v}"));
        }
        Ok(v as usize)
    }
    fn bits(&mut self, n: usize) -> R<Vec<bool>> {
        let s = self.take(n.div_ceil(8))?;
        let v: Vec<bool> = (0..s.len() * 8).map(|i| s[i / 8] >> (7 - i % 8) & 1 == 1).collect();
        if v[n..].iter().any(|x| *x) {
            return Err("padding bits of a bit vector are set".into());
        }
        Ok(v[..n].to_vec())
    }
    fn defined(&mut self, n: usize) -> R<Vec<bool>> {
        match self.b()? {
            0 => self.bits(n),
            1 => Ok(vec![true; n]),
            v => Err(format!("AllAreDefined byte is {v}")),
        }
    }
    fn want(&mut self, id: u8, what: &str) -> R<()> {
        let v = self.b()?;
        if v != id {
            return Err(format!("{what}: property id {v}, expected {id}"));
        }
        Ok(())
    }
    fn folder(&mut self) -> R<PFolder> {
        let mut f = PFolder::default();
        let n = self.count("number of coders")?;
        if n == 0 || n > 32 {
            return Err(format!("{n} coders"));
        }
        for _ in 0..n {
            let b = self.b()?;
            if b & 0xC0 != 0 {
                return Err("reserved coder flags".into());
            }
            let mut c = Coder { id: self.take((b & 15) as usize)?.to_vec(), props: None, nin: 1, nout: 1 };
            if b & 0x10 != 0 {
                c.nin = self.n()?;
                c.nout = self.n()?;
            }
            if b & 0x20 != 0 {
                let k = self.count("properties size")?;
                c.props = Some(self.take(k)?.to_vec());
            }
            f.coders.push(c);
        }
        let nin: u64 = f.coders.iter().map(|c| c.nin).sum();
        let nout: u64 = f.coders.iter().map(|c| c.nout).sum();
        if nout == 0 || nin < nout - 1 || nin > 64 || nout > 64 {
            return Err("stream counts".into());
        }
        for _ in 0..nout - 1 {
            f.binds.push((self.n()?, self.n()?));
        }
        let np = nin - (nout - 1);
        if np == 1 {
            f.packed = (0..nin).filter(|i| !f.binds.iter().any(|b| b.0 == *i)).collect();
        } else {
            for _ in 0..np {
                f.packed.push(self.n()?);
            }
        }
        let mut ins: Vec<u64> = f.binds.iter().map(|b| b.0).chain(f.packed.iter().copied()).collect();
        ins.sort();
        if ins != (0..nin).collect::<Vec<_>>() {
            return Err("in-streams are not each bound or packed exactly once".into());
        }
        let mut outs: Vec<u64> = f.binds.iter().map(|b| b.1).collect();
        outs.sort();
        outs.dedup();
        if outs.len() as u64 != nout - 1 || outs.iter().any(|o| *o >= nout) {
            return Err("out-streams are not bound once each".into());
        }
        f.main = (0..nout).find(|o| !outs.contains(o)).unwrap() as usize;
        Ok(f)
    }
    /// Sub-stream sizes are required to be there whenever a folder has more than one.
    fn streams(&mut self) -> R<Streams> {
        let mut s = Streams::default();
        let mut id = self.b()?;
        if id == 6 {
            s.pack_pos = self.n()?;
            let n = self.count("number of pack streams")?;
            self.want(9, "pack sizes")?;
            let mut off = 32 + s.pack_pos;
            for _ in 0..n {
                let k = self.n()?;
                s.packs.push((off, k, None));
                off = off.checked_add(k).ok_or("pack sizes overflow")?;
            }
            id = self.b()?;
            if id == 10 {
                let d = self.defined(n)?;
                for i in 0..n {
                    if d[i] {
                        s.packs[i].2 = Some(self.u32()?);
                    }
                }
                id = self.b()?;
            }
            if id != 0 {
                return Err(format!("pack info ends with {id}"));
            }
            id = self.b()?;
        }
        if id == 7 {
            self.want(11, "folders")?;
            let n = self.count("number of folders")?;
            self.want(0, "external")?;
            let mut np = 0;
            for _ in 0..n {
                let mut f = self.folder()?;
                f.first_pack = np;
                np += f.packed.len();
                s.folders.push(f);
            }
            if np != s.packs.len() {
                return Err(format!("folders use {np} pack streams, {} are there", s.packs.len()));
            }
            self.want(12, "unpack sizes")?;
            for f in &mut s.folders {
                for _ in 0..f.coders.iter().map(|c| c.nout).sum::<u64>() {
                    f.unpack.push(self.n()?);
                }
            }
            id = self.b()?;
            if id == 10 {
                let d = self.defined(n)?;
                for i in 0..n {
                    if d[i] {
                        s.folders[i].crc = Some(self.u32()?);
                    }
                }
                id = self.b()?;
            }
            if id != 0 {
                return Err(format!("unpack info ends with {id}"));
            }
            id = self.b()?;
        }
        let mut counts = vec![1; s.folders.len()];
        let mut sizes_present = false;
        if id == 8 {
            id = self.b()?;
            if id == 13 {
                for c in counts.iter_mut() {
                    *c = self.count("number of sub-streams")?;
                }
                id = self.b()?;
            }
            let sized = id == 9;
            for (f, c) in s.folders.iter_mut().zip(&counts) {
                let mut left = f.unpack[f.main];
                for j in 0..*c {
                    let k = if j + 1 < *c {
                        if !sized {
                            return Err("sub-stream sizes missing".into());
                        }
                        self.n()?
                    } else {
                        left
                    };
                    left = left.checked_sub(k).ok_or("sub-stream sizes exceed the folder")?;
                    f.subs.push((k, None));
                }
                if *c > 0 && left != 0 {
                    return Err("sub-stream sizes".into());
                }
            }
            if sized {
                id = self.b()?;
            }
            sizes_present = true;
            let unknown: usize = s.folders.iter().map(|f| if f.subs.len() == 1 && f.crc.is_some() { 0 } else { f.subs.len() }).sum();
            if id == 10 {
                let d = self.defined(unknown)?;
                let mut k = 0;
                for f in &mut s.folders {
                    if f.subs.len() == 1 && f.crc.is_some() {
                        continue;
                    }
                    for x in &mut f.subs {
                        if d[k] {
                            x.1 = Some(self.u32()?);
                        }
                        k += 1;
                    }
                }
                id = self.b()?;
            }
            if id != 0 {
                return Err(format!("sub-streams info ends with {id}"));
            }
            id = self.b()?;
        }
        if !sizes_present {
            for f in &mut s.folders {
                f.subs = vec![(f.unpack[f.main], None)];
            }
        }
        for f in &mut s.folders {
            if f.subs.len() == 1 && f.crc.is_some() {
                f.subs[0].1 = f.crc;
            }
        }
        if id != 0 {
            return Err(format!("streams info ends with {id}"));
        }
        Ok(s)
    }
    fn files(&mut self, s: &Streams) -> R<Vec<PFile>> {
        let n = self.count("number of files")?;
        let mut recs = vec![FileRec { stream: true, ..Default::default() }; n];
        let mut seen = vec![];
        let mut named = false;
        loop {
            let id = self.b()?;
            if id == 0 {
                break;
            }
            let size = self.count("property size")?;
            let mut p = P { d: self.take(size)?, at: 0 };
            if id != 25 && seen.contains(&id) {
                return Err(format!("file property {id} occurs twice"));
            }
            seen.push(id);
            match id {
                14 => {
                    for (r, e) in recs.iter_mut().zip(p.bits(n)?) {
                        r.stream = !e;
                        r.dir = e;
                    }
                }
                15 | 16 => {
                    if !seen.contains(&14) {
                        return Err("kEmptyFile/kAnti without kEmptyStream".into());
                    }
                    let k = recs.iter().filter(|r| !r.stream).count();
                    let v = p.bits(k)?;
                    for (r, e) in recs.iter_mut().filter(|r| !r.stream).zip(v) {
                        if id == 15 {
                            r.dir = !e;
                        } else {
                            r.anti = e;
                        }
                    }
                }
                17 => {
                    named = true;
                    p.want(0, "names external")?;
                    for r in recs.iter_mut() {
                        let mut u = vec![];
                        loop {
                            let c = u16::from_le_bytes(p.take(2)?.try_into().unwrap());
                            if c == 0 {
                                break;
                            }
                            u.push(c);
                        }
                        r.name = String::from_utf16(&u).map_err(|_| "name is not UTF-16")?;
                    }
                }
                18..=20 => {
                    let d = p.defined(n)?;
                    p.want(0, "times external")?;
                    for i in 0..n {
                        if d[i] {
                            let t = Some(p.u64()?);
                            match id {
                                18 => recs[i].c = t,
                                19 => recs[i].a = t,
                                _ => recs[i].m = t,
                            }
                        }
                    }
                }
                21 => {
                    let d = p.defined(n)?;
                    p.want(0, "attributes external")?;
                    for i in 0..n {
                        if d[i] {
                            recs[i].attr = Some(p.u32()?);
                        }
                    }
                }
                25 => {
                    if p.take(size)?.iter().any(|b| *b != 0) {
                        return Err("kDummy content".into());
                    }
                }
                _ => return Err(format!("unknown file property {id}")),
            }
            if p.at != size {
                return Err(format!("file property {id}: declared {size} bytes, holds {}", p.at));
            }
        }
        if n > 0 && !named {
            return Err("no names".into());
        }
        let mut slots = s.folders.iter().enumerate().flat_map(|(i, f)| (0..f.subs.len()).map(move |j| (i, j)));
        let mut out = vec![];
        for r in recs {
            let at = if r.stream { Some(slots.next().ok_or("more entries with streams than sub-streams")?) } else { None };
            out.push(PFile { rec: r, at });
        }
        if slots.next().is_some() {
            return Err("more sub-streams than entries with streams".into());
        }
        Ok(out)
    }
}
/// Decodes one coder (strictly: the stream has to be exactly what the properties and sizes say).
fn decode_coder(c: &Coder, data: &[u8], size: u64, password: &[u8]) -> R<Vec<u8>> {
    let size = size as usize;
    let props = c.props.clone().unwrap_or_default();
    if c.id == ID_COPY {
        return if data.len() >= size { Ok(data[..size].to_vec()) } else { Err("copy: short".into()) };
    }
    if c.id == ID_AES {
        let a = AesP::from_props(&props)?;
        let mut d = a.decrypt(password, data)?;
        if d.len() < size || d.len() - size >= 16 {
            return Err(format!("AES: {} bytes of stream for size {size}", d.len()));
        }
        if d[size..].iter().any(|b| *b != 0) {
            return Err("AES padding is not zero".into());
        }
        d.truncate(size);
        return Ok(d);
    }
    if c.id == ID_LZMA {
        if props.len() != 5 || props[0] >= 225 {
            return Err("LZMA properties".into());
        }
        let mut o = ll::preset(6);
        o.dict_size = u32::from_le_bytes(props[1..5].try_into().unwrap()).min(1 << 29);
        o.lc = props[0] as u32 % 9;
        o.lp = props[0] as u32 / 9 % 5;
        o.pb = props[0] as u32 / 45;
        if o.lc + o.lp <= 4 {
            ext(&mut o, Some(size));
            let d = ll::raw_decode(&[ll::F::Lzma1Ext(o)], data, size);
            if !d.ended || d.out.len() != size || d.consumed != data.len() {
                return Err(format!("LZMA: {} of {size} bytes, {} of {} used, code {}", d.out.len(), d.consumed, data.len(), d.code));
            }
            return Ok(d.out);
        }
        let pr = crate::reflzma::Props::from_byte(props[0]).ok_or("LZMA properties")?;
        let (out, used, _) =
            crate::reflzma::lzma_decode(pr, o.dict_size as u64, &[], data, Some(size)).map_err(|e| format!("LZMA: {}", e.0))?;
        // the last normalisation may leave one byte unread
        if out.len() != size || (used != data.len() && used + 1 != data.len()) {
            return Err(format!("LZMA: {} of {size} bytes, {used} of {} used", out.len(), data.len()));
        }
        return Ok(out);
    }
    if c.id == ID_LZMA2 {
        if props.len() != 1 {
            return Err("LZMA2 properties".into());
        }
        let dict = lzma2_prop_dict(props[0]).ok_or("LZMA2 dictionary property")?;
        let (out, used, _) = crate::reflzma::lzma2_decode(dict, data).map_err(|e| format!("LZMA2: {}", e.0))?;
        if out.len() != size || used != data.len() {
            return Err(format!("LZMA2: {} of {size} bytes, {used} of {} used", out.len(), data.len()));
        }
        let mut o = ll::preset(6);
        o.dict_size = dict.clamp(4096, 1 << 28) as u32;
        let d = ll::raw_decode(&[ll::F::Lzma2(o)], data, size);
        if !d.ended || d.out != out || d.consumed != data.len() {
            return Err(format!("LZMA2 (liblzma): {} of {size} bytes, code {}", d.out.len(), d.code));
        }
        return Ok(out);
    }
    Err(format!("coder {:?} not expected here", c.id))
}
/// Unpacks a linear folder; checks all recorded sizes and checksums.
pub fn unpack(bytes: &[u8], s: &Streams, i: usize, password: &[u8]) -> R<Vec<u8>> {
    let f = &s.folders[i];
    if f.packed.len() != 1 || f.coders.iter().any(|c| c.nin != 1 || c.nout != 1) {
        return Err("not a linear chain".into());
    }
    let (off, size, crc) = s.packs[f.first_pack];
    let data = bytes.get(off as usize..(off + size) as usize).ok_or("pack stream outside the file")?;
    if let Some(c) = crc {
        if crc32(data) != c {
            return Err(format!("folder {i}: pack stream checksum"));
        }
    }
    let mut cur = data.to_vec();
    let mut at = f.packed[0];
    for step in 0..f.coders.len() {
        cur = decode_coder(&f.coders[at as usize], &cur, f.unpack[at as usize], password).map_err(|e| format!("folder {i}: {e}"))?;
        match f.binds.iter().find(|b| b.1 == at) {
            Some(b) => at = b.0,
            None => {
                if step + 1 != f.coders.len() {
                    return Err("chain does not use every coder".into());
                }
            }
        }
    }
    if let Some(c) = f.crc {
        if crc32(&cur) != c {
            return Err(format!("folder {i}: checksum"));
        }
    }
    let mut p = 0;
    for (j, (n, c)) in f.subs.iter().enumerate() {
        let d = &cur[p..p + *n as usize];
        p += *n as usize;
        if let Some(c) = c {
            if crc32(d) != *c {
                return Err(format!("folder {i} sub-stream {j}: checksum"));
            }
        }
    }
    Ok(cur)
}
/// Parses an archive strictly. All bytes between the start header and the end have to be accounted for.
pub fn parse(bytes: &[u8], password: &[u8]) -> R<Parsed> {
    parse_gap(bytes, password, false)
}
/// As `parse`; with `gap` unused bytes between the pack streams and the (packed) header are allowed.
pub fn parse_gap(bytes: &[u8], password: &[u8], gap: bool) -> R<Parsed> {
    if bytes.len() < 32 || bytes[..6] != [b'7', b'z', 0xBC, 0xAF, 0x27, 0x1C] {
        return Err("signature".into());
    }
    if bytes[6] != 0 {
        return Err("major version".into());
    }
    if crc32(&bytes[12..32]) != u32::from_le_bytes(bytes[8..12].try_into().unwrap()) {
        return Err("start header checksum".into());
    }
    let off = u64::from_le_bytes(bytes[12..20].try_into().unwrap());
    let len = u64::from_le_bytes(bytes[20..28].try_into().unwrap());
    let crc = u32::from_le_bytes(bytes[28..32].try_into().unwrap());
    if off.checked_add(len).and_then(|x| x.checked_add(32)) != Some(bytes.len() as u64) {
        return Err(format!("next header at {off}+{len} does not end the {}-byte file", bytes.len()));
    }
    let mut out = Parsed { header_at: 32 + off, ..Default::default() };
    if len == 0 {
        return if off == 0 { Ok(out) } else { Err("empty header with data".into()) };
    }
    let stored = &bytes[32 + off as usize..];
    if crc32(stored) != crc {
        return Err("next header checksum".into());
    }
    let mut data_end = 32 + off;
    let header = if stored[0] == 0x17 {
        let mut p = P { d: stored, at: 1 };
        let s = p.streams().map_err(|e| format!("packed header: {e}"))?;
        if p.at != stored.len() {
            return Err("bytes after the packed header's streams info".into());
        }
        if s.folders.len() != 1 || s.packs.len() != 1 {
            return Err("packed header is not one folder".into());
        }
        if s.packs[0].0 + s.packs[0].1 != data_end {
            return Err("packed header is not directly before the end header".into());
        }
        data_end = s.packs[0].0;
        let h = unpack(bytes, &s, 0, password).map_err(|e| format!("packed header: {e}"))?;
        out.enc = Some(s);
        h
    } else {
        stored.to_vec()
    };
    let mut p = P { d: &header, at: 0 };
    p.want(1, "header")?;
    let mut id = p.b()?;
    if id == 4 {
        out.s = p.streams()?;
        id = p.b()?;
    }
    if id == 5 {
        out.files = p.files(&out.s)?;
        id = p.b()?;
    }
    if id != 0 {
        return Err(format!("header ends with {id}"));
    }
    if p.at != header.len() {
        return Err("bytes after the header".into());
    }
    let end = out.s.packs.last().map(|p| p.0 + p.1).unwrap_or(32);
    if end > data_end || (!gap && end != data_end) || out.s.pack_pos != 0 {
        return Err(format!("pack streams end at {end}, data area at {data_end} (pack position {})", out.s.pack_pos));
    }
    out.header = header;
    Ok(out)
}

// ------------------------------------------------------------------------------------- generated archives
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Meta {
    pub name: String,
    pub c: Option<u64>,
    pub a: Option<u64>,
    pub m: Option<u64>,
    pub attr: Option<u32>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GEntry {
    pub meta: Meta,
    pub data: Data,
    pub crc: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Chain {
    Linear(Vec<M>),
    Bcj2(u8, Vec<Vec<M>>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GBlock {
    pub chain: Chain,
    pub perm: u64,
    pub folder_crc: bool,
    pub entries: Vec<GEntry>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GEmpty {
    pub meta: Meta,
    /// position among all entries
    pub at: u16,
    /// 0 directory, 1 empty file, 2 anti directory, 3 anti file
    pub kind: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GArch {
    pub blocks: Vec<GBlock>,
    pub empties: Vec<GEmpty>,
    pub h: HdrOpts,
    pub password: String,
}
/// What a reader has to report about one entry.
#[derive(Clone, Debug, PartialEq)]
pub struct Expect {
    pub rec: FileRec,
    pub data: Vec<u8>,
    pub crc: Option<u32>,
    pub folder: Option<usize>,
}

pub fn time() -> BoxedStrategy<u64> {
    prop_oneof![
        1 => Just(0u64),
        1 => Just(1u64),
        4 => 0x01B0_0000_0000_0000u64..0x01E0_0000_0000_0000,
        1 => any::<u64>(),
    ]
    .boxed()
}
fn name_char() -> BoxedStrategy<char> {
    prop_oneof![
        10 => proptest::char::range('a', 'z'),
        2 => Just('/'),
        2 => Just('.'),
        1 => Just(' '),
        2 => proptest::char::range('\u{80}', '\u{2fff}'),
        1 => proptest::char::range('\u{1f300}', '\u{1f6ff}'),
        1 => any::<char>(),
    ]
    .boxed()
}
pub fn name() -> BoxedStrategy<String> {
    prop_oneof![
        8 => proptest::collection::vec(name_char(), 1..14),
        1 => proptest::collection::vec(name_char(), 0..3),
        1 => proptest::collection::vec(name_char(), 200..400),
    ]
    .prop_map(|v| v.into_iter().filter(|c| *c != '\0').collect())
    .boxed()
}
pub fn meta() -> BoxedStrategy<Meta> {
    let t = || prop_oneof![1 => Just(None), 2 => time().prop_map(Some)];
    (name(), t(), t(), t(), prop_oneof![1 => Just(None), 1 => any::<u32>().prop_map(Some), 1 => (0u32..64).prop_map(Some)])
        .prop_map(|(name, c, a, m, attr)| Meta { name, c, a, m, attr })
        .boxed()
}
pub fn aes_p(max_power: u8) -> BoxedStrategy<AesP> {
    (
        prop_oneof![10 => 0..=max_power, 1 => Just(0x3fu8)],
        proptest::collection::vec(any::<u8>(), 0..=16),
        proptest::collection::vec(any::<u8>(), 0..=16),
    )
        .prop_map(|(power, salt, iv)| AesP { power, salt, iv })
        .boxed()
}
fn compressor() -> BoxedStrategy<M> {
    prop_oneof![
        2 => Just(M::Copy),
        3 => (foreign_opts(16), any::<bool>()).prop_map(|(o, e)| M::Lzma(o, e)),
        3 => foreign_opts(16).prop_map(M::Lzma2),
        1 => (1u8..=9).prop_map(M::Bzip2),
        1 => (1u8..=9).prop_map(M::Zstd),
    ]
    .boxed()
}
pub fn bcj() -> BoxedStrategy<M> {
    prop_oneof![3 => (0u8..5).prop_map(M::Bcj), 1 => any::<u8>().prop_map(M::Delta)].boxed()
}
/// Chains from data to packed stream: filters, then compressors, then encryption.
pub fn linear(aes: bool) -> BoxedStrategy<Vec<M>> {
    let enc = if aes {
        prop_oneof![2 => Just(vec![]), 1 => aes_p(6).prop_map(|a| vec![M::Aes(a)])].boxed()
    } else {
        Just(vec![]).boxed()
    };
    (
        prop_oneof![3 => Just(vec![]), 2 => bcj().prop_map(|f| vec![f]), 1 => proptest::collection::vec(bcj(), 2..=2)],
        prop_oneof![
            1 => Just(vec![]),
            8 => compressor().prop_map(|c| vec![c]),
            1 => proptest::collection::vec(compressor(), 2..=2)
        ],
        enc,
    )
        .prop_map(|(mut f, c, e)| {
            f.extend(c);
            f.extend(e);
            if f.is_empty() {
                f.push(M::Copy)
            }
            f
        })
        .boxed()
}
pub fn bcj2_chain(aes: bool) -> BoxedStrategy<Chain> {
    let side = || {
        let enc = if aes {
            prop_oneof![4 => Just(vec![]), 1 => aes_p(4).prop_map(|a| vec![M::Aes(a)])].boxed()
        } else {
            Just(vec![]).boxed()
        };
        (prop_oneof![2 => Just(vec![]), 3 => compressor().prop_map(|c| vec![c])], enc)
            .prop_map(|(mut a, b)| {
                a.extend(b);
                a
            })
            .boxed()
    };
    (any::<u8>(), proptest::collection::vec(side(), 4..=4)).prop_map(|(m, s)| Chain::Bcj2(m, s)).boxed()
}
pub fn chain(aes: bool) -> BoxedStrategy<Chain> {
    prop_oneof![5 => linear(aes).prop_map(Chain::Linear), 1 => bcj2_chain(aes)].boxed()
}
pub fn hdr_opts(aes: bool) -> BoxedStrategy<HdrOpts> {
    let enc = prop_oneof![
        2 => Just(None),
        2 => foreign_opts(16).prop_map(|o| Some(vec![M::Lzma(o, false)])),
        1 => linear(aes).prop_map(|v| Some(v)),
    ];
    (
        (
            prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(0u8..8, 1..5)],
            prop_oneof![2 => Just(PackCrc::None), 2 => Just(PackCrc::All), 1 => any::<u64>().prop_map(PackCrc::Some)],
            prop_oneof![3 => Just(0u16), 1 => 0u16..300],
            prop_oneof![3 => Just(0u16), 1 => 0u16..300],
            prop_oneof![
                3 => Just(vec![]),
                1 => proptest::collection::vec((1u8..100, proptest::collection::vec(any::<u8>(), 0..9)), 1..3)
            ],
            any::<bool>(),
            any::<bool>(),
        ),
        (
            prop_oneof![1 => Just(0u64), 1 => any::<u64>()],
            prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec((0u8..40, any::<u8>()), 1..3)],
            prop_oneof![
                4 => Just(vec![]),
                1 => proptest::collection::vec((0u8..100, proptest::collection::vec(any::<u8>(), 0..9), any::<u8>()), 1..3)
            ],
            prop_oneof![4 => Just(false), 1 => Just(true)],
            enc,
            any::<bool>(),
            prop_oneof![4 => Just(4u8), 1 => 0u8..10],
        ),
    )
        .prop_map(|((pads, pack_crc, gap_before, gap_after, arch_props, omit, bits), (order, dummies, unknown, vacuous, encoded, enc_crc, minor))| {
            HdrOpts { pads, pack_crc, gap_before, gap_after, arch_props, omit, bits, order, dummies, unknown, vacuous, encoded, enc_crc, minor }
        })
        .boxed()
}
pub fn g_block(max: u32, aes: bool) -> BoxedStrategy<GBlock> {
    let e = (meta(), data(max), prop_oneof![4 => Just(true), 1 => Just(false)]).prop_map(|(meta, data, crc)| GEntry { meta, data, crc });
    (
        chain(aes),
        prop_oneof![1 => Just(0u64), 2 => any::<u64>()],
        any::<bool>(),
        prop_oneof![1 => proptest::collection::vec(e.clone(), 0..1), 5 => proptest::collection::vec(e.clone(), 1..2), 5 => proptest::collection::vec(e, 2..6)],
    )
        .prop_map(|(chain, perm, folder_crc, entries)| GBlock { chain, perm, folder_crc, entries })
        .boxed()
}
pub fn password() -> BoxedStrategy<String> {
    prop_oneof![2 => "[a-z0-9]{1,12}", 1 => proptest::collection::vec(name_char(), 1..20).prop_map(|v| v.into_iter().collect::<String>())].boxed()
}
pub fn g_arch(max: u32, aes: bool) -> BoxedStrategy<GArch> {
    let em = (meta(), any::<u16>(), prop_oneof![4 => 0u8..2, 1 => 2u8..4]).prop_map(|(meta, at, kind)| GEmpty { meta, at, kind });
    (
        proptest::collection::vec(g_block(max, aes), 0..4),
        prop_oneof![2 => Just(vec![]), 4 => proptest::collection::vec(em.clone(), 1..5), 1 => proptest::collection::vec(em, 5..40)],
        hdr_opts(aes),
        password(),
    )
        .prop_map(|(blocks, empties, h, password)| GArch { blocks, empties, h, password })
        .boxed()
}
/// How many of something there are: more than fit into one byte of a bit vector or of a number.
pub fn crowd_size() -> BoxedStrategy<usize> {
    prop_oneof![4 => 7usize..40, 3 => 62usize..67, 4 => 126usize..131, 3 => 254usize..259, 1 => 200usize..700].boxed()
}
/// Metadata for any number of entries, by turns.
pub fn metas() -> BoxedStrategy<Vec<Meta>> {
    proptest::collection::vec(meta(), 1..12).boxed()
}
pub fn nth_meta(metas: &[Meta], i: usize) -> Meta {
    let mut m = metas[i % metas.len()].clone();
    m.name = format!("{}{i}", m.name);
    m
}
/// Archives with many blocks, many entries in a block, or many entries without content.
pub fn g_crowd() -> BoxedStrategy<GArch> {
    let shape = prop_oneof![
        4 => (Just(0u8), crowd_size()),
        3 => (Just(1u8), crowd_size()),
        3 => (Just(2u8), crowd_size()),
        2 => (Just(3u8), crowd_size()),
        1 => (Just(3u8), 16_380usize..16_390),
    ];
    (shape, metas(), any::<u64>(), prop_oneof![2 => Just(M::Copy), 1 => Just(M::Bcj(0)), 1 => Just(M::Delta(0))], hdr_opts(true), password())
        .prop_map(|((shape, n), metas, seed, m, h, password)| {
            let mut r = crate::util::Rng::new(seed);
            let entry = |i: usize, r: &mut crate::util::Rng| GEntry {
                meta: nth_meta(&metas, i),
                data: Data(vec![Seg::Ramp(r.next() as u8, (r.next() % 4) as u32)]),
                crc: seed % 5 == 0 || r.next() % 5 != 0,
            };
            let block = |e: Vec<GEntry>, r: &mut crate::util::Rng| GBlock {
                chain: Chain::Linear(vec![m.clone()]),
                perm: 0,
                folder_crc: seed % 3 == 0 || (seed % 3 == 1 && r.next() % 2 == 0),
                entries: e,
            };
            let mut blocks = vec![];
            let mut empties = vec![];
            match shape {
                0 => {
                    let e: Vec<_> = (0..n).map(|i| entry(i, &mut r)).collect();
                    blocks.push(block(e, &mut r));
                }
                1 | 2 => {
                    let mut k = 0;
                    for _ in 0..n {
                        let c = if shape == 1 { 1 } else { (r.next() % 4) as usize };
                        let e: Vec<_> = (k..k + c).map(|i| entry(i, &mut r)).collect();
                        k += c;
                        blocks.push(block(e, &mut r));
                    }
                }
                _ => {
                    let e: Vec<_> = (0..3).map(|i| entry(n + i, &mut r)).collect();
                    blocks.push(block(e, &mut r));
                }
            }
            let many = if shape == 3 { n } else { (r.next() % 12) as usize };
            for i in 0..many {
                empties.push(GEmpty { meta: nth_meta(&metas, 100_000 + i), at: r.next() as u16, kind: (r.next() % 4) as u8 });
            }
            GArch { blocks, empties, h, password }
        })
        .boxed()
}
impl GArch {
    pub fn uses_aes(&self) -> bool {
        let a = |v: &[M]| v.iter().any(|m| m.is_aes());
        self.blocks.iter().any(|b| match &b.chain {
            Chain::Linear(v) => a(v),
            Chain::Bcj2(_, s) => s.iter().any(|v| a(v)),
        }) || self.h.encoded.as_ref().map(|v| a(v)).unwrap_or(false)
    }
    pub fn pw(&self) -> Vec<u8> {
        utf16(&self.password)
    }
    /// The archive's parts, and what reading it has to give.
    pub fn spec(&self) -> (Spec, Vec<Expect>) {
        let pw = self.pw();
        let mut folders = vec![];
        let mut exp: Vec<Expect> = vec![];
        for (fi, b) in self.blocks.iter().enumerate() {
            let datas: Vec<Vec<u8>> = b.entries.iter().map(|e| e.data.bytes()).collect();
            let all: Vec<u8> = datas.concat();
            let mut f = match &b.chain {
                Chain::Linear(v) => linear_folder(v, &all, &pw, b.perm),
                Chain::Bcj2(m, s) => {
                    let s: [Vec<M>; 4] = [s[0].clone(), s[1].clone(), s[2].clone(), s[3].clone()];
                    bcj2_folder(*m, &s, &all, &pw, b.perm)
                }
            };
            f.crc = if b.folder_crc { Some(crc32(&all)) } else { None };
            for (e, d) in b.entries.iter().zip(datas) {
                let crc = if e.crc || (b.folder_crc && b.entries.len() == 1) { Some(crc32(&d)) } else { None };
                f.subs.push((d.len() as u64, crc));
                let m = &e.meta;
                exp.push(Expect {
                    rec: FileRec { name: m.name.clone(), stream: true, dir: false, anti: false, c: m.c, a: m.a, m: m.m, attr: m.attr },
                    data: d,
                    crc,
                    folder: Some(fi),
                });
            }
            folders.push(f);
        }
        for e in &self.empties {
            let at = e.at as usize % (exp.len() + 1);
            let m = &e.meta;
            exp.insert(
                at,
                Expect {
                    rec: FileRec {
                        name: m.name.clone(),
                        stream: false,
                        dir: e.kind % 2 == 0,
                        anti: e.kind >= 2,
                        c: m.c,
                        a: m.a,
                        m: m.m,
                        attr: m.attr,
                    },
                    data: vec![],
                    crc: None,
                    folder: None,
                },
            );
        }
        let files = exp.iter().map(|e| e.rec.clone()).collect();
        (Spec { folders, files, h: self.h.clone(), password: pw, mutate: vec![] }, exp)
    }
    pub fn nontrivial(&self) -> bool {
        self.blocks.iter().any(|b| !b.entries.is_empty()) || self.empties.len() > 1
    }
}
