//! Deterministic data descriptions and I/O wrappers shared by the checks.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Seek, SeekFrom, Write};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn byte(&mut self) -> u8 {
        (self.next() >> 32) as u8
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

/// A piece of content, described compactly so that cases shrink well and replay files stay small.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Seg {
    Lit(Vec<u8>),
    Fill(u8, u32),
    Rand(u64, u32),
    /// words from a small vocabulary
    Text(u64, u32),
    /// bytes from an alphabet of the given size
    Alpha(u64, u8, u32),
    /// repeats earlier output from `back` bytes before (clamped) for `len` bytes
    Copy(u32, u32),
    /// machine-code-like bytes rich in branch opcodes of several architectures
    Code(u64, u32),
    Ramp(u8, u32),
    /// nothing but opcode and operand bytes the branch filters look at
    Dense(u64, u32),
    /// four bytes which give everything so far this CRC-32
    Crc(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Data(pub Vec<Seg>);

impl Data {
    pub fn bytes(&self) -> Vec<u8> {
        let mut o: Vec<u8> = vec![];
        for s in &self.0 {
            match s {
                Seg::Lit(v) => o.extend_from_slice(v),
                Seg::Fill(b, n) => o.resize(o.len() + *n as usize, *b),
                Seg::Rand(seed, n) => {
                    let at = o.len();
                    o.resize(at + *n as usize, 0);
                    Rng::new(*seed).fill(&mut o[at..]);
                }
                Seg::Text(seed, n) => {
                    let mut r = Rng::new(*seed);
                    let end = o.len() + *n as usize;
                    const W: [&str; 12] =
                        ["the ", "archive ", "of ", "seven ", "zip\n", "lzma ", "block, ", "a ", "reader ", "0123 ", "XYZ", "é "];
                    while o.len() < end {
                        o.extend_from_slice(W[r.below(12) as usize].as_bytes());
                        if r.chance(1, 9) {
                            o.push(r.byte());
                        }
                    }
                    o.truncate(end);
                }
                Seg::Alpha(seed, k, n) => {
                    let mut r = Rng::new(*seed);
                    let k = (*k).max(1) as u64;
                    for _ in 0..*n {
                        o.push(b'a'.wrapping_add(r.below(k) as u8));
                    }
                }
                Seg::Copy(back, n) => {
                    if o.is_empty() {
                        o.resize(*n as usize, 0);
                        continue;
                    }
                    let back = (*back as usize).clamp(1, o.len());
                    for _ in 0..*n {
                        let b = o[o.len() - back];
                        o.push(b);
                    }
                }
                Seg::Code(seed, n) => {
                    let mut r = Rng::new(*seed);
                    let end = o.len() + *n as usize;
                    while o.len() < end {
                        match r.below(14) {
                            0 => {
                                o.push(0xE8);
                                let v = (r.below(1 << 20) as u32).wrapping_sub(1 << 19);
                                o.extend_from_slice(&v.to_le_bytes());
                            }
                            1 => {
                                o.push(0xE9);
                                let v = r.next() as u32 & 0x01FF_FFFF;
                                o.extend_from_slice(&v.to_le_bytes());
                            }
                            2 => {
                                o.push(0x0F);
                                o.push(0x80 + r.below(16) as u8);
                                let v = (r.below(1 << 24) as u32).wrapping_sub(1 << 23);
                                o.extend_from_slice(&v.to_le_bytes());
                            }
                            3 => {
                                // ARM BL
                                let v = 0xEB00_0000u32 | (r.next() as u32 & 0xFF_FFFF);
                                o.extend_from_slice(&v.to_le_bytes());
                            }
                            4 => {
                                // ARM Thumb BL pair
                                let a = 0xF000u16 | (r.next() as u16 & 0x7FF);
                                let b = 0xF800u16 | (r.next() as u16 & 0x7FF);
                                o.extend_from_slice(&a.to_le_bytes());
                                o.extend_from_slice(&b.to_le_bytes());
                            }
                            5 => {
                                // PowerPC bl
                                let v = 0x4800_0001u32 | (r.next() as u32 & 0x03FF_FFFC);
                                o.extend_from_slice(&v.to_be_bytes());
                            }
                            6 => {
                                // SPARC call
                                let hi = if r.chance(1, 2) { 0x4000_0000u32 } else { 0x7FC0_0000 };
                                let v = hi | (r.next() as u32 & 0x3F_FFFF);
                                o.extend_from_slice(&v.to_be_bytes());
                            }
                            7 => o.extend_from_slice(&[0xE8, 0xE8, 0xE9]),
                            8 => o.extend_from_slice(&[0xE8, r.byte(), r.byte(), r.byte(), 0xFF]),
                            9 => o.extend_from_slice(&[0xE9, 0, 0, 0, 0]),
                            10 => o.extend_from_slice(&[0xFF, 0x25, 0, 0]),
                            11 => o.extend_from_slice(&[0, 0, 0]),
                            12 => o.push(r.byte()),
                            _ => {
                                for _ in 0..r.below(6) {
                                    o.push(r.byte());
                                }
                            }
                        }
                    }
                    o.truncate(end);
                }
                Seg::Dense(seed, n) => {
                    let mut r = Rng::new(*seed);
                    const A: [u8; 24] = [
                        0xE8, 0xE9, 0x0F, 0x80, 0x8F, 0, 0xFF, 0xEB, 0xF0, 0xF8, 0x48, 0x4B, 0x40, 0x7F, 0xC0, 1, 0xFE, 0xF7, 0x3F, 0x90, 0xE8, 0, 0xFF,
                        0xE9,
                    ];
                    let k = 2 + r.below(23);
                    let off = r.below(24);
                    for _ in 0..*n {
                        o.push(A[((off + r.below(k)) % 24) as usize]);
                    }
                }
                Seg::Crc(want) => {
                    let mut x = !*want;
                    for _ in 0..32 {
                        x = if x >> 31 != 0 { ((x ^ 0xEDB8_8320) << 1) | 1 } else { x << 1 };
                    }
                    let b = x ^ !crc32(&o);
                    o.extend_from_slice(&b.to_le_bytes());
                    debug_assert_eq!(crc32(&o), *want);
                }
                Seg::Ramp(step, n) => {
                    let mut v = 0u8;
                    for _ in 0..*n {
                        o.push(v);
                        v = v.wrapping_add(*step);
                    }
                }
            }
        }
        o
    }
}

/// A length up to `max`, biased to small values and to values near powers of two and format limits.
pub fn len_upto(max: u32) -> BoxedStrategy<u32> {
    let lim = move |v: u32| v.min(max);
    prop_oneof![
        4 => (0u32..=40).prop_map(lim),
        4 => (0u32..=2000).prop_map(lim),
        3 => (0u32..=70_000).prop_map(lim),
        2 => (0u32..=28u32, -2i64..=2).prop_map(move |(s, d)| (((1i64 << s) + d).max(0) as u32).min(max)),
        2 => 0u32..=max,
    ]
    .boxed()
}
pub fn seg(max: u32) -> BoxedStrategy<Seg> {
    prop_oneof![
        2 => proptest::collection::vec(any::<u8>(), 0..24).prop_map(Seg::Lit),
        2 => (any::<u8>(), len_upto(max)).prop_map(|(b, n)| Seg::Fill(b, n)),
        3 => (0u64..1 << 32, len_upto(max)).prop_map(|(s, n)| Seg::Rand(s, n)),
        3 => (0u64..1 << 32, len_upto(max)).prop_map(|(s, n)| Seg::Text(s, n)),
        2 => (0u64..1 << 32, 1u8..20, len_upto(max)).prop_map(|(s, k, n)| Seg::Alpha(s, k, n)),
        2 => (len_upto(max), len_upto(max.min(20_000))).prop_map(|(b, n)| Seg::Copy(b, n)),
        2 => (0u64..1 << 32, len_upto(max)).prop_map(|(s, n)| Seg::Code(s, n)),
        1 => (any::<u8>(), len_upto(max)).prop_map(|(s, n)| Seg::Ramp(s, n)),
    ]
    .boxed()
}
/// Content of up to `max` bytes per segment and up to 5 segments.
pub fn data(max: u32) -> BoxedStrategy<Data> {
    prop_oneof![
        1 => Just(Data(vec![])),
        8 => proptest::collection::vec(seg(max), 1..=3).prop_map(Data),
        3 => proptest::collection::vec(seg((max / 8).max(16)), 2..=8).prop_map(Data),
        1 => (seg(max), prop_oneof![3 => Just(0u32), 3 => Just(u32::MAX), 1 => Just(1u32), 1 => Just(1u32 << 31)])
            .prop_map(|(s, c)| Data(vec![s, Seg::Crc(c)])),
    ]
    .boxed()
}

/// How a stream is split into calls; sizes are used cyclically, 0 entries make empty calls where allowed.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Splits(pub Vec<u32>);
impl Splits {
    pub fn whole() -> Self {
        Splits(vec![u32::MAX])
    }
    pub fn at(&self, i: usize) -> usize {
        if self.0.is_empty() {
            usize::MAX
        } else {
            self.0[i % self.0.len()] as usize
        }
    }
    /// every size at least 1
    pub fn at1(&self, i: usize) -> usize {
        self.at(i).max(1)
    }
}
pub fn splits() -> BoxedStrategy<Splits> {
    prop_oneof![
        2 => Just(Splits(vec![u32::MAX])),
        1 => Just(Splits(vec![1])),
        2 => proptest::collection::vec(1u32..=20, 1..5).prop_map(Splits),
        3 => proptest::collection::vec(prop_oneof![1u32..=20, 1u32..=600, 4090u32..=4100, 1u32..=70000], 1..6).prop_map(Splits),
        1 => Just(Splits(vec![4096])),
    ]
    .boxed()
}

/// Reader over a byte vector which returns at most `splits[i]` bytes on its i-th call.
#[derive(Clone)]
pub struct ShortReader {
    pub data: std::rc::Rc<Vec<u8>>,
    pub pos: u64,
    pub splits: Splits,
    pub call: usize,
    pub eof_reads: u64,
}
impl ShortReader {
    pub fn new(data: Vec<u8>, splits: Splits) -> Self {
        ShortReader { data: std::rc::Rc::new(data), pos: 0, splits, call: 0, eof_reads: 0 }
    }
}
impl Read for ShortReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let at = (self.pos.min(self.data.len() as u64)) as usize;
        let n = (self.data.len() - at).min(buf.len()).min(self.splits.at1(self.call));
        self.call += 1;
        buf[..n].copy_from_slice(&self.data[at..at + n]);
        self.pos = (at + n) as u64;
        Ok(n)
    }
}
pub fn seek_to(pos: u64, len: u64, s: SeekFrom) -> io::Result<u64> {
    let n = match s {
        SeekFrom::Start(p) => return Ok(p),
        SeekFrom::End(d) => len as i128 + d as i128,
        SeekFrom::Current(d) => pos as i128 + d as i128,
    };
    if n < 0 || n > i64::MAX as i128 {
        return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek"));
    }
    Ok(n as u64)
}
impl Seek for ShortReader {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.pos = seek_to(self.pos, self.data.len() as u64, s)?;
        Ok(self.pos)
    }
}

/// Growable in-memory file which accepts at most `splits[i]` bytes on its i-th write.
#[derive(Clone, Default)]
pub struct MemFile {
    pub data: Vec<u8>,
    pub pos: u64,
    pub splits: Option<Splits>,
    pub call: usize,
}
impl MemFile {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn short(splits: Splits) -> Self {
        MemFile { splits: Some(splits), ..Default::default() }
    }
}
impl Write for MemFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut n = buf.len();
        if let Some(s) = &self.splits {
            if n > 0 {
                n = n.min(s.at1(self.call));
            }
        }
        self.call += 1;
        let at = self.pos as usize;
        if self.data.len() < at + n {
            self.data.resize(at + n, 0);
        }
        self.data[at..at + n].copy_from_slice(&buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for MemFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let at = (self.pos as usize).min(self.data.len());
        let n = (self.data.len() - at).min(buf.len());
        buf[..n].copy_from_slice(&self.data[at..at + n]);
        self.pos = (at + n) as u64;
        Ok(n)
    }
}
impl Seek for MemFile {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.pos = seek_to(self.pos, self.data.len() as u64, s)?;
        Ok(self.pos)
    }
}

/// Reads to the end with the given buffer sizes; stops with an error beyond `max` bytes.
pub fn read_all(r: &mut dyn Read, splits: &Splits, max: u64) -> io::Result<Vec<u8>> {
    let mut out = vec![];
    let mut buf = vec![0u8; 1 << 16];
    let mut i = 0;
    loop {
        let want = splits.at1(i).min(buf.len());
        i += 1;
        let n = r.read(&mut buf[..want])?;
        if n > want {
            return Err(io::Error::new(io::ErrorKind::Other, "read returned more than the buffer holds"));
        }
        if n == 0 {
            return Ok(out);
        }
        out.extend_from_slice(&buf[..n]);
        if out.len() as u64 > max {
            return Err(io::Error::new(io::ErrorKind::Other, "more data than expected"));
        }
    }
}
pub fn read_whole(r: &mut dyn Read, max: u64) -> io::Result<Vec<u8>> {
    read_all(r, &Splits::whole(), max)
}

/// First difference of two byte strings, for messages.
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!(
        "lengths {} / {}, first difference at {} ({:?} / {:?})",
        a.len(),
        b.len(),
        n,
        a.get(n..(n + 8).min(a.len())).unwrap_or(&[]),
        b.get(n..(n + 8).min(b.len())).unwrap_or(&[])
    )
}
pub fn same(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got/expected differ: {}", diff(got, want)))
    }
}

pub fn crc32(data: &[u8]) -> u32 {
    // independent table-driven CRC-32
    fn table() -> &'static [[u32; 256]; 8] {
        static T: std::sync::OnceLock<Box<[[u32; 256]; 8]>> = std::sync::OnceLock::new();
        T.get_or_init(|| {
            let mut t = Box::new([[0u32; 256]; 8]);
            for i in 0..256u32 {
                let mut c = i;
                for _ in 0..8 {
                    c = if c & 1 != 0 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
                }
                t[0][i as usize] = c;
            }
            for k in 1..8 {
                for i in 0..256 {
                    let p = t[k - 1][i];
                    t[k][i] = (p >> 8) ^ t[0][(p & 255) as usize];
                }
            }
            t
        })
    }
    let t = table();
    let mut c = !0u32;
    let mut ch = data.chunks_exact(8);
    for b in &mut ch {
        let lo = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) ^ c;
        c = t[7][(lo & 255) as usize]
            ^ t[6][(lo >> 8 & 255) as usize]
            ^ t[5][(lo >> 16 & 255) as usize]
            ^ t[4][(lo >> 24) as usize]
            ^ t[3][b[4] as usize]
            ^ t[2][b[5] as usize]
            ^ t[1][b[6] as usize]
            ^ t[0][b[7] as usize];
    }
    for &b in ch.remainder() {
        c = t[0][((c ^ b as u32) & 255) as usize] ^ (c >> 8);
    }
    !c
}

/// The checksum of `start` followed by zeros.
pub fn crc_zeros(start: &[u8], mut zeros: u64) -> u32 {
    let apply = |m: &[u32; 32], v: u32| (0..32).filter(|i| v >> i & 1 == 1).fold(0, |a, i| a ^ m[i]);
    let mut r = !crc32(start);
    // one zero byte
    let mut m = [0u32; 32];
    for (i, c) in m.iter_mut().enumerate() {
        let mut v = 1u32 << i;
        for _ in 0..8 {
            v = v >> 1 ^ if v & 1 == 1 { 0xEDB8_8320 } else { 0 };
        }
        *c = v;
    }
    while zeros > 0 {
        if zeros & 1 == 1 {
            r = apply(&m, r);
        }
        let sq = m;
        for c in m.iter_mut() {
            *c = apply(&sq, *c);
        }
        zeros >>= 1;
    }
    !r
}
/// The checksum of `start`, so many zeros, and `tail`.
pub fn crc_around(start: &[u8], zeros: u64, tail: &[u8]) -> u32 {
    // the checksum is linear but for its constants: c(a b) = c(a 0..) ^ c(b) ^ c(0..)
    crc_zeros(start, zeros + tail.len() as u64) ^ crc32(tail) ^ crc_zeros(&[], tail.len() as u64)
}
