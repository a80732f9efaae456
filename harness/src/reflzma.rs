//! Own LZMA model written from the LZMA specification: a strict decoder, and an encoder driven by explicit tokens.
use serde::{Deserialize, Serialize};

const INIT: u16 = 1024;

struct LenProbs {
    choice: [u16; 2],
    low: [[u16; 8]; 16],
    mid: [[u16; 8]; 16],
    high: [u16; 256],
}
impl LenProbs {
    fn new() -> Self {
        LenProbs { choice: [INIT; 2], low: [[INIT; 8]; 16], mid: [[INIT; 8]; 16], high: [INIT; 256] }
    }
}
struct Probs {
    lit: Vec<u16>,
    is_match: [[u16; 16]; 12],
    is_rep: [u16; 12],
    is_rep_g0: [u16; 12],
    is_rep_g1: [u16; 12],
    is_rep_g2: [u16; 12],
    is_rep0_long: [[u16; 16]; 12],
    pos_slot: [[u16; 64]; 4],
    pos_special: [u16; 128],
    align: [u16; 16],
    len: LenProbs,
    rep_len: LenProbs,
}
impl Probs {
    fn new(lc: u32, lp: u32) -> Self {
        Probs {
            lit: vec![INIT; 0x300usize << (lc + lp)],
            is_match: [[INIT; 16]; 12],
            is_rep: [INIT; 12],
            is_rep_g0: [INIT; 12],
            is_rep_g1: [INIT; 12],
            is_rep_g2: [INIT; 12],
            is_rep0_long: [[INIT; 16]; 12],
            pos_slot: [[INIT; 64]; 4],
            pos_special: [INIT; 128],
            align: [INIT; 16],
            len: LenProbs::new(),
            rep_len: LenProbs::new(),
        }
    }
}
fn st_lit(s: usize) -> usize {
    if s < 4 {
        0
    } else if s < 10 {
        s - 3
    } else {
        s - 6
    }
}
fn st_match(s: usize) -> usize {
    if s < 7 {
        7
    } else {
        10
    }
}
fn st_rep(s: usize) -> usize {
    if s < 7 {
        8
    } else {
        11
    }
}
fn st_short(s: usize) -> usize {
    if s < 7 {
        9
    } else {
        11
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Props {
    pub lc: u32,
    pub lp: u32,
    pub pb: u32,
}
impl Props {
    pub fn byte(&self) -> u8 {
        ((self.pb * 5 + self.lp) * 9 + self.lc) as u8
    }
    pub fn from_byte(b: u8) -> Option<Props> {
        if b >= 9 * 5 * 5 {
            return None;
        }
        let b = b as u32;
        Some(Props { lc: b % 9, lp: b / 9 % 5, pb: b / 45 })
    }
}

// ------------------------------------------------------------------------------------------ decoder
struct Rd<'a> {
    data: &'a [u8],
    pos: usize,
    range: u32,
    code: u32,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct BadStream(pub &'static str);
type R<T> = Result<T, BadStream>;
fn bad<T>(s: &'static str) -> R<T> {
    Err(BadStream(s))
}
impl<'a> Rd<'a> {
    fn new(data: &'a [u8]) -> R<Self> {
        if data.len() < 5 {
            return bad("range coder init truncated");
        }
        if data[0] != 0 {
            return bad("range coder first byte");
        }
        let code = u32::from_be_bytes([data[1], data[2], data[3], data[4]]);
        if code == u32::MAX {
            return bad("range coder initial code");
        }
        Ok(Rd { data, pos: 5, range: u32::MAX, code })
    }
    fn norm(&mut self) -> R<()> {
        if self.range < 1 << 24 {
            if self.pos >= self.data.len() {
                return bad("truncated");
            }
            self.range <<= 8;
            self.code = (self.code << 8) | self.data[self.pos] as u32;
            self.pos += 1;
        }
        Ok(())
    }
    fn bit(&mut self, p: &mut u16) -> R<usize> {
        self.norm()?;
        let bound = (self.range >> 11) * *p as u32;
        if self.code < bound {
            self.range = bound;
            *p += (2048 - *p) >> 5;
            Ok(0)
        } else {
            self.range -= bound;
            self.code -= bound;
            *p -= *p >> 5;
            Ok(1)
        }
    }
    fn direct(&mut self, n: u32) -> R<u32> {
        let mut r = 0;
        for _ in 0..n {
            self.norm()?;
            self.range >>= 1;
            let b = if self.code >= self.range {
                self.code -= self.range;
                1
            } else {
                0
            };
            r = r << 1 | b;
        }
        Ok(r)
    }
    fn tree(&mut self, p: &mut [u16], bits: u32) -> R<usize> {
        let mut m = 1;
        for _ in 0..bits {
            m = m << 1 | self.bit(&mut p[m])?;
        }
        Ok(m - (1 << bits))
    }
    fn rtree(&mut self, p: &mut [u16], bits: u32) -> R<usize> {
        let mut m = 1;
        let mut s = 0;
        for i in 0..bits {
            let b = self.bit(&mut p[m])?;
            m = m << 1 | b;
            s |= b << i;
        }
        Ok(s)
    }
}
fn dec_len(rd: &mut Rd, l: &mut LenProbs, ps: usize) -> R<usize> {
    if rd.bit(&mut l.choice[0])? == 0 {
        Ok(2 + rd.tree(&mut l.low[ps], 3)?)
    } else if rd.bit(&mut l.choice[1])? == 0 {
        Ok(10 + rd.tree(&mut l.mid[ps], 3)?)
    } else {
        Ok(18 + rd.tree(&mut l.high, 8)?)
    }
}

#[derive(Default, Debug, Clone)]
pub struct DecStats {
    pub max_dist: u64,
    pub lits: u64,
    pub matches: u64,
    pub reps: [u64; 4],
    pub short_reps: u64,
    pub eos: bool,
}
struct Dec {
    pr: Props,
    p: Probs,
    state: usize,
    reps: [u32; 4],
}
impl Dec {
    fn new(pr: Props) -> Self {
        Dec { pr, p: Probs::new(pr.lc, pr.lp), state: 0, reps: [0; 4] }
    }
    fn reset(&mut self) {
        *self = Dec::new(self.pr);
    }
    /// Decodes until `end` bytes are in `out` (history starts at `base`) or the end marker; Ok(true) on end marker.
    fn run(
        &mut self,
        rd: &mut Rd,
        out: &mut Vec<u8>,
        base: usize,
        end: usize,
        dict: u64,
        st: &mut DecStats,
    ) -> R<bool> {
        while out.len() < end {
            if self.one(rd, out, base, end, dict, st)? {
                return Ok(true);
            }
        }
        Ok(false)
    }
    fn one(&mut self, rd: &mut Rd, out: &mut Vec<u8>, base: usize, end: usize, dict: u64, st: &mut DecStats) -> R<bool> {
        let pos = out.len() - base;
        let ps = pos & ((1 << self.pr.pb) - 1);
        let s = self.state;
        if rd.bit(&mut self.p.is_match[s][ps])? == 0 {
            let prev = if pos == 0 { 0 } else { out[out.len() - 1] as usize };
            let ls = ((pos & ((1 << self.pr.lp) - 1)) << self.pr.lc) + (prev >> (8 - self.pr.lc));
            let pl = &mut self.p.lit[0x300 * ls..0x300 * ls + 0x300];
            let mut sym = 1usize;
            if s >= 7 {
                let d = self.reps[0] as usize + 1;
                if d > pos {
                    return bad("match byte before the start");
                }
                let mut mb = out[out.len() - d] as usize;
                loop {
                    let mbit = mb >> 7 & 1;
                    mb <<= 1;
                    let b = rd.bit(&mut pl[((1 + mbit) << 8) + sym])?;
                    sym = sym << 1 | b;
                    if mbit != b || sym >= 0x100 {
                        break;
                    }
                }
            }
            while sym < 0x100 {
                sym = sym << 1 | rd.bit(&mut pl[sym])?;
            }
            out.push(sym as u8);
            self.state = st_lit(s);
            st.lits += 1;
            return Ok(false);
        }
        let len;
        if rd.bit(&mut self.p.is_rep[s])? != 0 {
            if pos == 0 {
                return bad("rep at start");
            }
            if rd.bit(&mut self.p.is_rep_g0[s])? == 0 {
                if rd.bit(&mut self.p.is_rep0_long[s][ps])? == 0 {
                    self.state = st_short(s);
                    st.short_reps += 1;
                    let d = self.reps[0] as usize + 1;
                    if d > pos || d as u64 > dict {
                        return bad("short rep distance");
                    }
                    st.max_dist = st.max_dist.max(d as u64);
                    let b = out[out.len() - d];
                    out.push(b);
                    return Ok(false);
                }
                st.reps[0] += 1;
            } else {
                let i = if rd.bit(&mut self.p.is_rep_g1[s])? == 0 {
                    1
                } else if rd.bit(&mut self.p.is_rep_g2[s])? == 0 {
                    2
                } else {
                    3
                };
                st.reps[i] += 1;
                let d = self.reps[i];
                for k in (1..=i).rev() {
                    self.reps[k] = self.reps[k - 1];
                }
                self.reps[0] = d;
            }
            len = dec_len(rd, &mut self.p.rep_len, ps)?;
            self.state = st_rep(s);
        } else {
            self.reps[3] = self.reps[2];
            self.reps[2] = self.reps[1];
            self.reps[1] = self.reps[0];
            len = dec_len(rd, &mut self.p.len, ps)?;
            self.state = st_match(s);
            let ls = (len - 2).min(3);
            let slot = rd.tree(&mut self.p.pos_slot[ls], 6)? as u32;
            self.reps[0] = if slot < 4 {
                slot
            } else {
                let nb = (slot >> 1) - 1;
                let base = (2 | (slot & 1)) << nb;
                if slot < 14 {
                    let off = (base - slot) as usize;
                    base + rd.rtree(&mut self.p.pos_special[off..], nb)? as u32
                } else {
                    base.wrapping_add(rd.direct(nb - 4)? << 4).wrapping_add(rd.rtree(&mut self.p.align, 4)? as u32)
                }
            };
            st.matches += 1;
            if self.reps[0] == u32::MAX {
                rd.norm()?;
                st.eos = true;
                return if len == 2 { Ok(true) } else { bad("end marker length") };
            }
        }
        let d = self.reps[0] as usize + 1;
        if d > pos || d as u64 > dict {
            return bad("distance");
        }
        st.max_dist = st.max_dist.max(d as u64);
        let room = end - out.len();
        for _ in 0..len.min(room) {
            let b = out[out.len() - d];
            out.push(b);
        }
        if len > room {
            return bad("match past the end");
        }
        Ok(false)
    }
}

/// Strict raw LZMA decoding. `size` None: until the end marker.
pub fn lzma_decode(pr: Props, dict: u64, preset: &[u8], data: &[u8], size: Option<usize>) -> R<(Vec<u8>, usize, DecStats)> {
    let mut rd = Rd::new(data)?;
    let mut d = Dec::new(pr);
    let mut out = preset.to_vec();
    let mut st = DecStats::default();
    let end = size.map(|s| s + preset.len()).unwrap_or(1 << 40);
    let eos = d.run_with_preset(&mut rd, &mut out, preset.len(), end, dict, &mut st)?;
    if size.is_none() && !eos {
        return bad("no end marker");
    }
    if let Some(s) = size {
        if out.len() - preset.len() != s {
            return bad("short");
        }
    }
    Ok((out.split_off(preset.len()), rd.pos, st))
}
/// Everything the stream defines up to its first error, at most `cap` bytes, and how it ends.
/// Lenient where decoders differ: what follows the last symbol is not looked at.
pub fn lzma_upto(pr: Props, dict: u64, preset: &[u8], data: &[u8], size: Option<u64>, cap: usize) -> (Vec<u8>, R<()>) {
    if data.len() < 5 || data[0] != 0 {
        return (vec![], bad("range coder init"));
    }
    let code = u32::from_be_bytes([data[1], data[2], data[3], data[4]]);
    let mut rd = Rd { data, pos: 5, range: u32::MAX, code };
    let mut d = Dec::new(pr);
    let mut out = preset.to_vec();
    let mut st = DecStats::default();
    let whole = size.unwrap_or(1 << 40).min(1 << 40) as usize;
    let end = preset.len() + whole.min(cap);
    let r = d.run_with_preset(&mut rd, &mut out, preset.len(), end, dict, &mut st);
    let out = out.split_off(preset.len());
    let r = match r {
        Err(BadStream("match past the end")) if whole > cap => bad("cap"),
        // decoders do not look at the length of the end marker
        Err(BadStream("end marker length")) if size.is_none() => Ok(()),
        Err(e) => Err(e),
        Ok(true) if size.is_none() => Ok(()),
        Ok(true) => bad("end marker"),
        Ok(false) if whole > cap => bad("cap"),
        Ok(false) => Ok(()),
    };
    (out, r)
}
impl Dec {
    /// A preset dictionary supplies history but does not count for the position.
    fn run_with_preset(&mut self, rd: &mut Rd, out: &mut Vec<u8>, pre: usize, end: usize, dict: u64, st: &mut DecStats) -> R<bool> {
        // position counting starts after the preset dictionary only when its length is a multiple of 16;
        // callers restrict themselves to that or to an empty preset dictionary
        debug_assert!(pre % 16 == 0);
        self.run(rd, out, 0, end, dict, st)
    }
}

#[derive(Default, Debug, Clone)]
pub struct Lzma2Stats {
    pub lzma_chunks: u64,
    pub raw_chunks: u64,
    pub state_resets: u64,
    pub prop_resets: u64,
    pub dict_resets: u64,
    pub max_unpacked: usize,
    pub max_packed: usize,
    pub dec: DecStats,
}
/// Strict LZMA2 decoding; returns output, consumed bytes and statistics.
pub fn lzma2_decode(dict: u64, data: &[u8]) -> R<(Vec<u8>, usize, Lzma2Stats)> {
    let mut out = vec![];
    let mut base = 0;
    let mut pos = 0;
    let mut st = Lzma2Stats::default();
    let mut dec: Option<Dec> = None;
    let mut need_dict = true;
    let mut need_props = true;
    let mut need_state = true;
    loop {
        let c = *data.get(pos).ok_or(BadStream("truncated"))?;
        pos += 1;
        if c == 0 {
            return Ok((out, pos, st));
        }
        if c == 1 || c >= 0xE0 {
            need_dict = false;
            base = out.len();
            st.dict_resets += 1;
            if c == 1 {
                // a dictionary reset also requires new properties before the next LZMA chunk
                need_props = true;
            }
        } else if need_dict {
            return bad("dictionary reset missing");
        }
        if c < 0x80 {
            if c > 2 {
                return bad("control byte");
            }
            let h = data.get(pos..pos + 2).ok_or(BadStream("truncated"))?;
            let n = (h[0] as usize) << 8 | h[1] as usize;
            let n = n + 1;
            pos += 2;
            out.extend_from_slice(data.get(pos..pos + n).ok_or(BadStream("truncated"))?);
            pos += n;
            st.raw_chunks += 1;
            need_state = true;
            continue;
        }
        let h = data.get(pos..pos + 4).ok_or(BadStream("truncated"))?;
        let un = ((c as usize & 0x1F) << 16 | (h[0] as usize) << 8 | h[1] as usize) + 1;
        let pk = ((h[2] as usize) << 8 | h[3] as usize) + 1;
        pos += 4;
        if c >= 0xC0 {
            let p = Props::from_byte(*data.get(pos).ok_or(BadStream("truncated"))?).ok_or(BadStream("props"))?;
            if p.lc + p.lp > 4 {
                return bad("lc + lp");
            }
            pos += 1;
            dec = Some(Dec::new(p));
            need_props = false;
            need_state = false;
            st.prop_resets += 1;
        } else if need_props {
            return bad("props missing");
        } else if c >= 0xA0 {
            dec.as_mut().unwrap().reset();
            need_state = false;
            st.state_resets += 1;
        } else if need_state {
            return bad("state reset missing");
        }
        let d = dec.as_mut().unwrap();
        let chunk = data.get(pos..pos + pk).ok_or(BadStream("truncated"))?;
        let mut rd = Rd::new(chunk)?;
        let end = out.len() + un;
        if d.run(&mut rd, &mut out, base, end, dict, &mut st.dec)? {
            return bad("end marker in LZMA2");
        }
        rd.norm()?;
        if rd.code != 0 || rd.pos != pk {
            return bad("chunk not finished exactly");
        }
        st.lzma_chunks += 1;
        st.max_unpacked = st.max_unpacked.max(un);
        st.max_packed = st.max_packed.max(pk);
        pos += pk;
    }
}

// ------------------------------------------------------------------------------------------ encoder
struct Re {
    low: u64,
    range: u32,
    cache: u8,
    cache_size: u64,
    out: Vec<u8>,
}
impl Re {
    fn new() -> Self {
        Re { low: 0, range: u32::MAX, cache: 0, cache_size: 1, out: vec![] }
    }
    fn shift(&mut self) {
        if self.low < 0xFF00_0000 || self.low >= 1 << 32 {
            let carry = (self.low >> 32) as u8;
            let mut c = self.cache;
            loop {
                self.out.push(c.wrapping_add(carry));
                c = 0xFF;
                self.cache_size -= 1;
                if self.cache_size == 0 {
                    break;
                }
            }
            self.cache = (self.low >> 24) as u8;
        }
        self.cache_size += 1;
        self.low = (self.low & 0x00FF_FFFF) << 8;
    }
    fn bit(&mut self, p: &mut u16, b: usize) {
        let bound = (self.range >> 11) * *p as u32;
        if b == 0 {
            self.range = bound;
            *p += (2048 - *p) >> 5;
        } else {
            self.low += bound as u64;
            self.range -= bound;
            *p -= *p >> 5;
        }
        while self.range < 1 << 24 {
            self.range <<= 8;
            self.shift();
        }
    }
    fn direct(&mut self, v: u32, n: u32) {
        for i in (0..n).rev() {
            self.range >>= 1;
            if v >> i & 1 != 0 {
                self.low += self.range as u64;
            }
            while self.range < 1 << 24 {
                self.range <<= 8;
                self.shift();
            }
        }
    }
    fn tree(&mut self, p: &mut [u16], bits: u32, v: usize) {
        let mut m = 1;
        for i in (0..bits).rev() {
            let b = v >> i & 1;
            self.bit(&mut p[m], b);
            m = m << 1 | b;
        }
    }
    fn rtree(&mut self, p: &mut [u16], bits: u32, v: usize) {
        let mut m = 1;
        for i in 0..bits {
            let b = v >> i & 1;
            self.bit(&mut p[m], b);
            m = m << 1 | b;
        }
    }
    fn finish(mut self) -> Vec<u8> {
        for _ in 0..5 {
            self.shift();
        }
        self.out
    }
    /// upper bound of the size if finished now
    fn size(&self) -> usize {
        self.out.len() + self.cache_size as usize + 5
    }
}
fn enc_len(re: &mut Re, l: &mut LenProbs, ps: usize, len: usize) {
    let n = len - 2;
    if n < 8 {
        re.bit(&mut l.choice[0], 0);
        re.tree(&mut l.low[ps], 3, n);
    } else if n < 16 {
        re.bit(&mut l.choice[0], 1);
        re.bit(&mut l.choice[1], 0);
        re.tree(&mut l.mid[ps], 3, n - 8);
    } else {
        re.bit(&mut l.choice[0], 1);
        re.bit(&mut l.choice[1], 1);
        re.tree(&mut l.high, 8, n - 16);
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tok {
    Lit(u8),
    /// pseudo-random literals
    Lits(u64, u16),
    /// distance (reduced modulo what is available), length (clamped)
    Match(u32, u16),
    /// match at the far end of the dictionary
    Far(u16),
    Rep(u8, u16),
    ShortRep,
}

/// Token-driven LZMA encoder with full history.
pub struct TokEnc {
    pr: Props,
    p: Probs,
    state: usize,
    reps: [u32; 4],
    re: Re,
    pub out: Vec<u8>,
    base: usize,
    dict: usize,
}
impl TokEnc {
    pub fn new(pr: Props, dict: usize) -> Self {
        TokEnc { pr, p: Probs::new(pr.lc, pr.lp), state: 0, reps: [0; 4], re: Re::new(), out: vec![], base: 0, dict }
    }
    fn hist(&self) -> usize {
        (self.out.len() - self.base).min(self.dict)
    }
    fn ps(&self) -> usize {
        (self.out.len() - self.base) & ((1 << self.pr.pb) - 1)
    }
    fn lit(&mut self, b: u8) {
        let pos = self.out.len() - self.base;
        let ps = self.ps();
        let s = self.state;
        self.re.bit(&mut self.p.is_match[s][ps], 0);
        let prev = if pos == 0 { 0 } else { self.out[self.out.len() - 1] as usize };
        let ls = ((pos & ((1 << self.pr.lp) - 1)) << self.pr.lc) + (prev >> (8 - self.pr.lc));
        let pl = &mut self.p.lit[0x300 * ls..0x300 * ls + 0x300];
        let mut sym = 1usize;
        let mut i = 8;
        if s >= 7 {
            let mut mb = self.out[self.out.len() - self.reps[0] as usize - 1] as usize;
            loop {
                i -= 1;
                let mbit = mb >> 7 & 1;
                mb <<= 1;
                let bit = b as usize >> i & 1;
                self.re.bit(&mut pl[((1 + mbit) << 8) + sym], bit);
                sym = sym << 1 | bit;
                if mbit != bit || i == 0 {
                    break;
                }
            }
        }
        while i > 0 {
            i -= 1;
            let bit = b as usize >> i & 1;
            self.re.bit(&mut pl[sym], bit);
            sym = sym << 1 | bit;
        }
        self.out.push(b);
        self.state = st_lit(s);
    }
    fn copy(&mut self, d: usize, len: usize) {
        for _ in 0..len {
            let b = self.out[self.out.len() - d];
            self.out.push(b);
        }
    }
    fn enc_dist(&mut self, dist: u32, len: usize) {
        let ls = (len - 2).min(3);
        let slot = if dist < 4 {
            dist
        } else {
            let n = 31 - dist.leading_zeros();
            n * 2 + (dist >> (n - 1) & 1)
        };
        self.re.tree(&mut self.p.pos_slot[ls], 6, slot as usize);
        if slot >= 4 {
            let nb = (slot >> 1) - 1;
            let base = (2 | (slot & 1)) << nb;
            let rest = dist - base;
            if slot < 14 {
                let off = (base - slot) as usize;
                self.re.rtree(&mut self.p.pos_special[off..], nb, rest as usize);
            } else {
                self.re.direct(rest >> 4, nb - 4);
                self.re.rtree(&mut self.p.align, 4, (rest & 15) as usize);
            }
        }
    }
    fn mat(&mut self, d: usize, len: usize) {
        let ps = self.ps();
        let s = self.state;
        self.re.bit(&mut self.p.is_match[s][ps], 1);
        self.re.bit(&mut self.p.is_rep[s], 0);
        enc_len(&mut self.re, &mut self.p.len, ps, len);
        self.enc_dist(d as u32 - 1, len);
        self.reps = [d as u32 - 1, self.reps[0], self.reps[1], self.reps[2]];
        self.state = st_match(s);
        self.copy(d, len);
    }
    fn short(&mut self) {
        let ps = self.ps();
        let s = self.state;
        self.re.bit(&mut self.p.is_match[s][ps], 1);
        self.re.bit(&mut self.p.is_rep[s], 1);
        self.re.bit(&mut self.p.is_rep_g0[s], 0);
        self.re.bit(&mut self.p.is_rep0_long[s][ps], 0);
        self.state = st_short(s);
        self.copy(self.reps[0] as usize + 1, 1);
    }
    fn rep(&mut self, i: usize, len: usize) {
        let ps = self.ps();
        let s = self.state;
        self.re.bit(&mut self.p.is_match[s][ps], 1);
        self.re.bit(&mut self.p.is_rep[s], 1);
        if i == 0 {
            self.re.bit(&mut self.p.is_rep_g0[s], 0);
            self.re.bit(&mut self.p.is_rep0_long[s][ps], 1);
        } else {
            self.re.bit(&mut self.p.is_rep_g0[s], 1);
            if i == 1 {
                self.re.bit(&mut self.p.is_rep_g1[s], 0);
            } else {
                self.re.bit(&mut self.p.is_rep_g1[s], 1);
                self.re.bit(&mut self.p.is_rep_g2[s], i - 2);
            }
            let d = self.reps[i];
            for k in (1..=i).rev() {
                self.reps[k] = self.reps[k - 1];
            }
            self.reps[0] = d;
        }
        enc_len(&mut self.re, &mut self.p.rep_len, ps, len);
        self.state = st_rep(s);
        self.copy(self.reps[0] as usize + 1, len);
    }
    fn rep_ok(&self, i: usize) -> bool {
        (self.reps[i] as usize) < self.hist()
    }
    /// Applies a token as far as legal, producing at most `room` bytes.
    pub fn tok(&mut self, t: &Tok, room: usize) {
        let l = |n: u16| ((n as usize).clamp(2, 273)).min(room);
        match t {
            Tok::Lit(b) if room >= 1 => self.lit(*b),
            Tok::Lits(seed, n) => {
                let mut r = crate::util::Rng::new(*seed);
                let wide = seed & 1 == 0;
                for _ in 0..(*n as usize).min(room) {
                    let b = if wide { r.byte() } else { b'a' + r.below(6) as u8 };
                    self.lit(b);
                }
            }
            Tok::Match(d, n) => {
                let h = self.hist();
                if h > 0 && l(*n) >= 2 {
                    self.mat(*d as usize % h + 1, l(*n));
                }
            }
            Tok::Far(n) => {
                let h = self.hist();
                if h > 0 && l(*n) >= 2 {
                    self.mat(h, l(*n));
                }
            }
            Tok::Rep(i, n) => {
                let i = *i as usize & 3;
                if self.rep_ok(i) && l(*n) >= 2 {
                    self.rep(i, l(*n));
                }
            }
            Tok::ShortRep if room >= 1 && self.rep_ok(0) => self.short(),
            _ => {}
        }
    }
    pub fn eos(&mut self) {
        let ps = self.ps();
        let s = self.state;
        self.re.bit(&mut self.p.is_match[s][ps], 1);
        self.re.bit(&mut self.p.is_rep[s], 0);
        enc_len(&mut self.re, &mut self.p.len, ps, 2);
        self.enc_dist(u32::MAX, 2);
    }
    pub fn finish(self) -> (Vec<u8>, Vec<u8>) {
        (self.re.finish(), self.out)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Chunk {
    /// raw chunk with the bytes of `Data`; `reset`: dictionary reset
    Raw { seed: u64, len: u32, reset: bool },
    /// LZMA chunk; reset 0: none, 1: state, 2: state + new props, 3: all
    Lzma { reset: u8, props: Props, toks: Vec<Tok> },
    /// LZMA chunk filled to the largest unpacked size with long matches
    MaxLzma { reset: u8, props: Props },
}

/// Builds an LZMA2 stream; resets are raised to what the format requires.
pub fn lzma2_build(dict: usize, chunks: &[Chunk]) -> (Vec<u8>, Vec<u8>) {
    let mut e = TokEnc::new(Props { lc: 3, lp: 0, pb: 2 }, dict);
    let mut s = vec![];
    let (mut need_dict, mut need_props, mut need_state) = (true, true, true);
    for c in chunks {
        match c {
            Chunk::Raw { seed, len, reset } => {
                let n = (*len as usize).clamp(1, 1 << 16);
                let reset = *reset || need_dict;
                s.push(if reset { 1 } else { 2 });
                s.extend_from_slice(&((n - 1) as u16).to_be_bytes());
                if reset {
                    e.base = e.out.len();
                    need_props = true;
                    need_dict = false;
                }
                let at = e.out.len();
                e.out.resize(at + n, 0);
                crate::util::Rng::new(*seed).fill(&mut e.out[at..]);
                s.extend_from_slice(&e.out[at..]);
                need_state = true;
            }
            Chunk::Lzma { reset, props, .. } | Chunk::MaxLzma { reset, props } => {
                let mut r = *reset & 3;
                if need_dict {
                    r = 3
                } else if need_props {
                    r = r.max(2)
                } else if need_state {
                    r = r.max(1)
                }
                let mut pr = *props;
                if pr.lc + pr.lp > 4 {
                    pr.lc = 4 - pr.lp.min(4);
                }
                let start = e.out.len();
                if r == 3 {
                    e.base = start;
                }
                let (old_state, old_reps) = (e.state, e.reps);
                if r >= 2 {
                    e.pr = pr;
                }
                let saved;
                if r >= 1 {
                    saved = Some(std::mem::replace(&mut e.p, Probs::new(e.pr.lc, e.pr.lp)));
                    e.state = 0;
                    e.reps = [0; 4];
                } else {
                    saved = None;
                }
                e.re = Re::new();
                match c {
                    Chunk::Lzma { toks, .. } => {
                        for t in toks {
                            if e.re.size() > 60_000 {
                                break;
                            }
                            // one Lits token is at most 65535 literals; keep chunks below the packed limit
                            let room = (1 << 21) - (e.out.len() - start);
                            match t {
                                Tok::Lits(sd, n) => {
                                    let mut k = 0;
                                    while k < *n && e.re.size() < 60_000 {
                                        let m = (*n - k).min(512);
                                        e.tok(&Tok::Lits(sd ^ (k as u64) << 1, m), room.min(m as usize));
                                        k += m;
                                    }
                                }
                                t => e.tok(t, room),
                            }
                        }
                    }
                    _ => {
                        e.tok(&Tok::Lits(7, 40), 40);
                        loop {
                            let room = (1 << 21) - (e.out.len() - start);
                            if room == 0 {
                                break;
                            }
                            if room < 2 {
                                e.tok(&Tok::Lit(1), 1);
                            } else {
                                e.tok(&Tok::Rep(0, 273), room);
                            }
                        }
                    }
                }
                let un = e.out.len() - start;
                if un == 0 {
                    // nothing encoded: drop the chunk, undo the resets
                    if let Some(p) = saved {
                        if r >= 2 {
                            // a fresh model with these props stays; the next chunk resets anyway
                            need_props = true;
                            if r == 3 {
                                need_dict = true;
                            }
                        } else {
                            e.p = p;
                            e.state = old_state;
                            e.reps = old_reps;
                        }
                    }
                    continue;
                }
                need_dict = false;
                need_props = false;
                need_state = false;
                let packed = std::mem::replace(&mut e.re, Re::new()).finish();
                assert!(packed.len() <= 1 << 16 && un <= 1 << 21);
                s.push(0x80 | r << 5 | ((un - 1) >> 16) as u8);
                s.extend_from_slice(&((un - 1) as u16).to_be_bytes());
                s.extend_from_slice(&((packed.len() - 1) as u16).to_be_bytes());
                if r >= 2 {
                    s.push(e.pr.byte());
                }
                s.extend_from_slice(&packed);
            }
        }
    }
    s.push(0);
    (s, e.out)
}
