//! C03..C06: LZMA and LZMA2 codecs.
use crate::fw::{Ctx, Obs};
use crate::liblzma as ll;
use crate::reflzma as rl;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sevenz_rust::lzma::{CountingWriter, LZMA2Options, LZMA2Reader, LZMA2Writer, LZMAReader, LZMAWriter};
use std::io::{Read, Write};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Opts {
    pub dict: u32,
    pub lc: u32,
    pub lp: u32,
    pub pb: u32,
    pub normal: bool,
    pub bt4: bool,
    pub nice: u32,
    pub depth: i32,
}
impl Opts {
    pub fn lzma2(&self, preset: Option<Vec<u8>>) -> LZMA2Options {
        let fast = LZMA2Options::with_preset(0);
        let norm = LZMA2Options::with_preset(6);
        let mut o = LZMA2Options::new(
            self.dict,
            self.lc,
            self.lp,
            self.pb,
            if self.normal { norm.mode } else { fast.mode },
            self.nice,
            if self.bt4 { norm.mf } else { fast.mf },
            self.depth,
        );
        o.preset_dict = preset;
        o
    }
    pub fn liblzma(&self, preset: &[u8]) -> ll::OptLzma {
        let mut o = ll::preset(6);
        o.dict_size = self.dict;
        o.lc = self.lc;
        o.lp = self.lp;
        o.pb = self.pb;
        if !preset.is_empty() {
            o.preset_dict = preset.as_ptr();
            o.preset_dict_size = preset.len() as u32;
        }
        o
    }
    pub fn preset(level: u32) -> Opts {
        let o = LZMA2Options::with_preset(level);
        let norm = LZMA2Options::with_preset(6);
        Opts {
            dict: o.dict_size,
            lc: o.lc,
            lp: o.lp,
            pb: o.pb,
            normal: o.mode == norm.mode,
            bt4: format!("{:?}", o.mf) == format!("{:?}", norm.mf),
            nice: o.nice_len,
            depth: o.depth_limit,
        }
    }
}
pub fn dict_size(max_log: u32) -> BoxedStrategy<u32> {
    prop_oneof![
        3 => Just(4096u32),
        3 => (12u32..=max_log).prop_map(|s| 1 << s),
        2 => (12u32..=max_log.min(17), 0u32..4096).prop_map(|(s, d)| (1u32 << s) + d),
        2 => 4096u32..=70_000,
        1 => (12u32..=max_log, 0u32..2).prop_map(|(s, d)| (2 | d) << (s - 1)),
        1 => (12u32..=max_log).prop_map(|s| (1 << s) - 1).prop_map(|v| v.max(4096)),
    ]
    .boxed()
}
/// `wide`: lc up to 8 and lp up to 4 independently (LZMA1); otherwise lc + lp <= 4.
pub fn opts(wide: bool, max_log: u32) -> BoxedStrategy<Opts> {
    let lclp = if wide {
        (0u32..=8, 0u32..=4).boxed()
    } else {
        (0u32..=4).prop_flat_map(|lc| (Just(lc), 0..=(4 - lc))).boxed()
    };
    let lclp = prop_oneof![1 => Just((3u32, 0u32)), 2 => lclp];
    let free = (
        dict_size(max_log),
        lclp,
        0u32..=4,
        any::<bool>(),
        any::<bool>(),
        prop_oneof![Just(8u32), Just(273u32), 8u32..=273],
        prop_oneof![Just(0i32), 1i32..=3, 1i32..=200],
    )
        .prop_map(|(dict, (lc, lp), pb, normal, bt4, nice, depth)| Opts { dict, lc, lp, pb, normal, bt4, nice, depth });
    prop_oneof![1 => (0u32..=6).prop_map(Opts::preset), 5 => free].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EncCase {
    pub opts: Opts,
    pub data: Data,
    /// preset dictionary; `overlap` makes it share content with the data
    pub preset: Option<Data>,
    pub overlap: bool,
    pub writes: Splits,
    /// flush after the i-th write (cyclic)
    pub flush: Vec<bool>,
    pub reads: Splits,
    /// short writes of the sink
    pub sink: Option<Splits>,
}
pub fn enc_case(wide: bool, max: u32, max_log: u32) -> BoxedStrategy<EncCase> {
    (
        opts(wide, max_log),
        data(max),
        prop_oneof![3 => Just(None), 1 => data(9000).prop_map(Some)],
        any::<bool>(),
        splits(),
        prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(any::<bool>(), 1..6), 1 => Just(vec![true])],
        splits(),
        prop_oneof![3 => Just(None), 1 => splits().prop_map(Some)],
    )
        .prop_map(|(opts, data, preset, overlap, writes, flush, reads, sink)| EncCase {
            opts,
            data,
            preset,
            overlap,
            writes,
            flush,
            reads,
            sink,
        })
        .boxed()
}
impl EncCase {
    pub fn bytes(&self) -> (Vec<u8>, Option<Vec<u8>>) {
        let d = self.data.bytes();
        let p = self.preset.as_ref().map(|p| {
            let mut v = p.bytes();
            if self.overlap {
                v.extend_from_slice(&d[..d.len().min(3000)]);
            }
            v
        });
        (d, p)
    }
}

/// Writes `data` with the case's splits (never an empty write, which means "finish" for these writers).
pub fn feed<W: Write>(w: &mut W, data: &[u8], writes: &Splits, flush: &[bool]) -> Result<u64, String> {
    let mut i = 0;
    let mut at = 0;
    let mut flushes = 0;
    while at < data.len() {
        let mut n = writes.at1(i).min(data.len() - at);
        if i > 3000 {
            n = data.len() - at;
        }
        w.write_all(&data[at..at + n]).map_err(|e| format!("write failed: {e}"))?;
        at += n;
        if !flush.is_empty() && flush[i % flush.len()] && flushes < 200 {
            w.flush().map_err(|e| format!("flush failed: {e}"))?;
            flushes += 1;
        }
        i += 1;
    }
    Ok(flushes)
}

pub fn encode_lzma2(c: &EncCase, data: &[u8], preset: Option<Vec<u8>>) -> Result<Vec<u8>, String> {
    let o = c.opts.lzma2(preset);
    let mut sink = MemFile { splits: c.sink.clone(), ..Default::default() };
    {
        let mut w = LZMA2Writer::new(CountingWriter::new(&mut sink), &o);
        feed(&mut w, data, &c.writes, &c.flush)?;
        w.finish().map_err(|e| format!("finish failed: {e}"))?;
    }
    Ok(sink.data)
}
/// After the content: end of stream, stable over further reads.
pub fn expect_eof(r: &mut dyn Read) -> Result<(), String> {
    let mut b = [0u8; 7];
    for _ in 0..3 {
        match r.read(&mut b) {
            Ok(0) => {}
            Ok(n) => return Err(format!("{n} bytes after the end")),
            Err(e) => return Err(format!("error instead of end of stream: {e}")),
        }
    }
    Ok(())
}
fn label_stream(obs: &Obs, st: &rl::Lzma2Stats) {
    obs.label_if(st.raw_chunks > 0, "has stored chunk");
    obs.label_if(st.lzma_chunks > 1, "several LZMA chunks");
    obs.label_if(st.raw_chunks > 0 && st.lzma_chunks > 0, "mixed chunk kinds");
    obs.label_if(st.dec.reps.iter().all(|r| *r > 0) && st.dec.short_reps > 0, "all rep kinds");
}

fn c03_check(c: &EncCase, obs: &Obs) -> Result<(), String> {
    let (data, preset) = c.bytes();
    let enc = encode_lzma2(c, &data, preset.clone())?;
    obs.nontrivial(data.len() > 1);
    obs.label_if(data.len() > 300_000, "window moves");
    obs.label_if(preset.is_some(), "preset dictionary");
    obs.label_if(data.len() as u64 > c.opts.dict as u64, "longer than dictionary");
    let mut r = LZMA2Reader::new(&enc[..], c.opts.dict, preset.as_deref());
    let got = read_all(&mut r, &c.reads, data.len() as u64).map_err(|e| format!("decode failed: {e}"))?;
    same("decoded", &got, &data)?;
    expect_eof(&mut r)?;
    if !r.into_inner().is_empty() {
        return Err("decoder left encoder output unread".into());
    }
    Ok(())
}

/// Inputs exceeding the chunk and window limits.
fn big_case(wide: bool) -> BoxedStrategy<EncCase> {
    let big = prop_oneof![
        2 => (any::<u8>(), 2_000_000u32..2_400_000).prop_map(|(b, n)| vec![Seg::Fill(b, n)]),
        2 => (0u64..1 << 32, 100u32..5000, 2_000_000u32..2_400_000).prop_map(|(s, a, n)| vec![Seg::Rand(s, a), Seg::Copy(a, n)]),
        2 => (0u64..1 << 32, 300_000u32..900_000).prop_map(|(s, n)| vec![Seg::Text(s, n)]),
        2 => (0u64..1 << 32, 300_000u32..900_000).prop_map(|(s, n)| vec![Seg::Rand(s, n)]),
        2 => (0u64..1 << 32, 200_000u32..500_000, 200_000u32..500_000).prop_map(|(s, n, m)| vec![
            Seg::Rand(s, n), Seg::Text(s, m), Seg::Copy(m + 1000, 5000), Seg::Rand(s + 1, 70_000)]),
        1 => (0u64..1 << 32, 60_000u32..70_000).prop_map(|(s, n)| vec![Seg::Rand(s, n), Seg::Copy(n, n), Seg::Rand(s + 1, n), Seg::Fill(1, 300_000), Seg::Copy(400_000, 3000)]),
    ]
    .prop_map(Data);
    (opts(wide, 22), big, splits(), prop_oneof![3 => Just(vec![]), 1 => proptest::collection::vec(any::<bool>(), 1..6)])
        .prop_map(|(mut opts, data, writes, flush)| {
            // bounded match search, so that repetitive input stays fast
            if opts.depth == 0 || opts.depth > 16 {
                opts.depth = 16;
            }
            let w = writes.0.iter().map(|v| (*v).max(3000)).collect();
            EncCase {
                opts,
                data,
                preset: None,
                overlap: false,
                writes: Splits(w),
                flush,
                reads: Splits::whole(),
                sink: None,
            }
        })
        .boxed()
}

pub fn c03(cx: &Ctx) {
    cx.rule("more than one byte of content");
    cx.run("roundtrip", cx.n(6000, 150_000), || enc_case(false, 70_000, 18), c03_check);
    cx.run("large", cx.n(140, 3000), || big_case(false), c03_check);
    cx.run("presets", 60, || {
        (0u32..=9, data(40_000), splits()).prop_map(|(p, data, writes)| EncCase {
            opts: Opts::preset(p), data, preset: None, overlap: false, writes, flush: vec![], reads: Splits::whole(), sink: None,
        }).boxed()
    }, c03_check);
    renumber(cx, true);
    wide_write(cx, true);
    if cx.n(0, 1) > 0 {
        huge(cx, true);
    }
}

// ------------------------------------------------------------------------------------------ LZMA1
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Form {
    HeaderKnown,
    HeaderUnknown,
    /// raw stream with end marker; the decoder is told the size or not
    RawEos { tell: bool },
    RawNoEos,
    /// header with explicit size and an end marker as well
    HeaderKnownEos,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LzmaCase {
    pub enc: EncCase,
    pub form: Form,
}
pub fn lzma_case(max: u32) -> BoxedStrategy<LzmaCase> {
    (
        enc_case(true, max, 18),
        prop_oneof![
            2 => Just(Form::HeaderKnown),
            2 => Just(Form::HeaderUnknown),
            1 => Just(Form::RawEos { tell: true }),
            1 => Just(Form::RawEos { tell: false }),
            2 => Just(Form::RawNoEos),
            1 => Just(Form::HeaderKnownEos),
        ],
    )
        .prop_map(|(mut enc, form)| {
            if matches!(form, Form::HeaderKnown | Form::HeaderUnknown | Form::HeaderKnownEos) {
                enc.preset = None;
            }
            LzmaCase { enc, form }
        })
        .boxed()
}
pub fn encode_lzma(c: &LzmaCase, data: &[u8], preset: Option<Vec<u8>>) -> Result<Vec<u8>, String> {
    let o = c.enc.opts.lzma2(preset);
    let mut sink = MemFile { splits: c.enc.sink.clone(), ..Default::default() };
    {
        let cw = CountingWriter::new(&mut sink);
        let n = data.len() as u64;
        let w = match c.form {
            Form::HeaderKnown => LZMAWriter::new_use_header(cw, &o, Some(n)),
            Form::HeaderUnknown => LZMAWriter::new_use_header(cw, &o, None),
            Form::RawEos { .. } => LZMAWriter::new_no_header(cw, &o, true),
            Form::RawNoEos => LZMAWriter::new_no_header(cw, &o, false),
            Form::HeaderKnownEos => LZMAWriter::new(cw, &o, true, true, Some(n)),
        };
        let mut w = w.map_err(|e| format!("writer: {e}"))?;
        feed(&mut w, data, &c.enc.writes, &c.enc.flush)?;
        w.finish().map_err(|e| format!("finish failed: {e}"))?;
        if w.get_uncompressed_size() != n {
            return Err("get_uncompressed_size differs from what was written".into());
        }
    }
    Ok(sink.data)
}
fn c04_check(c: &LzmaCase, obs: &Obs) -> Result<(), String> {
    let (data, preset) = c.enc.bytes();
    let enc = encode_lzma(c, &data, preset.clone())?;
    obs.nontrivial(data.len() > 1);
    obs.label_if(preset.is_some(), "preset dictionary");
    let o = &c.enc.opts;
    let p = preset.as_deref();
    let n = data.len() as u64;
    let r = match c.form {
        Form::HeaderKnown | Form::HeaderUnknown | Form::HeaderKnownEos => LZMAReader::new_mem_limit(&enc[..], u32::MAX, p),
        Form::RawEos { tell: false } => LZMAReader::new(&enc[..], u64::MAX, o.lc, o.lp, o.pb, o.dict, p),
        Form::RawEos { tell: true } => {
            LZMAReader::new_with_props(&enc[..], n, ((o.pb * 5 + o.lp) * 9 + o.lc) as u8, o.dict, p)
        }
        Form::RawNoEos => LZMAReader::new(&enc[..], n, o.lc, o.lp, o.pb, o.dict, p),
    };
    let mut r = r.map_err(|e| format!("reader: {e}"))?;
    let got = read_all(&mut r, &c.enc.reads, n).map_err(|e| format!("decode failed: {e}"))?;
    same("decoded", &got, &data)?;
    expect_eof(&mut r)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MismatchCase {
    opts: Opts,
    data: Data,
    declared: u64,
    writes: Splits,
}
fn c04_mismatch(c: &MismatchCase, obs: &Obs) -> Result<(), String> {
    let data = c.data.bytes();
    let n = data.len() as u64;
    let declared = if c.declared == n { n + 1 } else { c.declared };
    obs.nontrivial(true);
    let mut sink = MemFile::new();
    let o = c.opts.lzma2(None);
    let mut w = LZMAWriter::new_use_header(CountingWriter::new(&mut sink), &o, Some(declared)).map_err(|e| e.to_string())?;
    let mut at = 0;
    let mut i = 0;
    let mut failed = false;
    while at < data.len() {
        let k = if i > 500 { data.len() - at } else { c.writes.at1(i).min(data.len() - at) };
        i += 1;
        if w.write_all(&data[at..at + k]).is_err() {
            failed = true;
            break;
        }
        at += k;
    }
    if !failed && w.finish().is_ok() {
        return Err(format!("declared {declared}, wrote {n}, no error"));
    }
    Ok(())
}

/// A raw LZMA stream declared to be longer than it is: what is there must come out, then an error; no hang.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DeclCase {
    opts: Opts,
    data: Data,
    declared: u64,
    reads: Splits,
}
fn c04_declared(c: &DeclCase, obs: &Obs) -> Result<(), String> {
    let data = c.data.bytes();
    let o = c.opts.lzma2(None);
    let mut sink = MemFile::new();
    {
        let mut w = LZMAWriter::new_no_header(CountingWriter::new(&mut sink), &o, false).map_err(|e| e.to_string())?;
        w.write_all(&data).map_err(|e| e.to_string())?;
        w.finish().map_err(|e| e.to_string())?;
    }
    let declared = c.declared.max(data.len() as u64 + 400);
    obs.nontrivial(declared > u32::MAX as u64);
    let mut r = LZMAReader::new(&sink.data[..], declared, c.opts.lc, c.opts.lp, c.opts.pb, c.opts.dict, None)
        .map_err(|e| format!("reader: {e}"))?;
    let mut out = vec![];
    let mut buf = vec![0u8; 1 << 16];
    let mut i = 0;
    loop {
        let k = c.reads.at1(i).min(buf.len());
        i += 1;
        match r.read(&mut buf[..k]) {
            Ok(0) => return Err(format!("end of stream after {} of {declared} declared bytes", out.len())),
            Ok(n) => {
                out.extend_from_slice(&buf[..n]);
                if out.len() > data.len() + 70_000 {
                    // the padding past the end of the input cannot decode to that much
                    return Err("decoder keeps producing data without input".into());
                }
            }
            Err(_) => {
                // bytes decoded within a failing call are lost with it; what was delivered must be a prefix
                let m = out.len().min(data.len());
                return same("prefix", &out[..m], &data[..m]);
            }
        }
    }
}

/// More than 4 GiB of output through one LZMA stream (highly compressible), made with liblzma.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HugeCase {
    len: u64,
    lzma2: bool,
    ours: bool,
    bt4: bool,
    nice: u32,
    dict: u32,
}
struct Pattern {
    at: u64,
    len: u64,
}
fn pat(i: u64) -> u8 {
    // around the position where match finders renumber: words in no order, so that there are many short matches to
    // choose from, and repetitions with flaws
    if (i + 500_000) & 0x7FFF_FFFF < 900_000 {
        if i & 0xFFFF < 0xE000 {
            let mut word = (i / 6).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            word = (word ^ word >> 29).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            // some of them often, some as seldom as once in the dictionary
            word = word >> 48 >> (word & 15);
            return ((word * 6 + i % 6).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) as u8;
        }
        return ((i % 1777).wrapping_mul(0x9E37_79B9) >> 13) as u8 ^ (i % 4099 == 0) as u8;
    }
    // long runs with rare changes
    ((i >> 20) as u8) ^ if i & 0xFFFF == 77 { (i >> 16) as u8 | 1 } else { 0 }
}
impl Pattern {
    fn fill(at: u64, buf: &mut [u8]) {
        for (k, b) in buf.iter_mut().enumerate() {
            *b = pat(at + k as u64)
        }
    }
}
impl Read for Pattern {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = (self.len - self.at).min(buf.len() as u64) as usize;
        Pattern::fill(self.at, &mut buf[..n]);
        self.at += n as u64;
        Ok(n)
    }
}
fn huge_check(c: &HugeCase, obs: &Obs) -> Result<(), String> {
    obs.nontrivial(true);
    let mut o = Opts::preset(0);
    o.depth = 4;
    o.nice = c.nice;
    o.bt4 = c.bt4;
    o.dict = c.dict;
    let opt = o.lzma2(None);
    let mut src = Pattern { at: 0, len: c.len };
    let mut enc: Vec<u8> = vec![];
    {
        let mut buf = vec![0u8; 1 << 20];
        let cw = CountingWriter::new(&mut enc);
        let mut go = |w: &mut dyn Write| -> Result<(), String> {
            loop {
                let n = src.read(&mut buf).unwrap();
                if n == 0 {
                    return Ok(());
                }
                w.write_all(&buf[..n]).map_err(|e| e.to_string())?;
            }
        };
        if c.lzma2 {
            let mut w = LZMA2Writer::new(cw, &opt);
            go(&mut w)?;
            w.finish().map_err(|e| e.to_string())?;
        } else {
            let mut w = LZMAWriter::new_use_header(cw, &opt, Some(c.len)).map_err(|e| e.to_string())?;
            go(&mut w)?;
            w.finish().map_err(|e| e.to_string())?;
        }
    }
    let mut r: Box<dyn Read> = if c.lzma2 {
        Box::new(LZMA2Reader::new(&enc[..], o.dict, None))
    } else {
        Box::new(LZMAReader::new_mem_limit(&enc[..], u32::MAX, None).map_err(|e| e.to_string())?)
    };
    let mut buf = vec![0u8; 1 << 20];
    let mut want = vec![0u8; 1 << 20];
    let mut at = 0u64;
    loop {
        let n = r.read(&mut buf).map_err(|e| format!("at {at}: {e}"))?;
        if n == 0 {
            break;
        }
        if at + n as u64 > c.len {
            return Err("too long".into());
        }
        Pattern::fill(at, &mut want[..n]);
        if buf[..n] != want[..n] {
            return Err(format!("wrong data near {at}"));
        }
        at += n as u64;
    }
    if at != c.len {
        return Err(format!("{at} of {} bytes", c.len));
    }
    Ok(())
}
fn huge(cx: &Ctx, lzma2: bool) {
    cx.cpu_limit(1200);
    cx.run("beyond-4GiB", 2, move || {
        (0u64..3).prop_map(move |d| HugeCase { len: (1u64 << 32) + (1 << 20) + d * 12345, lzma2, ours: true, bt4: d == 1, nice: 64, dict: 1 << 18 }).boxed()
    }, huge_check);
    cx.cpu_limit(120);
}
/// Past the position at which the match finders renumber their tables, both finders at the same time.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct RenumberCase {
    cases: Vec<HugeCase>,
}
fn renumber_check(c: &RenumberCase, obs: &Obs) -> Result<(), String> {
    obs.nontrivial(true);
    obs.evals(c.cases.len() as u64);
    std::thread::scope(|s| {
        let t: Vec<_> = c.cases.iter().map(|c| s.spawn(move || crate::fw::no_panic(|| huge_check(c, &Obs::default())))).collect();
        t.into_iter().try_for_each(|t| t.join().map_err(|_| "panic".to_string())??)
    })
}
fn renumber(cx: &Ctx, lzma2: bool) {
    cx.run("beyond-2GiB", 1, move || {
        // dictionaries of which only a small part has been written to anew since the last turn, in one finder, or any
        let early = |n: u32| (0x7FFF_FFFF - n - 1) % (n + 1) < n / 4;
        let dict = move || prop_oneof![4 => (60_000u32..270_000).prop_filter("early in a turn", move |n| early(*n)), 1 => 4096u32..270_000];
        (0u64..1000, dict(), dict()).prop_map(move |(d, x, y)| {
            let case = |bt4, nice, dict| HugeCase { len: (1u64 << 31) + 200_000 + d, lzma2, ours: true, bt4, nice, dict };
            RenumberCase { cases: vec![case(true, 8, x), case(false, 64, y)] }
        })
    }, renumber_check);
}
/// One write call of two or four gigabytes into a sink that soon fails: the bytes before the failure are those that
/// smaller writes produce.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct WideCase {
    opts: Opts,
    len: u64,
    lzma2: bool,
    accept: u32,
}
fn wide_buffer() -> &'static [u8] {
    static B: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        // zero pages are not touched before they are read
        let mut v = vec![0u8; (1usize << 32) + (1 << 20)];
        let mut r = crate::util::Rng::new(7);
        for b in &mut v[..8 << 20] {
            *b = if r.chance(1, 4) { 0 } else { r.byte() };
        }
        v
    })
}
struct Limited {
    got: Vec<u8>,
    max: usize,
}
impl Write for Limited {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.max - self.got.len());
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "sink is full"));
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn wide_one(c: &WideCase, obs: &Obs) -> Result<(), String> {
    obs.nontrivial(true);
    let data = &wide_buffer()[..c.len as usize];
    let o = c.opts.lzma2(None);
    let go = |step: usize| -> Result<Vec<u8>, String> {
        let mut sink = Limited { got: vec![], max: c.accept as usize };
        let cw = CountingWriter::new(&mut sink);
        let mut w: Box<dyn Write> = if c.lzma2 {
            Box::new(LZMA2Writer::new(cw, &o))
        } else {
            Box::new(LZMAWriter::new_no_header(cw, &o, true).map_err(|e| e.to_string())?)
        };
        for part in data.chunks(step) {
            match w.write_all(part) {
                Err(e) if e.to_string() == "sink is full" => {
                    drop(w);
                    return Ok(sink.got);
                }
                Err(e) => return Err(format!("error {e} instead of the sink's")),
                Ok(()) => {}
            }
        }
        Err("the sink's error is lost".into())
    };
    let a = go(usize::MAX)?;
    let b = go(100_000)?;
    same("bytes before the failure of the sink", &a, &b)
}
fn wide_write(cx: &Ctx, lzma2: bool) {
    cx.run("wide-write", cx.n(24, 300), move || {
        let len = prop_oneof![(1u64 << 31) - 2..(1 << 31) + 3, (1u64 << 32) - 2..(1 << 32) + 3, (1u64 << 31)..(1 << 32), Just((1u64 << 32) + 70_000)];
        (opts(true, 20), len, 0u32..300_000).prop_map(move |(opts, len, accept)| WideCase { opts, len, lzma2, accept }).boxed()
    }, wide_one);
}

pub fn c04(cx: &Ctx) {
    cx.rule("more than one byte of content; a declared size that differs from the written one; a declared size beyond 4 GiB");
    cx.run("roundtrip", cx.n(6000, 150_000), || lzma_case(70_000), c04_check);
    cx.run("large", cx.n(100, 2000), || {
        (big_case(true), any::<bool>())
            .prop_map(|(enc, k)| LzmaCase { enc, form: if k { Form::HeaderKnown } else { Form::HeaderUnknown } })
            .boxed()
    }, c04_check);
    cx.run("size-mismatch", cx.n(1500, 30_000), || {
        (opts(true, 16), data(5000), prop_oneof![0u64..6000, any::<u64>(), Just(u32::MAX as u64)], splits())
            .prop_map(|(opts, data, declared, writes)| MismatchCase { opts, data, declared: declared.min(u64::MAX - 1), writes })
            .boxed()
    }, c04_mismatch);
    cx.cpu_limit(20);
    cx.run("declared-size", cx.n(1500, 30_000), || {
        (opts(true, 16), data(5000),
         prop_oneof![
            (1u64..5, -3i64..3).prop_map(|(k, d)| ((k << 32) as i64 + d) as u64),
            (30u32..63, -3i64..70000).prop_map(|(k, d)| ((1i64 << k) + d) as u64),
            0u64..100_000,
         ], splits())
            .prop_map(|(opts, data, declared, reads)| DeclCase { opts, data, declared, reads })
            .boxed()
    }, c04_declared);
    // the position at which the remaining size becomes a multiple of 2^32 is reached by real data here
    cx.cpu_limit(300);
    cx.run("cross-4GiB", cx.n(1, 4), || (0u64..3).prop_map(|d| CrossCase { extra: d * 1000 + 5 }).boxed(), c04_cross);
    cx.cpu_limit(120);
    renumber(cx, false);
    wide_write(cx, false);
    if cx.n(0, 1) > 0 {
        huge(cx, false);
    }
}
/// Declared size 2^32 + extra with `extra` bytes really there, then the source ends: after those bytes an error.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CrossCase {
    extra: u64,
}
fn c04_cross(c: &CrossCase, obs: &Obs) -> Result<(), String> {
    obs.nontrivial(true);
    let mut e = rl::TokEnc::new(rl::Props { lc: 3, lp: 0, pb: 2 }, 4096);
    e.tok(&rl::Tok::Lits(9, 300), 300);
    while (e.out.len() as u64) < c.extra + 2000 {
        e.tok(&rl::Tok::Lits(4, 20), 20);
        e.tok(&rl::Tok::Match(77, 200), 200);
    }
    let (enc, out) = e.finish();
    let declared = (1u64 << 32) + c.extra;
    let mut r = LZMAReader::new(&enc[..], declared, 3, 0, 2, 4096, None).map_err(|e| e.to_string())?;
    let mut got = vec![0u8; c.extra as usize];
    // exactly `extra` bytes: the remaining declared size is then 2^32
    r.read_exact(&mut got).map_err(|e| format!("first bytes: {e}"))?;
    same("first bytes", &got, &out[..c.extra as usize])?;
    let mut rest = vec![0u8; 1000];
    r.read_exact(&mut rest).map_err(|e| format!("after the remaining size is 2^32: {e}"))?;
    same("next bytes", &rest, &out[c.extra as usize..c.extra as usize + 1000])
}

// ------------------------------------------------------------------------------------------ C05
fn c05_lzma2(c: &EncCase, obs: &Obs) -> Result<(), String> {
    let (data, preset) = c.bytes();
    let enc = encode_lzma2(c, &data, preset.clone())?;
    obs.nontrivial(data.len() > 1);
    let p = preset.unwrap_or_default();
    let d = ll::raw_decode(&[ll::F::Lzma2(c.opts.liblzma(&p))], &enc, data.len());
    if !d.ended {
        return Err(format!("liblzma rejects the LZMA2 stream: code {} after {} bytes", d.code, d.out.len()));
    }
    same("liblzma output", &d.out, &data)?;
    if d.consumed != enc.len() {
        return Err("bytes after the end of the LZMA2 stream".into());
    }
    if p.is_empty() {
        let (out, used, st) = rl::lzma2_decode(c.opts.dict as u64, &enc).map_err(|e| format!("reference LZMA2 decoder: {}", e.0))?;
        label_stream(obs, &st);
        same("reference output", &out, &data)?;
        if used != enc.len() {
            return Err("trailing bytes".into());
        }
        // incompressible content is bounded by the stored form
        if enc.len() > data.len() + (data.len() / (1 << 16) + 2) * 3 + 600 * 8 && c.flush.is_empty() {
            return Err(format!("{} bytes became {}", data.len(), enc.len()));
        }
    }
    Ok(())
}
fn c05_lzma(c: &LzmaCase, obs: &Obs) -> Result<(), String> {
    let mut c = c.clone();
    c.enc.opts.lc = c.enc.opts.lc.min(4);
    c.enc.opts.lp = c.enc.opts.lp.min(4 - c.enc.opts.lc);
    let (data, preset) = c.enc.bytes();
    let enc = encode_lzma(&c, &data, preset.clone())?;
    obs.nontrivial(data.len() > 1);
    let p = preset.unwrap_or_default();
    let o = c.enc.opts.liblzma(&p);
    let n = data.len() as u64;
    let mut o2 = o;
    let d = match c.form {
        Form::HeaderKnown | Form::HeaderUnknown | Form::HeaderKnownEos => {
            let mut h = vec![((o.pb * 5 + o.lp) * 9 + o.lc) as u8];
            h.extend_from_slice(&o.dict_size.to_le_bytes());
            let sz = if matches!(c.form, Form::HeaderUnknown) { u64::MAX } else { n };
            h.extend_from_slice(&sz.to_le_bytes());
            same(".lzma header", &enc[..13.min(enc.len())], &h)?;
            ll::alone_decode(&alone_normalised(&enc), data.len())
        }
        Form::RawEos { .. } => ll::raw_decode(&[ll::F::Lzma1(o)], &enc, data.len()),
        Form::RawNoEos => {
            o2.ext_flags = 0;
            o2.ext_size_low = n as u32;
            o2.ext_size_high = (n >> 32) as u32;
            ll::raw_decode(&[ll::F::Lzma1Ext(o2)], &enc, data.len())
        }
    };
    if !d.ended {
        return Err(format!("liblzma rejects the LZMA stream: code {} after {} of {} bytes", d.code, d.out.len(), n));
    }
    same("liblzma output", &d.out, &data)?;
    if p.is_empty() {
        let off = if matches!(c.form, Form::RawEos { .. } | Form::RawNoEos) { 0 } else { 13 };
        let eos = matches!(c.form, Form::RawEos { .. } | Form::HeaderUnknown);
        let pr = rl::Props { lc: o.lc, lp: o.lp, pb: o.pb };
        let (out, used, st) =
            rl::lzma_decode(pr, o.dict_size as u64, &[], &enc[off..], if eos { None } else { Some(data.len()) })
                .map_err(|e| format!("reference LZMA decoder: {}", e.0))?;
        same("reference output", &out, &data)?;
        if eos && (used + off != enc.len() || !st.eos) {
            return Err("bytes after the end marker".into());
        }
    }
    Ok(())
}
/// liblzma's .lzma decoder only accepts dictionary sizes 2^n and 2^n + 2^(n-1) ("not a .lzma file" heuristics);
/// the header field is raised to the next such size, which any stream with a smaller dictionary satisfies.
fn alone_normalised(enc: &[u8]) -> Vec<u8> {
    let mut v = enc.to_vec();
    let d = u32::from_le_bytes([v[1], v[2], v[3], v[4]]);
    let mut best = u32::MAX;
    for s in 12..31 {
        for c in [1u32 << s, 3u32 << (s - 1)] {
            if c >= d {
                best = best.min(c);
            }
        }
    }
    v[1..5].copy_from_slice(&best.to_le_bytes());
    v
}
pub fn c05(cx: &Ctx) {
    cx.rule("more than one byte of content");
    cx.assume("liblzma (system library) is a correct LZMA/LZMA2 decoder; LZMA1 lc+lp limited to 4 where liblzma decodes");
    cx.run("lzma2", cx.n(4000, 100_000), || enc_case(false, 60_000, 18), c05_lzma2);
    cx.run("lzma2-large", cx.n(90, 2000), || big_case(false), c05_lzma2);
    cx.run("lzma", cx.n(4000, 100_000), || lzma_case(60_000), c05_lzma);
    cx.run("lzma-wide", cx.n(800, 20_000), || lzma_case(20_000), |c, obs| {
        // lc + lp beyond liblzma's limit: reference decoder only
        if !matches!(c.form, Form::RawEos { .. }) || c.enc.preset.is_some() {
            let mut c = c.clone();
            c.form = Form::RawEos { tell: false };
            c.enc.preset = None;
            return wide(&c, obs);
        }
        wide(c, obs)
    });
    crate::writing2::c05_archive(cx);
}
fn wide(c: &LzmaCase, obs: &Obs) -> Result<(), String> {
    let (data, _) = c.enc.bytes();
    let enc = encode_lzma(c, &data, None)?;
    let o = &c.enc.opts;
    obs.nontrivial(data.len() > 1 && o.lc + o.lp > 4);
    let (out, used, _) = rl::lzma_decode(rl::Props { lc: o.lc, lp: o.lp, pb: o.pb }, o.dict as u64, &[], &enc, None)
        .map_err(|e| format!("reference LZMA decoder: {}", e.0))?;
    same("reference output", &out, &data)?;
    if used != enc.len() {
        return Err("bytes after the end marker".into());
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C06
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ForeignOpts {
    pub dict: u32,
    pub lc: u32,
    pub lp: u32,
    pub pb: u32,
    pub mode: u32,
    pub nice: u32,
    pub mf: u32,
    pub depth: u32,
}
impl ForeignOpts {
    pub fn ll(&self, preset: &[u8]) -> ll::OptLzma {
        let mut o = ll::preset(6);
        o.dict_size = self.dict;
        o.lc = self.lc;
        o.lp = self.lp;
        o.pb = self.pb;
        o.mode = self.mode;
        o.nice_len = self.nice;
        o.mf = self.mf;
        o.depth = self.depth;
        if !preset.is_empty() {
            o.preset_dict = preset.as_ptr();
            o.preset_dict_size = preset.len() as u32;
        }
        o
    }
}
pub fn foreign_opts(max_log: u32) -> BoxedStrategy<ForeignOpts> {
    (
        dict_size(max_log),
        (0u32..=4).prop_flat_map(|lc| (Just(lc), 0..=(4 - lc))),
        0u32..=4,
        0usize..5,
        5u32..=273,
        any::<bool>(),
        0u32..60,
    )
        .prop_map(|(dict, (lc, lp), pb, mf, nice, fast, depth)| {
            let mf = [0x03, 0x04, 0x12, 0x13, 0x14][mf];
            // fast mode only supports hash chains in liblzma
            let mode = if fast && mf < 0x10 { 1 } else { 2 };
            ForeignOpts { dict, lc, lp, pb, mode, nice, mf, depth }
        })
        .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ForeignCase {
    o: ForeignOpts,
    data: Data,
    preset: Option<Data>,
    pieces: Vec<(u32, u8)>,
    lzma2: bool,
    known: bool,
    src: Splits,
    reads: Splits,
    tail: Vec<u8>,
}
fn foreign_case(max: u32) -> BoxedStrategy<ForeignCase> {
    (
        foreign_opts(18),
        data(max),
        prop_oneof![4 => Just(None), 1 => data(6000).prop_map(Some)],
        proptest::collection::vec((len_upto(30_000), 0u8..3), 0..6),
        any::<bool>(),
        any::<bool>(),
        splits(),
        splits(),
        proptest::collection::vec(any::<u8>(), 0..30),
    )
        .prop_map(|(o, data, preset, pieces, lzma2, known, src, reads, tail)| ForeignCase {
            o,
            data,
            preset,
            pieces,
            lzma2,
            known,
            src,
            reads,
            tail,
        })
        .boxed()
}
/// Decodes `enc` + tail with this library and compares; checks how much was consumed.
fn decode_lzma2_exact(enc: &[u8], tail: &[u8], dict: u32, preset: Option<&[u8]>, src: &Splits, reads: &Splits, want: &[u8]) -> Result<(), String> {
    let mut all = enc.to_vec();
    all.extend_from_slice(tail);
    let mut r = LZMA2Reader::new(ShortReader::new(all, src.clone()), dict, preset);
    let got = read_all(&mut r, reads, want.len() as u64).map_err(|e| format!("LZMA2 decode failed: {e}"))?;
    same("LZMA2 output", &got, want)?;
    expect_eof(&mut r)?;
    let used = r.into_inner().pos;
    if used != enc.len() as u64 {
        return Err(format!("LZMA2 decoder consumed {used} of a {}-byte stream", enc.len()));
    }
    Ok(())
}
fn decode_lzma_exact(enc: &[u8], tail: &[u8], size: u64, pr: rl::Props, dict: u32, preset: Option<&[u8]>, src: &Splits, reads: &Splits, want: &[u8]) -> Result<(), String> {
    let mut all = enc.to_vec();
    all.extend_from_slice(tail);
    let mut inner = ShortReader::new(all, src.clone());
    {
        let mut r = LZMAReader::new(&mut inner, size, pr.lc, pr.lp, pr.pb, dict, preset).map_err(|e| format!("reader: {e}"))?;
        let got = read_all(&mut r, reads, want.len() as u64).map_err(|e| format!("LZMA decode failed: {e}"))?;
        same("LZMA output", &got, want)?;
        expect_eof(&mut r)?;
    }
    if inner.pos > enc.len() as u64 {
        return Err(format!("LZMA decoder consumed {} bytes of a {}-byte stream", inner.pos, enc.len()));
    }
    if size == u64::MAX && inner.pos != enc.len() as u64 {
        return Err(format!("LZMA decoder stopped at {} of {} bytes", inner.pos, enc.len()));
    }
    Ok(())
}
fn c06_liblzma(c: &ForeignCase, obs: &Obs) -> Result<(), String> {
    let data = c.data.bytes();
    let preset = c.preset.as_ref().map(|p| p.bytes());
    obs.nontrivial(data.len() > 1);
    let o = c.o.ll(preset.as_deref().unwrap_or(&[]));
    let pr = rl::Props { lc: c.o.lc, lp: c.o.lp, pb: c.o.pb };
    if c.lzma2 {
        let mut pieces: Vec<(&[u8], Option<ll::Flush>)> = vec![];
        let mut at = 0;
        for (n, f) in &c.pieces {
            let n = (*n as usize).min(data.len() - at);
            // FULL_FLUSH is not available with the raw LZMA2 encoder in every liblzma; fall back to SYNC
            pieces.push((&data[at..at + n], [None, Some(ll::Flush::Sync), Some(ll::Flush::Sync)][*f as usize]));
            at += n;
        }
        pieces.push((&data[at..], None));
        let enc = ll::raw_encode(&[ll::F::Lzma2(o)], &pieces).map_err(|e| format!("harness: liblzma encode {e}"))?;
        if preset.is_none() {
            let (_, _, st) = rl::lzma2_decode(c.o.dict as u64, &enc).map_err(|e| format!("harness: reference decoder: {}", e.0))?;
            label_stream(obs, &st);
        }
        decode_lzma2_exact(&enc, &c.tail, c.o.dict, preset.as_deref(), &c.src, &c.reads, &data)
    } else if preset.is_none() && c.known {
        // .lzma file with unknown size in the header
        let enc = ll::alone_encode(&o, &data).map_err(|e| format!("harness: liblzma alone {e}"))?;
        let mut all = enc.clone();
        all.extend_from_slice(&c.tail);
        let mut inner = ShortReader::new(all, c.src.clone());
        {
            let mut r = LZMAReader::new_mem_limit(&mut inner, u32::MAX, None).map_err(|e| format!("reader: {e}"))?;
            let got = read_all(&mut r, &c.reads, data.len() as u64).map_err(|e| format!(".lzma decode failed: {e}"))?;
            same(".lzma output", &got, &data)?;
            expect_eof(&mut r)?;
        }
        if inner.pos != enc.len() as u64 {
            return Err(format!(".lzma: consumed {} of {}", inner.pos, enc.len()));
        }
        Ok(())
    } else {
        let enc = ll::raw_encode(&[ll::F::Lzma1(o)], &[(&data, None)]).map_err(|e| format!("harness: liblzma encode {e}"))?;
        // raw LZMA1 from liblzma ends with an end marker
        decode_lzma_exact(&enc, &c.tail, if c.known { data.len() as u64 } else { u64::MAX }, pr, c.o.dict, preset.as_deref(), &c.src, &c.reads, &data)
    }
}
pub fn props4() -> BoxedStrategy<rl::Props> {
    ((0u32..=4).prop_flat_map(|lc| (Just(lc), 0..=(4 - lc))), 0u32..=4)
        .prop_map(|((lc, lp), pb)| rl::Props { lc, lp, pb })
        .boxed()
}
pub fn tok() -> BoxedStrategy<rl::Tok> {
    use rl::Tok::*;
    prop_oneof![
        2 => any::<u8>().prop_map(Lit),
        3 => (0u64..1 << 20, prop_oneof![1u16..20, 1u16..4000, 60_000u16..=65535]).prop_map(|(s, n)| Lits(s, n)),
        4 => (prop_oneof![0u32..8, 0u32..300, any::<u32>()], 2u16..=273).prop_map(|(d, n)| Match(d, n)),
        1 => (2u16..=273).prop_map(Far),
        3 => (0u8..4, 2u16..=273).prop_map(|(i, n)| Rep(i, n)),
        2 => Just(ShortRep),
    ]
    .boxed()
}
pub fn chunk() -> BoxedStrategy<rl::Chunk> {
    use rl::Chunk::*;
    prop_oneof![
        4 => (0u64..1 << 20, prop_oneof![3 => 1u32..30, 2 => 1u32..5000, 2 => 65530u32..=65536], any::<bool>())
            .prop_map(|(seed, len, r)| Raw { seed, len, reset: r }),
        10 => (0u8..4, props4(), proptest::collection::vec(tok(), 1..60)).prop_map(|(reset, props, toks)| Lzma { reset, props, toks }),
        1 => (0u8..4, props4()).prop_map(|(reset, props)| MaxLzma { reset, props }),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BuiltCase {
    dict: u32,
    chunks: Vec<rl::Chunk>,
    src: Splits,
    reads: Splits,
    tail: Vec<u8>,
}
fn c06_built(c: &BuiltCase, obs: &Obs) -> Result<(), String> {
    let (enc, want) = rl::lzma2_build(c.dict as usize, &c.chunks);
    let (out, used, st) = rl::lzma2_decode(c.dict as u64, &enc).map_err(|e| format!("harness: reference decoder {}", e.0))?;
    if out != want || used != enc.len() {
        return Err("harness: reference encoder and decoder disagree".into());
    }
    label_stream(obs, &st);
    obs.label_if(st.max_unpacked == 1 << 21, "largest LZMA chunk");
    obs.nontrivial(st.lzma_chunks + st.raw_chunks >= 2);
    decode_lzma2_exact(&enc, &c.tail, c.dict, None, &c.src, &c.reads, &want)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TokCase {
    props: rl::Props,
    dict: u32,
    toks: Vec<rl::Tok>,
    eos: bool,
    tell: bool,
    src: Splits,
    reads: Splits,
    tail: Vec<u8>,
}
fn c06_tokens(c: &TokCase, obs: &Obs) -> Result<(), String> {
    let mut e = rl::TokEnc::new(c.props, c.dict as usize);
    for t in &c.toks {
        e.tok(t, 1 << 20);
    }
    if c.eos {
        e.eos();
    }
    let (enc, want) = e.finish();
    let (out, _, st) = rl::lzma_decode(c.props, c.dict as u64, &[], &enc, if c.eos { None } else { Some(want.len()) })
        .map_err(|e| format!("harness: reference decoder {}", e.0))?;
    if out != want {
        return Err("harness: reference encoder and decoder disagree".into());
    }
    obs.nontrivial(st.matches > 0 && st.lits > 0);
    obs.label_if(st.reps.iter().all(|r| *r > 0) && st.short_reps > 0, "all rep kinds");
    obs.label_if(st.max_dist == c.dict as u64, "distance equals dictionary size");
    let tell = c.tell || !c.eos;
    decode_lzma_exact(&enc, &c.tail, if tell { want.len() as u64 } else { u64::MAX }, c.props, c.dict, None, &c.src, &c.reads, &want)
}
/// Matches from beyond 2 GiB.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FarTok {
    props: rl::Props,
    seed: u64,
    extra: u32,
    /// distance below the greatest, length, literals behind
    far: Vec<(u32, u16, u8)>,
    eos: bool,
}
fn c06_far(c: &FarTok, obs: &Obs) -> Result<(), String> {
    let dict = 3u64 << 30;
    let mut e = rl::TokEnc::new(c.props, dict as usize);
    e.out.reserve_exact((1usize << 31) + c.extra as usize + 200_000);
    e.tok(&rl::Tok::Lits(c.seed, 3000), 1 << 20);
    e.tok(&rl::Tok::Match(2999, 273), 1 << 20);
    while (e.out.len() as u64) < (1 << 31) + c.extra as u64 {
        e.tok(&rl::Tok::Rep(0, 273), 1 << 20);
    }
    for (d, n, lits) in &c.far {
        let h = e.out.len() as u32;
        e.tok(&rl::Tok::Match(h - 1 - d % (c.extra + 1), *n), 1 << 20);
        e.tok(&rl::Tok::Lits(*d as u64, *lits as u16), 1 << 20);
        e.tok(&rl::Tok::Rep(*lits & 3, *n), 1 << 20);
        e.tok(&rl::Tok::ShortRep, 1 << 20);
    }
    if c.eos {
        e.eos();
    }
    let (enc, want) = e.finish();
    obs.nontrivial(!c.far.is_empty());
    let size = if c.eos { u64::MAX } else { want.len() as u64 };
    // with an unknown size the whole dictionary is allocated
    let mut r = LZMAReader::new(&enc[..], size, c.props.lc, c.props.lp, c.props.pb, dict as u32, None).map_err(|e| format!("reader: {e}"))?;
    let mut buf = vec![0u8; 1 << 20];
    let mut at = 0usize;
    loop {
        let n = r.read(&mut buf).map_err(|e| format!("decode failed at {at}: {e}"))?;
        if n == 0 {
            break;
        }
        if want.get(at..at + n) != Some(&buf[..n]) {
            return Err(format!("output differs near {at}"));
        }
        at += n;
    }
    if at != want.len() {
        return Err(format!("output ends at {at} of {}", want.len()));
    }
    Ok(())
}
pub fn c06(cx: &Ctx) {
    cx.rule("more than one byte of content (liblzma); at least two chunks (built LZMA2); literals and matches (built LZMA)");
    cx.assume("liblzma is a correct encoder; the token encoder is checked against an independent strict decoder in every case");
    cx.run("liblzma", cx.n(5000, 120_000), || foreign_case(50_000), c06_liblzma);
    cx.run("lzma2-chunks", cx.n(2500, 60_000), || {
        (dict_size(18), proptest::collection::vec(chunk(), 1..8), splits(), splits(), proptest::collection::vec(any::<u8>(), 0..8))
            .prop_map(|(dict, chunks, src, reads, tail)| {
                // one-byte reads of a 2 MiB chunk take long
                let big = chunks.iter().any(|c| matches!(c, rl::Chunk::MaxLzma { .. }));
                let reads = if big { Splits(reads.0.iter().map(|v| (*v).max(500)).collect()) } else { reads };
                BuiltCase { dict, chunks, src, reads, tail }
            }).boxed()
    }, c06_built);
    cx.run("far", cx.n(1, 12), || {
        (props4(), any::<u64>(), 0u32..200_000, proptest::collection::vec((any::<u32>(), 2u16..=273, 0u8..5), 1..20), any::<bool>())
            .prop_map(|(props, seed, extra, far, eos)| FarTok { props, seed, extra, far, eos }).boxed()
    }, c06_far);
    cx.run("lzma-tokens", cx.n(6000, 150_000), || {
        (((0u32..=8, 0u32..=4), 0u32..=4).prop_map(|((lc, lp), pb)| rl::Props { lc, lp, pb }), dict_size(17),
         proptest::collection::vec(tok(), 0..80), any::<bool>(), any::<bool>(), splits(), splits(),
         proptest::collection::vec(any::<u8>(), 0..8))
            .prop_map(|(props, dict, toks, eos, tell, src, reads, tail)| TokCase { props, dict, toks, eos, tell, src, reads, tail }).boxed()
    }, c06_tokens);
}
