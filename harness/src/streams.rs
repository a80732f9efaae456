//! C13: hostile codec streams.
use crate::codec::{chunk, foreign_opts, props4, tok, ForeignOpts};
use crate::fw::{measure_peak, no_panic, with_mem_limit, Ctx, Obs};
use crate::hostile::{apply, edit, Edit};
use crate::liblzma as ll;
use crate::reflzma as rl;
use crate::util::{self, data, splits, Data, ShortReader, Splits};
use crate::z7::AesP;
use lzma_rust::{lzma2_get_memery_usage, lzma_get_memery_usage_by_props, LZMA2Reader, LZMAReader};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sevenz_rust::Aes256Sha256Decoder;
use std::io::{self, ErrorKind, Read};

const CAP: usize = 1 << 20;

/// The bytes of a stream, before edits.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Body {
    Random { first: u8, len: u16, seed: u64 },
    /// constant bytes after the first
    Fill { first: u8, len: u16, b: u8 },
    Toks(rl::Props, Vec<rl::Tok>, bool),
    Chunks(Vec<rl::Chunk>),
    Lib(ForeignOpts, Data),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    body: Body,
    edits: Vec<Edit>,
    /// None: those the stream was made with
    props: Option<u8>,
    dict: Option<u32>,
    size: Size,
    preset: Option<Data>,
    src: Splits,
    reads: Splits,
    /// limit in KiB of a reader made with one
    limit: Option<Limit>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Size {
    Right(i8),
    Unknown,
    Is(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Limit {
    Need(i8),
    Is(u32),
}
fn any_dict() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => 0u32..9000,
        3 => 4096u32..100_000,
        2 => (0u32..33, -17i64..18).prop_map(|(k, d)| ((1u64 << k) as i64 + d).clamp(0, u32::MAX as i64) as u32),
        1 => any::<u32>(),
    ]
    .boxed()
}
fn first(lzma2: bool) -> BoxedStrategy<u8> {
    if lzma2 {
        prop_oneof![3 => 0xe0u8..=255, 2 => Just(1u8), 1 => any::<u8>()].boxed()
    } else {
        prop_oneof![20 => Just(0u8), 1 => any::<u8>()].boxed()
    }
}
/// Tokens whose expansion stays small.
fn toks() -> BoxedStrategy<Vec<rl::Tok>> {
    prop::collection::vec(tok(), 1..40)
        .prop_map(|v| {
            v.into_iter()
                .map(|t| match t {
                    rl::Tok::Lits(s, n) => rl::Tok::Lits(s, n % 700),
                    t => t,
                })
                .collect()
        })
        .boxed()
}
fn body(lzma2: bool) -> BoxedStrategy<Body> {
    let built = if lzma2 {
        prop::collection::vec(chunk(), 1..5)
            .prop_map(|v| {
                Body::Chunks(
                    v.into_iter()
                        .map(|c| match c {
                            rl::Chunk::Lzma { reset, props, toks } => rl::Chunk::Lzma {
                                reset,
                                props,
                                toks: toks
                                    .into_iter()
                                    .map(|t| match t {
                                        rl::Tok::Lits(s, n) => rl::Tok::Lits(s, n % 700),
                                        t => t,
                                    })
                                    .collect(),
                            },
                            rl::Chunk::Raw { seed, len, reset } => rl::Chunk::Raw { seed, len: len % 5000 + 1, reset },
                            c => c,
                        })
                        .collect(),
                )
            })
            .boxed()
    } else {
        (props4(), toks(), any::<bool>()).prop_map(|(p, t, e)| Body::Toks(p, t, e)).boxed()
    };
    prop_oneof![
        3 => (first(lzma2), 0u16..600, any::<u64>()).prop_map(|(first, len, seed)| Body::Random { first, len, seed }),
        1 => (first(lzma2), 0u16..600, prop_oneof![Just(0u8), Just(255u8), any::<u8>()]).prop_map(|(first, len, b)| Body::Fill { first, len, b }),
        6 => built,
        3 => (foreign_opts(16), data(3000)).prop_map(|(o, d)| Body::Lib(o, d)),
    ]
    .boxed()
}
fn bad(lzma2: bool) -> BoxedStrategy<Bad> {
    (
        (body(lzma2), prop_oneof![1 => Just(vec![]), 8 => prop::collection::vec(edit(), 1..5)]),
        prop_oneof![5 => Just(None), 2 => (0u8..225).prop_map(Some), 1 => any::<u8>().prop_map(Some)],
        prop_oneof![3 => Just(None), 1 => any_dict().prop_map(Some)],
        prop_oneof![
            3 => any::<i8>().prop_map(|d| Size::Right(d % 3)),
            3 => Just(Size::Unknown),
            1 => prop_oneof![0u64..3000, any::<u64>(), (0u64..3).prop_map(|d| (1 << 63) - 1 + d), (1u64..3).prop_map(|d| u64::MAX - d)].prop_map(Size::Is)
        ],
        prop_oneof![5 => Just(None), 1 => data(3000).prop_map(Some)],
        splits(),
        splits(),
        prop::option::weighted(0.3, prop_oneof![3 => (-2i8..=2).prop_map(Limit::Need), 1 => any::<u32>().prop_map(Limit::Is), 1 => (0u32..200).prop_map(Limit::Is)]),
    )
        .prop_map(|((body, edits), props, dict, size, preset, src, reads, limit)| Bad { body, edits, props, dict, size, preset, src, reads, limit })
        .boxed()
}
struct Made {
    bytes: Vec<u8>,
    props: u8,
    dict: u32,
    len: u64,
}
impl Bad {
    fn make(&self, lzma2: bool) -> Result<Made, String> {
        let free = |first: u8, len: u16, f: &mut dyn FnMut(&mut [u8])| {
            let mut v = vec![first; len as usize + 1];
            f(&mut v[1..]);
            Made { bytes: v, props: 0x5d, dict: 4096, len: len as u64 * 4 }
        };
        let mut m = match &self.body {
            Body::Random { first, len, seed } => free(*first, *len, &mut |b| util::Rng::new(*seed).fill(b)),
            Body::Fill { first, len, b } => free(*first, *len, &mut |v| v.fill(*b)),
            Body::Toks(p, t, eos) => {
                let mut e = rl::TokEnc::new(*p, 1 << 16);
                for t in t {
                    e.tok(t, 1 << 18);
                }
                if *eos {
                    e.eos();
                }
                let (b, out) = e.finish();
                Made { bytes: b, props: p.byte(), dict: 1 << 16, len: out.len() as u64 }
            }
            Body::Chunks(c) => {
                let (b, out) = rl::lzma2_build(1 << 16, c);
                Made { bytes: b, props: 0, dict: 1 << 16, len: out.len() as u64 }
            }
            Body::Lib(o, d) => {
                let d = d.bytes();
                let f = if lzma2 { ll::F::Lzma2(o.ll(&[])) } else { ll::F::Lzma1(o.ll(&[])) };
                let b = ll::raw_encode(&[f], &[(&d, None)]).map_err(|e| format!("harness: liblzma encode {e}"))?;
                Made { bytes: b, props: ((o.pb * 5 + o.lp) * 9 + o.lc) as u8, dict: o.dict, len: d.len() as u64 }
            }
        };
        for e in &self.edits {
            apply(&mut m.bytes, e);
        }
        if let Some(p) = self.props {
            m.props = p;
        }
        if let Some(d) = self.dict {
            m.dict = d;
        }
        m.len = match self.size {
            Size::Right(d) => m.len.saturating_add_signed(d as i64),
            Size::Unknown => u64::MAX,
            Size::Is(v) => v,
        };
        Ok(m)
    }
}
/// Reads until the end, an error or CAP bytes; then asks a few times more.
fn drain(r: &mut dyn Read, reads: &Splits, out: &mut Vec<u8>, buf: &mut [u8]) -> Result<io::Result<bool>, String> {
    let mut i = 0;
    let mut idle = 0;
    let res = loop {
        let want = reads.at(i).min(buf.len());
        i += 1;
        match r.read(&mut buf[..want]) {
            Ok(n) if n > want => return Err("a read returned more than the buffer holds".into()),
            Ok(0) if want > 0 => break Ok(true),
            Ok(n) => {
                idle = if n == 0 { idle + 1 } else { 0 };
                if idle > 1000 {
                    break Ok(false);
                }
                let n = n.min(CAP + 1 - out.len());
                out.extend_from_slice(&buf[..n]);
                if out.len() > CAP {
                    break Ok(false);
                }
            }
            Err(e) if e.kind() == ErrorKind::Interrupted => {}
            Err(e) => break Err(e),
        }
    };
    for k in 0..3 {
        match r.read(&mut buf[..100]) {
            Ok(0) => {
                if res.is_err() && k > 0 {
                    // an error may be reported once, but nothing follows it
                }
            }
            Ok(n) if matches!(res, Ok(true)) => return Err(format!("{n} bytes after the end of the stream")),
            Ok(n) if res.is_err() => return Err(format!("{n} bytes after an error")),
            _ => {}
        }
    }
    Ok(res)
}
fn label(o: &Obs, c: &Bad, res: &io::Result<bool>, got: usize) {
    o.label(match c.body {
        Body::Random { .. } => "random bytes",
        Body::Fill { .. } => "constant bytes",
        Body::Toks(..) | Body::Chunks(..) => "built from tokens",
        Body::Lib(..) => "compressed",
    });
    o.label(match (res, got) {
        (Ok(true), _) => "ends",
        (Ok(false), _) => "too long to follow",
        (Err(_), 0) => "error at once",
        (Err(_), _) => "error after some output",
    });
    o.nontrivial(got > 0 || !matches!(c.body, Body::Random { .. }) && res.is_err());
}
fn prefix(got: &[u8], want: &[u8], ended: bool) -> Result<(), String> {
    if got.len() > want.len() {
        return Err(format!("{} bytes, but the stream only defines {}", got.len(), want.len()));
    }
    util::same("what was decoded", got, &want[..got.len()])?;
    if ended && got.len() < want.len() {
        return Err(format!("ends after {} of {} bytes", got.len(), want.len()));
    }
    Ok(())
}
fn round_dict(d: u64) -> u64 {
    (d.max(4096) + 15) & !15
}
fn c13_lzma(c: &Bad, o: &Obs) -> Result<(), String> {
    let m = c.make(false)?;
    let (pb, lp, lc) = ((m.props / 45) as u32, (m.props / 9 % 5) as u32, (m.props % 9) as u32);
    let preset = c.preset.as_ref().map(|d| {
        let mut v = d.bytes();
        v.truncate(v.len() / 16 * 16);
        v
    });
    let mut out = Vec::with_capacity(CAP + 70_000);
    let mut buf = vec![0u8; 1 << 16];
    let valid = m.props < 225;
    // 2 * 0x300 << (lc + lp) bytes of literal coders and the dictionary, rounded up
    let spare = (64 << 10) + if valid { 0x600u64 << (lc + lp) } else { 0 };
    let mut bytes = m.bytes.clone();
    let res = if let Some(l) = &c.limit {
        let mut h = vec![m.props];
        h.extend_from_slice(&m.dict.to_le_bytes());
        h.extend_from_slice(&m.len.to_le_bytes());
        h.append(&mut bytes);
        let need = no_panic(|| lzma_get_memery_usage_by_props(m.dict, m.props))?;
        let kb = match (l, &need) {
            (Limit::Need(d), Ok(n)) => n.saturating_add_signed(*d as i32),
            (Limit::Need(_), Err(_)) => u32::MAX,
            (Limit::Is(v), _) => *v,
        };
        let src = ShortReader::new(h, c.src.clone());
        let (r, peak) = measure_peak(|| {
            no_panic(|| -> Result<io::Result<bool>, String> {
                match LZMAReader::new_mem_limit(src, kb, preset.as_deref()) {
                    Ok(mut r) => drain(&mut r, &c.reads, &mut out, &mut buf).map(|r| Ok(r.unwrap_or(false))),
                    Err(e) => Ok(Err(e)),
                }
            })
        });
        let r = r??;
        match (&r, &need) {
            (Ok(_), Ok(n)) if kb < *n => return Err(format!("limit of {kb} KiB, {n} KiB needed, but it was accepted")),
            (Ok(_), Err(_)) => return Err("refused parameters were accepted".into()),
            (Err(_), _) if peak > 64 << 10 && need.as_ref().map_or(true, |n| kb < *n) => return Err(format!("{peak} bytes used by a refused stream")),
            (Err(e), Ok(n)) if kb < *n && (*n as u64) < (1 << 22) && e.kind() != ErrorKind::OutOfMemory => return Err(format!("limit exceeded, but the error is {e:?}")),
            (Err(e), Ok(n)) if kb >= *n && e.kind() == ErrorKind::OutOfMemory => return Err(format!("refused with {kb} KiB for {n}: {e}")),
            _ => {}
        }
        if peak > kb as u64 * 1024 + 4096 {
            return Err(format!("{peak} bytes of memory used, the limit was {kb} KiB"));
        }
        o.label(if r.is_ok() { "memory limit kept" } else { "memory limit refused" });
        if let Err(e) = r {
            label(o, c, &Err(e), 0);
            o.nontrivial(true);
            return Ok(());
        }
        // decode again without a limit to see how it ends
        out.clear();
        no_panic(|| {
            let r = LZMAReader::new(ShortReader::new(m.bytes.clone(), c.src.clone()), m.len, lc, lp, pb, m.dict, preset.as_deref());
            match r {
                Ok(mut r) => drain(&mut r, &c.reads, &mut out, &mut buf),
                Err(e) => Ok(Err(e)),
            }
        })??
    } else {
        let limit = spare + round_dict(m.dict as u64) + 64;
        no_panic(|| {
            let src = ShortReader::new(std::mem::take(&mut bytes), c.src.clone());
            with_mem_limit(limit, || match LZMAReader::new_with_props(src, m.len, m.props, m.dict, preset.as_deref()) {
                Ok(mut r) => drain(&mut r, &c.reads, &mut out, &mut buf),
                Err(e) => Ok(Err(e)),
            })
        })??
    };
    label(o, c, &res, out.len());
    if out.len() as u64 > m.len {
        return Err(format!("{} bytes, but the declared size is {}", out.len(), m.len));
    }
    if !valid {
        return if res.is_ok() { Err("invalid properties accepted".into()) } else { Ok(()) };
    }
    let dict = round_dict(m.dict as u64);
    let mut history = preset.unwrap_or_default();
    if history.len() as u64 > dict {
        history.drain(..history.len() - dict as usize);
    }
    let size = if m.len <= u64::MAX / 2 { Some(m.len) } else { None };
    let (want, r) = rl::lzma_upto(rl::Props { lc, lp, pb }, dict, &history, &m.bytes, size, CAP + 70_000);
    let ended = matches!(res, Ok(true));
    o.label_if(ended && c.edits.len() > 0, "ends in spite of the edits");
    prefix(&out, &want, ended)?;
    if ended {
        if let Err(e) = r {
            return Err(format!("ends without an error, but: {}", e.0));
        }
    }
    if c.edits.is_empty() && matches!(c.body, Body::Toks(..) | Body::Lib(..)) && c.props.is_none() && c.dict.is_none() && history.is_empty() {
        // the stream is right; so is its size, unless it says less
        if let (Size::Right(0), Body::Toks(..), Err(e)) = (&c.size, &c.body, &res) {
            return Err(format!("a stream that is right is refused: {e}"));
        }
    }
    Ok(())
}
fn c13_lzma2(c: &Bad, o: &Obs) -> Result<(), String> {
    let m = c.make(true)?;
    let mut out = Vec::with_capacity(CAP + 70_000);
    let mut buf = vec![0u8; 1 << 16];
    let preset = c.preset.as_ref().map(|d| {
        let mut v = d.bytes();
        v.truncate(v.len() / 16 * 16);
        v
    });
    let bytes = m.bytes.clone();
    let kb = no_panic(|| lzma2_get_memery_usage(m.dict))? as u64;
    let src = ShortReader::new(bytes, c.src.clone());
    let (res, peak) = measure_peak(|| {
        no_panic(|| {
            let mut r = LZMA2Reader::new(src, m.dict, preset.as_deref());
            drain(&mut r, &c.reads, &mut out, &mut buf)
        })
    });
    let res = res??;
    label(o, c, &res, out.len());
    // the announced size does not count the old state while new properties replace it
    if peak > kb * 1024 + (64 << 10) {
        return Err(format!("{peak} bytes of memory used, {kb} KiB announced"));
    }
    if m.dict > 1 << 26 {
        return Ok(());
    }
    let mut opt = ll::preset(6);
    opt.dict_size = m.dict;
    let history = preset.unwrap_or_default();
    if !history.is_empty() {
        opt.preset_dict = history.as_ptr();
        opt.preset_dict_size = history.len() as u32;
    }
    let d = ll::raw_decode(&[ll::F::Lzma2(opt)], &m.bytes, CAP + 70_000);
    let ended = matches!(res, Ok(true));
    o.label_if(ended && c.edits.len() > 0, "ends in spite of the edits");
    prefix(&out, &d.out, ended)?;
    if ended && !d.ended {
        return Err(format!("ends without an error, but liblzma says {}", d.code));
    }
    if let (Err(e), true) = (&res, d.ended) {
        return Err(format!("refused ({e}), but liblzma decodes it"));
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct AesBad {
    props: Vec<u8>,
    password: Vec<u8>,
    data: Data,
    cut: u8,
    src: Splits,
    reads: Splits,
}
fn aes_bad() -> BoxedStrategy<AesBad> {
    let props = prop_oneof![
        4 => (crate::z7::aes_p(12), prop::collection::vec(edit(), 0..3)).prop_map(|(a, e)| {
            let mut p = a.props();
            for e in &e {
                apply(&mut p, e);
            }
            p
        }),
        2 => crate::z7::aes_p(12).prop_map(|a| a.props()),
        1 => prop::collection::vec(any::<u8>(), 0..40),
    ]
    // up to 2^18 cycles are worth waiting for
    .prop_map(|mut p| {
        if let Some(b) = p.first_mut() {
            if (14..25).contains(&(*b & 63)) {
                *b -= 12;
            }
        }
        p
    });
    (
        props,
        prop_oneof![1 => Just(vec![]), 8 => prop::collection::vec(any::<u8>(), 1..40)],
        data(3000),
        0u8..17,
        splits(),
        splits(),
    )
        .prop_map(|(props, password, data, cut, src, reads)| AesBad { props, password, data, cut, src, reads })
        .boxed()
}
fn c13_aes(c: &AesBad, o: &Obs) -> Result<(), String> {
    let mut d = c.data.bytes();
    let n = d.len().saturating_sub(c.cut as usize);
    d.truncate(if c.cut == 16 { d.len() / 16 * 16 } else { n });
    let mut out = Vec::with_capacity(CAP + 70_000);
    let mut buf = vec![0u8; 1 << 16];
    let src = ShortReader::new(d.clone(), c.src.clone());
    let (made, res) = no_panic(|| {
        with_mem_limit(1 << 16, || match Aes256Sha256Decoder::new(src, &c.props, &c.password) {
            Ok(mut r) => (true, drain(&mut r, &c.reads, &mut out, &mut buf)),
            Err(e) => (false, Ok(Err(io::Error::new(ErrorKind::Other, format!("{e:?}"))))),
        })
    })?;
    let res = res?;
    o.nontrivial(!made || d.len() > 16);
    o.label(if made { "decoder made" } else { "refused" });
    if !made {
        return match AesP::from_props(&c.props) {
            Ok(p) if !c.password.is_empty() && (p.power <= 24 || p.power == 63) => Err(format!("proper parameters are refused: {res:?}")),
            _ => Ok(()),
        };
    }
    if c.password.is_empty() {
        return Err("a decoder without a password".into());
    }
    let whole = d.len() / 16 * 16;
    if let Ok(p) = AesP::from_props(&c.props) {
        o.label("decryption compared");
        let want = p.decrypt(&c.password, &d[..whole])?;
        prefix(&out, &want, matches!(res, Ok(true)))?;
    }
    if out.len() > whole {
        return Err("more output than input".into());
    }
    if d.len() != whole && matches!(res, Ok(true)) {
        return Err("a partial block is accepted".into());
    }
    if d.len() == whole && res.is_err() {
        return Err(format!("whole blocks are refused: {res:?}"));
    }
    Ok(())
}
/// Decoders for any parameters: made exactly if a stream can have them.
fn c13_params(c: &(u64, u32, u32, u32, u8, u32), o: &Obs) -> Result<(), String> {
    let (size, lc, lp, pb, props, dict) = *c;
    let src = [0u8; 100];
    let mut buf = [0u8; 3000];
    let limit = round_dict(dict as u64) + (0x600u64 << 12) + (1 << 16);
    let mut used = |r: io::Result<LZMAReader<&[u8]>>| -> Result<bool, String> {
        match r {
            Err(_) => Ok(false),
            Ok(mut r) => {
                let n = r.read(&mut buf).unwrap_or(0);
                if n as u64 > size {
                    return Err(format!("{n} bytes, but the declared size is {size}"));
                }
                Ok(true)
            }
        }
    };
    let ok = lc <= 8 && lp <= 4 && pb <= 4;
    o.nontrivial(!ok);
    let a = no_panic(|| with_mem_limit(limit, || used(LZMAReader::new(&src[..], size, lc, lp, pb, dict, None))))??;
    if a != ok {
        return Err(format!("lc {lc}, lp {lp}, pb {pb}: {}", if a { "accepted" } else { "refused" }));
    }
    let b = no_panic(|| with_mem_limit(limit, || used(LZMAReader::new_with_props(&src[..], size, props, dict, None))))??;
    if b != (props < 225) {
        return Err(format!("properties {props}: {}", if b { "accepted" } else { "refused" }));
    }
    Ok(())
}
pub fn c13(cx: &Ctx) {
    cx.rule("the decoder was given something other than random bytes, or delivered output");
    cx.assume("output is followed up to 1 MiB; the reference for what a damaged LZMA2 stream still defines is liblzma (dictionaries up to 64 MiB), for LZMA the harness's own decoder");
    cx.cpu_limit(30);
    cx.run("lzma", cx.n(400_000, 10_000_000), || bad(false), c13_lzma);
    cx.run("lzma2", cx.n(200_000, 5_000_000), || bad(true), c13_lzma2);
    cx.run("aes", cx.n(200_000, 3_000_000), aes_bad, c13_aes);
    cx.run(
        "parameters",
        cx.n(20_000, 300_000),
        || {
            let small = |n: u32| prop_oneof![4 => 0..n, 1 => 0..40u32, 1 => any::<u32>()];
            (prop_oneof![Just(u64::MAX), 0u64..3000, any::<u64>()], small(10), small(6), small(6), any::<u8>(), 0u32..(1 << 22)).boxed()
        },
        c13_params,
    );
}
