//! Checks on reading archives made by an independent writer.
use crate::z7;
use crate::arc::*;
use crate::fw::{Ctx, Obs};
use crate::util::*;
use crate::z7::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------------------------------ C15
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReadCase {
    pub g: GArch,
    pub src: Splits,
    pub reads: Splits,
}
pub fn read_case(max: u32, aes: bool) -> BoxedStrategy<ReadCase> {
    (g_arch(max, aes), splits(), splits()).prop_map(|(g, src, reads)| ReadCase { g, src, reads }).boxed()
}
pub fn label_arch(g: &GArch, o: &Obs) {
    o.nontrivial(g.nontrivial());
    o.label_if(g.h.encoded.is_some(), "packed header");
    o.label_if(g.uses_aes(), "aes");
    o.label_if(g.blocks.iter().any(|b| matches!(b.chain, Chain::Bcj2(..))), "bcj2");
    o.label_if(g.blocks.iter().any(|b| b.entries.len() > 1), "solid");
    o.label_if(g.blocks.iter().any(|b| b.entries.is_empty()), "block without entries");
    o.label_if(!g.empties.is_empty(), "empty entries");
    o.label_if(g.blocks.iter().any(|b| !b.folder_crc && b.entries.iter().any(|e| !e.crc)), "undefined checksum");
    o.label_if(g.h.omit, "defaults omitted");
}
fn c15_one(c: &ReadCase, o: &Obs) -> Result<(), String> {
    label_arch(&c.g, o);
    let (spec, want) = c.g.spec();
    let b = spec.build();
    let (a, v) = read_archive(b.bytes, &c.src, &c.g.password, &How::with(&c.reads)).map_err(|e| format!("valid archive rejected: {e}"))?;
    check_records(&a, &want)?;
    check_visits(&v, &want)
}
/// One block whose coder announces a dictionary larger than its encoder used, up to the largest there is.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DictArch {
    c: ReadCase,
    /// for LZMA2 the property, for LZMA the size
    lzma2: u8,
    lzma: u32,
}
fn c15_dict(c: &DictArch, o: &Obs) -> Result<(), String> {
    let (mut spec, want) = c.c.g.spec();
    for coder in spec.folders.iter_mut().flat_map(|f| &mut f.coders) {
        let Some(p) = &mut coder.props else { continue };
        if coder.id == z7::ID_LZMA2 {
            p[0] = p[0].max(c.lzma2);
            o.label_if(p[0] >= 36, "lzma2 dictionary of 1 GiB or more");
        } else if coder.id == z7::ID_LZMA {
            let n = u32::from_le_bytes(p[1..5].try_into().unwrap()).max(c.lzma);
            p[1..5].copy_from_slice(&n.to_le_bytes());
            o.label_if(n >= 1 << 30, "lzma dictionary of 1 GiB or more");
        }
    }
    o.nontrivial(true);
    let b = spec.build();
    let (a, v) = read_archive(b.bytes, &c.c.src, &c.c.g.password, &How::with(&c.c.reads)).map_err(|e| format!("valid archive rejected: {e}"))?;
    check_records(&a, &want)?;
    check_visits(&v, &want)
}
fn dict_arch() -> BoxedStrategy<DictArch> {
    let m = prop_oneof![
        crate::codec::foreign_opts(16).prop_map(z7::M::Lzma2),
        (crate::codec::foreign_opts(16), any::<bool>()).prop_map(|(o, e)| z7::M::Lzma(o, e)),
    ];
    let size = prop_oneof![
        2 => (12u32..32, -17i64..18).prop_map(|(s, d)| ((1i64 << s) + d) as u32),
        1 => (0u32..20).prop_map(|d| 0xFFFF_FFF0 - d),
        1 => any::<u32>(),
    ];
    (read_case(2_000, false), m, 0u8..=40, size)
        .prop_map(|(mut c, m, lzma2, lzma)| {
            c.g.blocks.truncate(1);
            for b in &mut c.g.blocks {
                b.chain = z7::Chain::Linear(vec![m.clone()]);
            }
            DictArch { c, lzma2, lzma: lzma.min(0xFFFF_FFF0) }
        })
        .boxed()
}
/// Stored blocks of sizes that take more than 32 bits; the entries are zero but for their first and last bytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HugeArch {
    blocks: Vec<Vec<u64>>,
    /// sizes up to which blocks are read
    upto: u64,
    iterate: bool,
}
fn ends(k: u64, n: u64) -> (Vec<u8>, Vec<u8>) {
    let h: Vec<u8> = (0..n.min(40)).map(|i| (k * 7 + i * 3 + 1) as u8).collect();
    let t = (0..(n - h.len() as u64).min(40)).map(|i| (k * 5 + i * 11 + 2) as u8).collect();
    (h, t)
}
impl HugeArch {
    fn make(&self) -> (crate::filters::Sparse, Vec<Vec<(String, u64, u32)>>) {
        let mut parts = vec![];
        let (mut at, mut k) = (32u64, 0u64);
        let mut want = vec![];
        for b in &self.blocks {
            let mut w = vec![];
            for n in b {
                let (h, t) = ends(k, *n);
                w.push((format!("f{k}"), *n, crc_around(&h, n - (h.len() + t.len()) as u64, &t)));
                parts.push((at + n - t.len() as u64, t));
                parts.push((at, h));
                at += n;
                k += 1;
            }
            want.push(w);
        }
        let mut h = vec![1, 4, 6, 0];
        put_num(&mut h, self.blocks.len() as u64, 0);
        h.push(9);
        for b in &self.blocks {
            put_num(&mut h, b.iter().sum(), 0);
        }
        h.extend_from_slice(&[0, 7, 11]);
        put_num(&mut h, self.blocks.len() as u64, 0);
        h.push(0);
        for _ in &self.blocks {
            h.extend_from_slice(&[1, 1, 0]);
        }
        h.push(12);
        for b in &self.blocks {
            put_num(&mut h, b.iter().sum(), 0);
        }
        h.extend_from_slice(&[0, 8, 13]);
        for b in &self.blocks {
            put_num(&mut h, b.len() as u64, 0);
        }
        h.push(9);
        for b in &self.blocks {
            for n in &b[..b.len() - 1] {
                put_num(&mut h, *n, 0);
            }
        }
        h.extend_from_slice(&[10, 1]);
        for (_, _, c) in want.iter().flatten() {
            h.extend_from_slice(&c.to_le_bytes());
        }
        h.extend_from_slice(&[0, 0, 5]);
        put_num(&mut h, k, 0);
        let mut names = vec![0];
        for (n, _, _) in want.iter().flatten() {
            names.extend(n.encode_utf16().chain([0]).flat_map(|u| u.to_le_bytes()));
        }
        h.push(17);
        put_num(&mut h, names.len() as u64, 0);
        h.extend_from_slice(&names);
        h.extend_from_slice(&[0, 0]);
        parts.push((0, start_header(4, at - 32, h.len() as u64, crc32(&h)).to_vec()));
        let len = at + h.len() as u64;
        parts.push((at, h));
        (crate::filters::Sparse { len, pos: 0, parts }, want)
    }
}
/// Compares what an entry of so many bytes has with what it is to have.
pub fn ends_check() -> impl FnMut(u64, u64, &mut dyn std::io::Read) -> Result<(), String> {
    use std::io::Read;
    let mut buf = vec![0u8; 1 << 18];
    let zeros = vec![0u8; 1 << 18];
    move |k: u64, n: u64, r: &mut dyn Read| -> Result<(), String> {
        let (h, t) = ends(k, n);
        let mut pos = 0u64;
        loop {
            let g = r.read(&mut buf).map_err(|e| format!("entry {k} of {n} bytes at {pos}: {e}"))?;
            if g == 0 {
                break;
            }
            let end = pos + g as u64;
            if end > n {
                return Err(format!("entry {k} has more than {n} bytes"));
            }
            if pos < 40 || end > n - t.len() as u64 {
                for (i, b) in buf[..g].iter().enumerate() {
                    let p = pos + i as u64;
                    let w = if p < h.len() as u64 { h[p as usize] } else if p >= n - t.len() as u64 { t[(p + t.len() as u64 - n) as usize] } else { 0 };
                    if *b != w {
                        return Err(format!("entry {k} of {n} bytes: byte {p} is {b}, not {w}"));
                    }
                }
            } else if buf[..g] != zeros[..g] {
                return Err(format!("entry {k} of {n} bytes: not zero after {pos}"));
            }
            pos = end;
        }
        if pos != n {
            return Err(format!("entry {k}: {pos} of {n} bytes"));
        }
        Ok(())
    }
}
/// The content of such an entry, and its checksum.
pub fn ends_source(k: u64, n: u64) -> (crate::filters::Sparse, u32) {
    let (h, t) = ends(k, n);
    let crc = crc_around(&h, n - (h.len() + t.len()) as u64, &t);
    (crate::filters::Sparse { len: n, pos: 0, parts: vec![(n - t.len() as u64, t), (0, h)] }, crc)
}
fn c15_huge(c: &HugeArch, o: &Obs) -> Result<(), String> {
    use std::io::Read;
    let (mut s, want) = c.make();
    o.nontrivial(s.len >= 1 << 32);
    o.label_if(want.iter().flatten().any(|e| e.1 >= 1 << 32), "an entry of 4 GiB or more");
    let len = s.len;
    let a = sevenz_rust::Archive::read(&mut s, len, &[]).map_err(|e| format!("valid archive rejected: {e}"))?;
    let seen: Vec<_> = a.files.iter().map(|f| (f.name.clone(), f.size, f.crc as u32)).collect();
    let all: Vec<_> = want.iter().flatten().cloned().collect();
    if seen != all {
        return Err(format!("entries {seen:?} instead of {all:?}"));
    }
    let mut check = ends_check();
    if c.iterate {
        s.pos = 0;
        let mut r = sevenz_rust::SevenZReader::new(s, len, pw("")).map_err(|e| format!("open: {e}"))?;
        let mut k = 0;
        let mut res = Ok(());
        r.for_each_entries(|e, rd| {
            res = check(k, e.size(), rd);
            k += 1;
            Ok(res.is_ok())
        })
        .map_err(|e| format!("iteration: {e}"))?;
        res?;
        if k != all.len() as u64 {
            return Err(format!("{k} of {} entries visited", all.len()));
        }
        return Ok(());
    }
    let mut first = 0;
    for (i, w) in want.iter().enumerate() {
        let total: u64 = w.iter().map(|e| e.1).sum();
        if total <= c.upto {
            let mut k = first;
            let mut res = Ok(());
            sevenz_rust::BlockDecoder::new(i, &a, &[], &mut s)
                .for_each_entries(&mut |e: &sevenz_rust::SevenZArchiveEntry, rd: &mut dyn Read| {
                    res = check(k, e.size(), rd);
                    k += 1;
                    Ok(res.is_ok())
                })
                .map_err(|e| format!("block {i}: {e}"))?;
            res?;
            if k != first + w.len() as u64 {
                return Err(format!("block {i}: {} of {} entries", k - first, w.len()));
            }
            o.label_if(first > 0, "a block behind others");
        }
        first += w.len() as u64;
    }
    Ok(())
}
pub fn c15(cx: &Ctx) {
    cx.rule("an archive with at least one block with entries or more than one content-less entry");
    cx.assume("coders: stored, LZMA, LZMA2, BZIP2, ZSTD, AES, X86/PPC/ARM/ARMT/SPARC, delta, BCJ2 as outermost coder; the archive writer in harness/src/z7.rs follows the published format");
    cx.run("small", cx.n(60_000, 300_000), || read_case(300, true), c15_one);
    cx.run("medium", cx.n(6_000, 40_000), || read_case(30_000, true), c15_one);
    cx.run("large", cx.n(160, 2_000), || read_case(700_000, true), c15_one);
    cx.run("crowd", cx.n(3_000, 60_000), || (g_crowd(), splits(), splits()).prop_map(|(g, src, reads)| ReadCase { g, src, reads }).boxed(), c15_one);
    cx.run("dictionaries", cx.n(8_000, 100_000), dict_arch, c15_dict);
    // headers with sizes and offsets beyond 32 bits, of which small blocks are read
    cx.run("far", cx.n(3_000, 60_000), || {
        let size = prop_oneof![
            4 => 1u64..2_000,
            1 => (0u32..45, -3i64..3).prop_map(|(s, d)| ((1i64 << s) + d).max(1) as u64),
            2 => (1u64..5, -3i64..3).prop_map(|(k, d)| ((k << 32) as i64 + d) as u64),
            1 => (1u64..3, -3i64..3).prop_map(|(k, d)| ((k << 31) as i64 + d) as u64),
        ];
        proptest::collection::vec(proptest::collection::vec(size, 1..4), 1..6).prop_map(|blocks| HugeArch { blocks, upto: 1 << 20, iterate: false }).boxed()
    }, c15_huge);
    cx.cpu_limit(300);
    cx.run("beyond-4GiB", cx.n(8, 40), || {
        let g = 1u64 << 32;
        let near = (-3i64..4).prop_map(move |d| (g as i64 + d) as u64);
        let small = || prop_oneof![1u64..100, 1u64..100_000];
        prop_oneof![
            near.clone().prop_map(|n| vec![vec![n]]),
            (small(), near.clone(), small()).prop_map(|(a, n, b)| vec![vec![a, n, b]]),
            (near.clone(), small()).prop_map(|(n, b)| vec![vec![n], vec![b, b + 1]]),
            (small(), 1u64..g, small(), small()).prop_map(move |(a, x, b, d)| vec![vec![x, g - x + a], vec![b, d]]),
        ]
        .prop_map(|blocks| HugeArch { blocks, upto: u64::MAX, iterate: true })
        .boxed()
    }, c15_huge);
    cx.cpu_limit(120);
    cx.run("empty_file", 1, || Just(0u8), |_, o| {
        o.nontrivial(true);
        // what other writers leave when the last entry is deleted: no header at all
        let mut b = start_header(4, 0, 0, 0).to_vec();
        let a = read_archive(b.clone(), &Splits::whole(), "", &How::plain()).map_err(|e| format!("empty archive rejected: {e}"))?;
        if !a.0.files.is_empty() || !a.1.is_empty() {
            return Err("empty archive has entries".into());
        }
        b[8] ^= 1;
        if read_archive(b, &Splits::whole(), "", &How::plain()).is_ok() {
            return Err("bad start header checksum accepted".into());
        }
        Ok(())
    });
}
