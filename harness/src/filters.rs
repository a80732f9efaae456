//! C07, C08: branch filters, delta, BCJ2.
use crate::arc::*;
use crate::fw::{Ctx, Obs};
use crate::liblzma as ll;
use crate::util::*;
use crate::z7::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Seek, SeekFrom};

/// Content rich in what the filters look at, often longer than their buffers.
pub fn code_data(max: u32) -> BoxedStrategy<Data> {
    let near = prop_oneof![2 => 0u32..40, 2 => 4070u32..4110, 1 => 8180u32..8200, 3 => len_upto(max)];
    let seg1 = prop_oneof![
        4 => (0u64..1 << 32, near.clone()).prop_map(|(s, n)| Seg::Dense(s, n)),
        3 => (0u64..1 << 32, near.clone()).prop_map(|(s, n)| Seg::Code(s, n)),
        1 => (any::<u8>(), near.clone()).prop_map(|(b, n)| Seg::Fill(b, n)),
        1 => (0u64..1 << 32, near).prop_map(|(s, n)| Seg::Rand(s, n)),
    ];
    prop_oneof![4 => proptest::collection::vec(seg1, 1..4).prop_map(Data), 1 => data(max)].boxed()
}

// ------------------------------------------------------------------------------------------ C07
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FilterCase {
    pub filters: Vec<M>,
    pub rest: Vec<M>,
    pub data: Data,
    pub src: Splits,
    pub reads: Splits,
    pub empty_reads: bool,
}
fn filter_case(max: u32) -> BoxedStrategy<FilterCase> {
    let f = || prop_oneof![5 => (0u8..5).prop_map(M::Bcj), 2 => any::<u8>().prop_map(M::Delta)];
    (
        prop_oneof![5 => f().prop_map(|x| vec![x]), 2 => proptest::collection::vec(f(), 2..=3)],
        prop_oneof![
            3 => Just(vec![]),
            2 => Just(vec![M::Copy]),
            1 => crate::codec::foreign_opts(14).prop_map(|o| vec![M::Lzma2(o)]),
            1 => crate::codec::foreign_opts(14).prop_map(|o| vec![M::Lzma(o, false)]),
            1 => aes_p(3).prop_map(|a| vec![M::Aes(a)]),
        ],
        code_data(max),
        splits(),
        splits(),
        any::<bool>(),
    )
        .prop_map(|(filters, rest, data, src, reads, empty_reads)| FilterCase { filters, rest, data, src, reads, empty_reads })
        .boxed()
}
/// Reads the only entry of a one-folder archive.
fn read_folder(f: Folder, size: u64, src: &Splits, how: &How, password: &str) -> Result<Vec<u8>, sevenz_rust::Error> {
    let mut f = f;
    f.subs = vec![(size, None)];
    f.crc = None;
    let spec = Spec {
        folders: vec![f],
        files: vec![FileRec { name: "f".into(), stream: true, ..Default::default() }],
        h: HdrOpts::plain(),
        password: utf16(password),
        mutate: vec![],
    };
    let (_, mut v) = read_archive(spec.build().bytes, src, password, how)?;
    if v.len() != 1 {
        return Err(sevenz_rust::Error::other("HARNESS: not one entry"));
    }
    Ok(v.remove(0).data)
}
fn c07_one(c: &FilterCase, o: &Obs) -> Result<(), String> {
    let data = c.data.bytes();
    let mut enc = data.clone();
    for m in &c.filters {
        enc = m.encode(&enc, &[]);
    }
    o.nontrivial(enc != data);
    o.label_if(data.len() > 4096, "longer than the filter buffer");
    o.label_if(c.filters.len() > 1, "chained filters");
    for m in &c.filters {
        match m {
            M::Bcj(0) => o.label("x86"),
            M::Bcj(_) => o.label("other branch filter"),
            M::Delta(255) => o.label("delta distance 256"),
            _ => o.label("delta"),
        }
    }
    let pw = "p";
    let mut chain = c.filters.clone();
    chain.extend(c.rest.clone());
    let f = linear_folder(&chain, &data, &utf16(pw), 0);
    let mut how = How::with(&c.reads);
    how.empty_reads = c.empty_reads;
    let got = read_folder(f, data.len() as u64, &c.src, &how, pw).map_err(|e| format!("reading failed: {e}"))?;
    same("filtered content", &got, &data)
}

/// Bytes at some offsets of an otherwise zero file of any size.
pub struct Sparse {
    pub len: u64,
    pub pos: u64,
    pub parts: Vec<(u64, Vec<u8>)>,
}
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = (buf.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        let buf = &mut buf[..n];
        buf.fill(0);
        let (a, b) = (self.pos, self.pos + n as u64);
        for (at, d) in &self.parts {
            let (s, e) = ((*at).max(a), (*at + d.len() as u64).min(b));
            if s < e {
                buf[(s - a) as usize..(e - a) as usize].copy_from_slice(&d[(s - at) as usize..(e - at) as usize]);
            }
        }
        self.pos = b;
        Ok(n)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.pos = seek_to(self.pos, self.len, s)?;
        Ok(self.pos)
    }
}
/// An archive of one entry "f" whose pack streams are given by size and by the bytes which are not zero.
pub fn sparse_archive(coder: &[u8], packs: &[(u64, Vec<(u64, Vec<u8>)>)], size: u64) -> Sparse {
    let mut h = vec![1, 4, 6, 0];
    put_num(&mut h, packs.len() as u64, 0);
    h.push(9);
    for p in packs {
        put_num(&mut h, p.0, 0);
    }
    h.extend_from_slice(&[0, 7, 11, 1, 0]);
    h.extend_from_slice(coder);
    h.push(12);
    put_num(&mut h, size, 0);
    h.extend_from_slice(&[0, 0, 5, 1, 17, 5, 0, b'f', 0, 0, 0, 0, 0]);
    let total: u64 = packs.iter().map(|p| p.0).sum();
    let mut parts = vec![(0, start_header(4, total, h.len() as u64, crc32(&h)).to_vec()), (32 + total, h.clone())];
    let mut at = 32;
    for (n, p) in packs {
        for (o, d) in p {
            parts.push((at + o, d.clone()));
        }
        at += n;
    }
    Sparse { len: 32 + total + h.len() as u64, pos: 0, parts }
}
/// Compares a stream with mostly zero content.
fn check_sparse(r: &mut dyn Read, want: &Sparse) -> Result<(), String> {
    let mut w = Sparse { len: want.len, pos: 0, parts: want.parts.clone() };
    let mut a = vec![0u8; 1 << 20];
    let mut b = vec![0u8; 1 << 20];
    let mut pos = 0u64;
    loop {
        let n = r.read(&mut a).map_err(|e| format!("read at {pos}: {e}"))?;
        if n == 0 {
            break;
        }
        let mut got = 0;
        while got < n {
            let k = w.read(&mut b[got..n]).unwrap();
            if k == 0 {
                return Err(format!("more than {} bytes", want.len));
            }
            got += k;
        }
        if a[..n] != b[..n] {
            let i = (0..n).find(|i| a[*i] != b[*i]).unwrap();
            return Err(format!("byte {} is {:#x}, expected {:#x}", pos + i as u64, a[i], b[i]));
        }
        pos += n as u64;
    }
    if pos != want.len {
        return Err(format!("{pos} bytes, expected {}", want.len));
    }
    Ok(())
}
fn read_sparse(mut s: Sparse, want: &Sparse) -> Result<(), String> {
    let len = s.len;
    s.pos = 0;
    let mut r = sevenz_rust::SevenZReader::new(s, len, pw("")).map_err(|e| format!("open: {e}"))?;
    let mut res = Err("no entry".to_string());
    r.for_each_entries(|_, rd| {
        res = check_sparse(rd, want);
        Ok(false)
    })
    .map_err(|e| format!("iteration: {e}"))?;
    res
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FarCase {
    pub filter: u8,
    pub windows: Vec<(u64, u64, Data)>,
}
/// Windows of code around the positions where 31- and 32-bit arithmetic wraps.
fn far_case(filter: u8, upto: u64) -> BoxedStrategy<FarCase> {
    let spots = [0u64, (1 << 24) - 4000, (1 << 25) - 4000, (1 << 31) - (1 << 25), (1 << 31) - 20_000, (1 << 31) + (1 << 24), (1 << 32) - 14_000];
    let n = spots.iter().filter(|s| **s < upto).count();
    proptest::collection::vec((0u64..3000, prop_oneof![Just(0u64), any::<u64>()], code_data(40_000)), n..=n)
        .prop_map(move |v| FarCase {
            filter,
            windows: v
                .into_iter()
                .zip(spots)
                .map(|((d, r, mut x), s)| {
                    x.0.push(Seg::Code(r, 16_000));
                    x.0.push(Seg::Dense(r ^ d, 2_000));
                    (s + d * 4, r, x)
                })
                .collect(),
        })
        .boxed()
}
fn far_one(c: &FarCase, o: &Obs) -> Result<(), String> {
    let id = BCJ_FILTERS[c.filter as usize % 5];
    let mut plain = vec![];
    let mut packed = vec![];
    for (at, _, d) in &c.windows {
        let mut d = d.bytes();
        d.truncate(400_000);
        d.extend_from_slice(&[0; 64]);
        let e = ll::filter_encode(ll::F::BcjAt(id, *at as u32), &d);
        o.nontrivial(*at >= 1 << 30 && e != d);
        plain.push((*at, d));
        packed.push((*at, e));
    }
    let size = plain.iter().map(|p| p.0 + p.1.len() as u64).max().unwrap_or(0) + 1000;
    let mut coder = vec![1, BCJ_IDS[c.filter as usize % 5].len() as u8];
    coder.extend_from_slice(BCJ_IDS[c.filter as usize % 5]);
    let s = sparse_archive(&coder, &[(size, packed)], size);
    read_sparse(s, &Sparse { len: size, pos: 0, parts: plain })
}
pub fn c07(cx: &Ctx) {
    cx.rule("the standard encoder changes at least one byte of the content");
    cx.assume("liblzma's filter encoders are the standard ones; streams start at offset 0 (7z stores no start offset)");
    cx.cpu_limit(400);
    cx.run("filters", cx.n(30_000, 600_000), || filter_case(9000), c07_one);
    cx.run("filters_long", cx.n(300, 20_000), || filter_case(300_000), c07_one);
    cx.run(
        "delta_all",
        256,
        || (any::<u8>(), code_data(3000), splits(), splits()),
        |(d, data, src, reads), o| {
            let mut evals = 0;
            for dist in [*d, d.wrapping_add(64), d.wrapping_add(128), 255] {
                let c = FilterCase {
                    filters: vec![M::Delta(dist)],
                    rest: vec![],
                    data: data.clone(),
                    src: src.clone(),
                    reads: reads.clone(),
                    empty_reads: false,
                };
                c07_one(&c, o)?;
                evals += 1;
            }
            o.evals(evals);
            Ok(())
        },
    );
    for f in 0..5u8 {
        let name: &'static str = ["far_x86", "far_ppc", "far_arm", "far_armt", "far_sparc"][f as usize];
        let upto = if cx.n(0, 1) == 1 || f == 0 { 1 << 33 } else { (1 << 31) + (1 << 26) };
        cx.run(name, cx.n(1, 12), move || far_case(f, upto), far_one);
    }
}

// ------------------------------------------------------------------------------------------ C08
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bcj2Case {
    pub mode: u8,
    pub sides: Vec<Vec<M>>,
    pub perm: u64,
    pub data: Data,
    pub src: Splits,
    pub reads: Splits,
    /// per stream: bytes cut off, bytes changed
    pub damage: Vec<Damage>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Damage {
    pub stream: u8,
    pub cut: Option<u32>,
    pub set: Vec<(u32, u8)>,
    pub extra: u8,
}
fn sides(plain: bool) -> BoxedStrategy<Vec<Vec<M>>> {
    if plain {
        return Just(vec![vec![]; 4]).boxed();
    }
    bcj2_chain(true).prop_map(|c| if let Chain::Bcj2(_, s) = c { s } else { unreachable!() }).boxed()
}
fn bcj2_case(max: u32, plain: bool, damage: BoxedStrategy<Vec<Damage>>) -> BoxedStrategy<Bcj2Case> {
    (prop_oneof![2 => Just(1u8), 1 => Just(0u8), 3 => any::<u8>()], sides(plain), prop_oneof![1 => Just(0u64), 2 => any::<u64>()], code_data(max), splits(), splits(), damage)
        .prop_map(|(mode, sides, perm, data, src, reads, damage)| Bcj2Case { mode, sides, perm, data, src, reads, damage })
        .boxed()
}
fn bcj2_label(c: &Bcj2Case, data: &[u8], o: &Obs) -> [Vec<u8>; 4] {
    let s = bcj2_encode(data, c.mode);
    o.nontrivial(s[1].len() + s[2].len() > 0);
    o.label_if(s[0].len() > 1 << 18, "main stream above 256 KiB");
    o.label_if(s[1].len() > 1 << 18 || s[2].len() > 1 << 18, "call/jump stream above 256 KiB");
    o.label_if(s[1].is_empty() || s[2].is_empty(), "empty side stream");
    o.label_if(s[0].len() < data.len() / 3, "mostly branches");
    s
}
fn c08_one(c: &Bcj2Case, o: &Obs) -> Result<(), String> {
    let data = c.data.bytes();
    bcj2_label(c, &data, o);
    let s: [Vec<M>; 4] = [c.sides[0].clone(), c.sides[1].clone(), c.sides[2].clone(), c.sides[3].clone()];
    let pw = "pass";
    let f = bcj2_folder(c.mode, &s, &data, &utf16(pw), c.perm);
    let got = read_folder(f, data.len() as u64, &c.src, &How::with(&c.reads), pw).map_err(|e| format!("reading failed: {e}"))?;
    same("BCJ2 content", &got, &data)
}
/// Damaged or missing streams, no checksums anywhere.
fn c08_damaged(c: &Bcj2Case, o: &Obs) -> Result<(), String> {
    let data = c.data.bytes();
    let streams = bcj2_label(c, &data, o);
    let mut f = bcj2_folder(c.mode, &[vec![], vec![], vec![], vec![]], &data, &[], 0);
    let mut changed = false;
    let mut altered = false;
    for d in &c.damage {
        let s = &mut f.packs[d.stream as usize % 4];
        let before = s.clone();
        for (at, v) in &d.set {
            if !s.is_empty() {
                let i = *at as usize % s.len();
                altered |= s[i] != *v;
                s[i] = *v;
            }
        }
        if let Some(n) = d.cut {
            let keep = s.len().saturating_sub(1 + n as usize % s.len().max(1));
            s.truncate(keep);
        }
        changed |= *s != before;
    }
    o.nontrivial(changed && data.len() > 5);
    o.label_if(altered, "altered stream");
    let missing = f.packs.iter().zip(&streams).any(|(a, b)| a.len() < b.len());
    o.label_if(missing && !altered, "truncated stream only");
    match read_folder(f, data.len() as u64, &c.src, &How::with(&c.reads), "") {
        Err(_) => {
            o.label("refused");
            Ok(())
        }
        Ok(got) => {
            if got.len() != data.len() {
                return Err(format!("{} bytes returned as complete, declared {}", got.len(), data.len()));
            }
            if altered {
                return Ok(());
            }
            same("content after truncation, returned as complete", &got, &data)
        }
    }
}
fn damage(set: bool) -> BoxedStrategy<Vec<Damage>> {
    let one = (
        0u8..4,
        prop_oneof![1 => Just(None), 2 => (0u32..12).prop_map(Some), 2 => any::<u32>().prop_map(Some)],
        if set { proptest::collection::vec((any::<u32>(), any::<u8>()), 0..4).boxed() } else { Just(vec![]).boxed() },
        any::<u8>(),
    )
        .prop_map(|(stream, cut, set, extra)| Damage { stream, cut, set, extra });
    proptest::collection::vec(one, 1..3).boxed()
}
/// Arbitrary four streams with an arbitrary declared size.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bcj2Raw {
    pub streams: Vec<Data>,
    pub size: u32,
    pub reads: Splits,
    pub src: Splits,
}
fn c08_raw(c: &Bcj2Raw, o: &Obs) -> Result<(), String> {
    let mut f = Folder {
        coders: vec![Coder { id: ID_BCJ2.to_vec(), props: None, nin: 4, nout: 1 }],
        binds: vec![],
        packed: vec![0, 1, 2, 3],
        unpack: vec![c.size as u64],
        crc: None,
        packs: c.streams.iter().map(|d| d.bytes()).collect(),
        subs: vec![],
    };
    if let Some(b) = f.packs[3].first_mut() {
        // the first range coder byte has to be 0; mostly right
        if *b != 0xff {
            *b = 0;
        }
    }
    o.nontrivial(f.packs.iter().all(|p| !p.is_empty()) && f.packs[3].len() >= 5);
    match read_folder(f, c.size as u64, &c.src, &How::with(&c.reads), "") {
        Ok(v) if v.len() as u64 != c.size as u64 => Err(format!("{} bytes, declared {}", v.len(), c.size)),
        r => {
            o.label_if(r.is_ok(), "accepted");
            Ok(())
        }
    }
}
fn c08_far(c: &FarCase, o: &Obs) -> Result<(), String> {
    // main: zeros with one window; only the windows need side streams
    let mut plain = vec![];
    let mut main = vec![];
    let mut enc = Bcj2Enc::new(c.filter, u64::MAX);
    let mut shift = 0u64;
    let mut end = 0u64;
    for (at, _, d) in &c.windows {
        let mut d = d.bytes();
        d.truncate(400_000);
        d.extend_from_slice(&[0; 64]);
        let m0 = enc.main.len();
        enc.gap(*at as u32);
        enc.run(&d, *at as u32);
        let m = enc.main[m0..].to_vec();
        o.nontrivial(*at >= 1 << 31 && m.len() < d.len());
        let (l, n) = (m.len() as u64, d.len() as u64);
        main.push((*at - shift, m));
        shift += n - l;
        end = *at + n;
        plain.push((*at, d));
    }
    let size = end + 1000;
    let [_, call, jump, rc] = enc.finish();
    let mut coder = vec![1, 0x14];
    coder.extend_from_slice(ID_BCJ2);
    coder.extend_from_slice(&[4, 1, 0, 1, 2, 3]);
    let s = sparse_archive(
        &coder,
        &[(size - shift, main), (call.len() as u64, vec![(0, call)]), (jump.len() as u64, vec![(0, jump)]), (rc.len() as u64, vec![(0, rc)])],
        size,
    );
    read_sparse(s, &Sparse { len: size, pos: 0, parts: plain })
}
pub fn c08(cx: &Ctx) {
    cx.rule("at least one converted branch (for damaged streams: at least one stream differs from what the encoder made)");
    cx.assume("the BCJ2 encoder in harness/src/z7.rs follows the published transform");
    cx.cpu_limit(400);
    cx.run("blocks", cx.n(40_000, 200_000), || bcj2_case(6_000, false, Just(vec![]).boxed()), c08_one);
    cx.run("blocks_long", cx.n(600, 6_000), || bcj2_case(900_000, false, Just(vec![]).boxed()), c08_one);
    cx.run("stored_long", cx.n(1_500, 6_000), || bcj2_case(1_400_000, true, Just(vec![]).boxed()), c08_one);
    cx.run("truncated", cx.n(150_000, 400_000), || bcj2_case(2_000, true, damage(false)), c08_damaged);
    cx.run("altered", cx.n(150_000, 400_000), || bcj2_case(2_000, true, damage(true)), c08_damaged);
    cx.run("damaged_long", cx.n(1_500, 6_000), || bcj2_case(1_000_000, true, damage(true)), c08_damaged);
    cx.run(
        "arbitrary",
        cx.n(100_000, 1_000_000),
        || {
            (proptest::collection::vec(code_data(400), 4..=4), len_upto(3000), splits(), splits())
                .prop_map(|(streams, size, reads, src)| Bcj2Raw { streams, size, reads, src })
        },
        c08_raw,
    );
    cx.run("beyond_4_gib", cx.n(1, 12), || (any::<u8>(), far_case(0, 1 << 33)).prop_map(|(m, mut c)| { c.filter = m; c }), c08_far);
}
