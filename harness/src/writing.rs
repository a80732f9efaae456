//! Checks on archives made by the library's writer: a writer history (methods, pushes, batches) is the generated
//! value, and the list of entries it pushes is the model.
use crate::arc::*;
use crate::codec::{opts, Opts};
use crate::fw::{Ctx, Obs};
use crate::util::*;
use crate::z7::{self, meta, name, password, Expect, FileRec, Meta};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sevenz_rust::AesEncoderOptions;
use sevenz_rust::{Archive, Error, MethodOptions, SeqReader, SevenZArchiveEntry, SevenZMethod, SevenZMethodConfiguration, SevenZWriter, SourceReader};
use std::io::{Read, Seek, Write};

// ------------------------------------------------------------------------------------------ histories
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WM {
    Lzma2(Option<Opts>),
    Lzma2Num(u32),
    Lzma(Option<Opts>),
    LzmaNum(u32),
    Aes { power: u8, salt: [u8; 16], iv: [u8; 16] },
    /// a method the writer has to reject: 0 BZIP2, 1 AES without options, 2 X86 filter
    Bad(u8),
}
impl WM {
    pub fn config(&self, pwd: &str) -> SevenZMethodConfiguration {
        let o = |o: &Opts| MethodOptions::LZMA2(o.lzma2(None));
        match self {
            WM::Lzma2(None) => SevenZMethod::LZMA2.into(),
            WM::Lzma2(Some(x)) => SevenZMethodConfiguration::new(SevenZMethod::LZMA2).with_options(o(x)),
            WM::Lzma2Num(n) => SevenZMethodConfiguration::new(SevenZMethod::LZMA2).with_options((*n).into()),
            WM::Lzma(None) => SevenZMethod::LZMA.into(),
            WM::Lzma(Some(x)) => SevenZMethodConfiguration::new(SevenZMethod::LZMA).with_options(o(x)),
            WM::LzmaNum(n) => SevenZMethodConfiguration::new(SevenZMethod::LZMA).with_options((*n).into()),
            WM::Aes { power, salt, iv } => {
                let mut a = AesEncoderOptions::new(pw(pwd));
                a.num_cycles_power = *power;
                a.salt = *salt;
                a.iv = *iv;
                a.into()
            }
            WM::Bad(0) => SevenZMethod::BZIP2.into(),
            WM::Bad(1) => SevenZMethod::AES256SHA256.into(),
            WM::Bad(_) => SevenZMethod::BCJ_X86_FILTER.into(),
        }
    }
    pub fn is_aes(&self) -> bool {
        matches!(self, WM::Aes { .. })
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    File(Data),
    /// pushed without a reader
    Empty,
    Dir,
    /// a directory pushed with a reader, which is not looked at
    DirReader(Data),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WEntry {
    pub meta: Meta,
    pub kind: Kind,
    pub anti: bool,
    /// the pushed record carries values of another life
    pub stale: bool,
    pub reads: Splits,
    /// the content reader fails at this read call (None: never)
    pub fail: Option<u16>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WOp {
    Methods(Vec<WM>),
    EncHeader(bool),
    Push(WEntry),
    Batch(Vec<WEntry>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub ops: Vec<WOp>,
    pub password: String,
}
impl WEntry {
    pub fn record(&self) -> SevenZArchiveEntry {
        let mut e = SevenZArchiveEntry::new();
        let m = &self.meta;
        e.name = m.name.clone();
        if let Some(t) = m.c {
            e.has_creation_date = true;
            e.creation_date = t.into();
        }
        if let Some(t) = m.a {
            e.has_access_date = true;
            e.access_date = t.into();
        }
        if let Some(t) = m.m {
            e.has_last_modified_date = true;
            e.last_modified_date = t.into();
        }
        if let Some(t) = m.attr {
            e.has_windows_attributes = true;
            e.windows_attributes = t;
        }
        e.is_directory = matches!(self.kind, Kind::Dir | Kind::DirReader(_));
        e.is_anti_item = self.anti && !matches!(self.kind, Kind::File(_));
        if self.stale {
            e.has_stream = true;
            e.has_crc = true;
            e.crc = 77;
            e.compressed_crc = 78;
            e.size = 12345;
            e.compressed_size = 999;
        } else {
            e.has_stream = matches!(self.kind, Kind::File(_));
        }
        e
    }
    fn bytes(&self) -> Vec<u8> {
        match &self.kind {
            Kind::File(d) | Kind::DirReader(d) => d.bytes(),
            _ => vec![],
        }
    }
    /// what has to be read back
    pub fn expect(&self, folder: Option<usize>) -> Expect {
        let m = &self.meta;
        let data = if matches!(self.kind, Kind::File(_)) { self.bytes() } else { vec![] };
        Expect {
            rec: FileRec {
                name: m.name.clone(),
                stream: !data.is_empty(),
                dir: matches!(self.kind, Kind::Dir | Kind::DirReader(_)),
                anti: self.anti && !matches!(self.kind, Kind::File(_)),
                c: m.c,
                a: m.a,
                m: m.m,
                attr: m.attr,
            },
            crc: if data.is_empty() { None } else { Some(crc32(&data)) },
            data,
            folder,
        }
    }
}
/// Reader of one entry's content: short reads, and possibly a failure.
pub struct Content {
    pub r: ShortReader,
    pub fail: Option<u16>,
    pub calls: usize,
    pub failed: bool,
}
impl Content {
    pub fn new(e: &WEntry, split: bool) -> Content {
        let s = if split { e.reads.clone() } else { Splits::whole() };
        Content { r: ShortReader::new(e.bytes(), s), fail: e.fail, calls: 0, failed: false }
    }
}
/// The kinds injected failures have. Not Interrupted: that asks for a retry.
pub fn error_kind(n: u64) -> std::io::ErrorKind {
    use std::io::ErrorKind::*;
    [Other, UnexpectedEof, InvalidData, WouldBlock, BrokenPipe, TimedOut, InvalidInput, PermissionDenied, WriteZero, OutOfMemory, NotFound][(n % 11) as usize]
}
impl Read for Content {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let k = self.calls;
        self.calls += 1;
        if self.fail.map(|f| f as usize <= k).unwrap_or(false) {
            self.failed = true;
            return Err(std::io::Error::new(error_kind(self.fail.unwrap_or(0) as u64 + self.r.data.len() as u64), "content reader fails"));
        }
        self.r.read(b)
    }
}
/// One pushed group and what came of it.
pub struct Pushed {
    pub want: Vec<Expect>,
    /// the record a push returned
    pub ret: Option<SevenZArchiveEntry>,
    pub err: Option<Error>,
}
pub fn run_ops<W: Write + Seek>(h: &Hist, z: &mut SevenZWriter<W>, split: bool, stop_on_error: bool) -> Vec<Pushed> {
    let mut out = vec![];
    for (i, op) in h.ops.iter().enumerate() {
        match op {
            WOp::Methods(m) => {
                z.set_content_methods(m.iter().map(|m| m.config(&h.password)).collect());
            }
            WOp::EncHeader(b) => z.set_encrypt_header(*b),
            WOp::Push(e) => {
                let rd = match e.kind {
                    Kind::Empty | Kind::Dir => None,
                    _ => Some(Content::new(e, split)),
                };
                let (ret, err) = match z.push_archive_entry(e.record(), rd) {
                    Ok(r) => (Some(r.clone()), None),
                    Err(x) => (None, Some(x)),
                };
                let bad = err.is_some();
                out.push(Pushed { want: vec![e.expect(Some(i))], ret, err });
                if bad && stop_on_error {
                    break;
                }
            }
            WOp::Batch(v) => {
                let readers: Vec<SourceReader<Content>> = v.iter().map(|e| SourceReader::new(Content::new(e, split))).collect();
                let r = z.push_archive_entries(v.iter().map(|e| e.record()).collect(), SeqReader::new(readers));
                let err = r.err();
                let bad = err.is_some();
                out.push(Pushed { want: v.iter().map(|e| e.expect(Some(i))).collect(), ret: None, err });
                if bad && stop_on_error {
                    break;
                }
            }
        }
    }
    out
}
impl Hist {
    pub fn uses_aes(&self) -> bool {
        self.ops.iter().any(|o| matches!(o, WOp::Methods(m) if m.iter().any(|m| m.is_aes())))
    }
    pub fn entries(&self) -> Vec<&WEntry> {
        self.ops
            .iter()
            .flat_map(|o| match o {
                WOp::Push(e) => vec![e],
                WOp::Batch(v) => v.iter().collect(),
                _ => vec![],
            })
            .collect()
    }
    pub fn want(&self) -> Vec<Expect> {
        self.entries().iter().map(|e| e.expect(None)).collect()
    }
    /// Writes the archive; any error is a violation.
    pub fn write(&self, out: MemFile, split: bool) -> Result<(Vec<u8>, Vec<Pushed>), String> {
        let mut z = SevenZWriter::new(out).map_err(|e| format!("writer: {e}"))?;
        let p = run_ops(self, &mut z, split, true);
        if let Some(e) = p.iter().find_map(|p| p.err.as_ref()) {
            return Err(format!("push failed: {e}"));
        }
        let f = z.finish().map_err(|e| format!("finish failed: {e}"))?;
        Ok((f.data, p))
    }
    pub fn label(&self, o: &Obs) {
        let e = self.entries();
        o.nontrivial(e.len() > 1 && e.iter().any(|e| matches!(&e.kind, Kind::File(d) if !d.bytes().is_empty())));
        o.label_if(self.uses_aes(), "aes");
        o.label_if(self.ops.iter().any(|o| matches!(o, WOp::Batch(v) if v.len() > 1)), "solid batch");
        o.label_if(self.ops.iter().filter(|o| matches!(o, WOp::Methods(_))).count() > 1, "methods changed");
        o.label_if(e.iter().any(|e| !matches!(e.kind, Kind::File(_))), "entries without content");
        o.label_if(self.ops.iter().any(|o| matches!(o, WOp::Methods(m) if m.len() > 1)), "coder chain");
        o.label_if(e.iter().any(|e| matches!(&e.kind, Kind::File(d) if d.bytes().is_empty())), "file of zero bytes");
    }
}
// generators
fn w_opts(wide: bool) -> BoxedStrategy<Opts> {
    opts(wide, 17)
}
fn compress_method() -> BoxedStrategy<WM> {
    prop_oneof![
        1 => Just(WM::Lzma2(None)),
        6 => w_opts(false).prop_map(|o| WM::Lzma2(Some(o))),
        3 => prop_oneof![Just(4096u32), 4096u32..200_000, (12u32..20).prop_map(|s| 1 << s), (12u32..20, 1u32..3).prop_map(|(s, d)| (1 << s) + d)].prop_map(WM::Lzma2Num),
        1 => Just(WM::Lzma(None)),
        4 => w_opts(true).prop_map(|o| WM::Lzma(Some(o))),
        1 => (4096u32..200_000).prop_map(WM::LzmaNum),
    ]
    .boxed()
}
pub fn aes_method() -> BoxedStrategy<WM> {
    (prop_oneof![8 => 0u8..8, 1 => Just(0x3fu8)], any::<[u8; 16]>(), any::<[u8; 16]>())
        .prop_map(|(power, salt, iv)| WM::Aes { power, salt, iv })
        .boxed()
}
pub fn methods(aes: bool) -> BoxedStrategy<Vec<WM>> {
    if !aes {
        return prop_oneof![6 => compress_method().prop_map(|m| vec![m]), 1 => pvec(compress_method(), 2..4)].boxed();
    }
    prop_oneof![
        5 => compress_method().prop_map(|m| vec![m]),
        4 => (aes_method(), compress_method()).prop_map(|(a, c)| vec![a, c]),
        1 => aes_method().prop_map(|a| vec![a]),
        2 => pvec(prop_oneof![2 => compress_method(), 1 => aes_method()], 2..4),
    ]
    .boxed()
}
fn w_entry(max: u32, batch: bool) -> BoxedStrategy<WEntry> {
    let kind = if batch {
        prop_oneof![12 => data(max).prop_map(Kind::File), 1 => Just(Kind::Dir)].boxed()
    } else {
        prop_oneof![
            6 => data(max).prop_map(Kind::File),
            2 => Just(Kind::Empty),
            2 => Just(Kind::Dir),
            1 => data(100).prop_map(Kind::DirReader)
        ]
        .boxed()
    };
    (meta(), kind, prop_oneof![5 => Just(false), 1 => Just(true)], any::<bool>(), splits())
        .prop_map(|(meta, kind, anti, stale, reads)| WEntry { meta, kind, anti, stale, reads, fail: None })
        .boxed()
}
pub fn w_op(max: u32, aes: bool) -> BoxedStrategy<WOp> {
    prop_oneof![
        2 => methods(aes).prop_map(WOp::Methods),
        1 => any::<bool>().prop_map(WOp::EncHeader),
        6 => w_entry(max, false).prop_map(WOp::Push),
        3 => pvec(w_entry(max, true), 0..6).prop_map(WOp::Batch),
    ]
    .boxed()
}
/// The default methods are expensive to set up, so most histories start with others.
pub fn hist(max: u32, ops: usize, aes: bool) -> BoxedStrategy<Hist> {
    (prop_oneof![1 => Just(None), 12 => methods(aes).prop_map(Some)], pvec(w_op(max, aes), 0..ops), password())
        .prop_map(|(m, mut ops, password)| {
            if let Some(m) = m {
                ops.insert(0, WOp::Methods(m));
            }
            Hist { ops, password }
        })
        .boxed()
}

/// Histories with many pushes, with large batches, or with many entries without content.
pub fn crowd() -> BoxedStrategy<Hist> {
    let shape = prop_oneof![
        4 => (Just(0u8), z7::crowd_size()),
        3 => (Just(1u8), z7::crowd_size()),
        2 => (Just(2u8), z7::crowd_size()),
        2 => (Just(3u8), z7::crowd_size()),
        1 => (Just(3u8), 16_380usize..16_390),
    ];
    (shape, z7::metas(), any::<u64>(), any::<bool>(), password())
        .prop_map(|((shape, n), metas, seed, aes, password)| {
            let mut r = crate::util::Rng::new(seed);
            let mut k = 0;
            let mut entry = |r: &mut crate::util::Rng, kind: u8| {
                k += 1;
                WEntry {
                    meta: z7::nth_meta(&metas, k),
                    kind: match kind {
                        0 => Kind::File(Data(vec![Seg::Ramp(r.next() as u8, (r.next() % 4) as u32)])),
                        1 => Kind::Empty,
                        _ => Kind::Dir,
                    },
                    anti: seed % 4 == 0 && r.next() % 3 == 0,
                    stale: false,
                    reads: Splits::whole(),
                    fail: None,
                }
            };
            let mut ops = vec![WOp::Methods(if aes && shape != 1 { vec![WM::Aes { power: 0, salt: [1; 16], iv: [2; 16] }] } else { vec![WM::Lzma2Num(4096)] })];
            match shape {
                0 => ops.push(WOp::Batch((0..n).map(|_| entry(&mut r, 0)).collect())),
                1 => ops.extend((0..n).map(|_| WOp::Push(entry(&mut r, 0)))),
                2 => {
                    let mut left = n;
                    while left > 0 {
                        let b = left.min(1 + r.next() as usize % 9);
                        ops.push(WOp::Batch((0..b).map(|_| { let d = 2 * (r.next() % 5 / 4) as u8; entry(&mut r, d) }).collect()));
                        left -= b;
                    }
                }
                _ => {
                    ops.push(WOp::Batch((0..3).map(|_| entry(&mut r, 0)).collect()));
                    ops.extend((0..n).map(|_| { let d = if seed & 256 == 0 { 2 } else { 1 + (r.next() % 2) as u8 }; WOp::Push(entry(&mut r, d)) }));
                }
            }
            for _ in 0..r.next() % 4 {
                let d = (r.next() % 3) as u8;
                ops.push(WOp::Push(entry(&mut r, d)));
            }
            Hist { ops, password }
        })
        .boxed()
}
/// Histories with contents whose sizes, or whose packed sizes, are near where numbers get longer or buffers full.
pub fn bounds(most: u32) -> BoxedStrategy<Hist> {
    let size = prop_oneof![
        2 => (7u32..=most, -3i64..4).prop_map(|(s, d)| ((1i64 << s) + d) as u32),
        2 => (1u32..6, -3i64..4).prop_map(move |(k, d)| (((k * 7).min(most / 7 * 7) as i64).min(28), d)).prop_map(|(s, d)| ((1i64 << s) + d) as u32),
        1 => (1i64..40, -2i64..3).prop_map(|(k, d)| (k * 4096 + d) as u32),
        1 => (1i64..9, -2i64..3).prop_map(|(k, d)| (k * 65_536 + d) as u32),
    ];
    let content = (size, any::<u64>()).prop_map(|(n, x)| {
        let n = if x % 8 == 0 { n.saturating_sub(16) } else { n };
        Data(vec![match x % 5 {
            0 | 1 => Seg::Fill(x as u8, n),
            2 => Seg::Rand(x >> 8 & 0xFFFF_FFFF, n),
            3 => Seg::Ramp((x >> 8) as u8, n),
            _ => Seg::Text(x >> 8 & 0xFFFF_FFFF, n),
        }])
    });
    let entry = (content, splits()).prop_map(|(d, reads)| WEntry {
        meta: Meta { name: "e".into(), c: None, a: None, m: None, attr: None },
        kind: Kind::File(d),
        anti: false,
        stale: false,
        // reading megabytes in single bytes takes long and shows nothing here
        reads: if reads.0.iter().all(|n| *n < 100) { Splits::whole() } else { reads },
        fail: None,
    });
    let op = prop_oneof![3 => entry.clone().prop_map(WOp::Push), 1 => pvec(entry, 1..4).prop_map(WOp::Batch)];
    let mut fast = Opts::preset(0);
    fast.depth = 1;
    let methods = prop_oneof![
        3 => aes_method().prop_map(|a| vec![a]),
        2 => Just(vec![WM::Lzma2(Some(fast.clone()))]),
        1 => Just(vec![WM::Lzma(Some(fast.clone()))]),
        1 => aes_method().prop_map(move |a| vec![a, WM::Lzma2(Some(fast.clone()))]),
    ];
    (methods, pvec(op, 1..3), password())
        .prop_map(|(m, mut ops, password)| {
            ops.insert(0, WOp::Methods(m));
            Hist { ops, password }
        })
        .boxed()
}

// ------------------------------------------------------------------------------------------ comparing
/// Zero-length files may be stored with or without a stream.
fn norm_rec(r: FileRec, size: u64) -> FileRec {
    FileRec { stream: size > 0, ..r }
}
pub fn check_written(a: &Archive, want: &[Expect]) -> Result<(), String> {
    if a.files.len() != want.len() {
        return Err(format!("{} entries read back, {} pushed", a.files.len(), want.len()));
    }
    for (i, (g, w)) in a.files.iter().zip(want).enumerate() {
        let r = norm_rec(rec_of(g), g.size);
        if r != w.rec {
            return Err(format!("entry {i}: read back as {r:?}, pushed as {:?}", w.rec));
        }
        if g.size != w.data.len() as u64 {
            return Err(format!("entry {i}: size {} of {}", g.size, w.data.len()));
        }
        if (g.size > 0 && !g.has_crc) || (g.has_crc && g.crc != crc32(&w.data) as u64) {
            return Err(format!("entry {i}: checksum {} {:#x}, content has {:#x}", g.has_crc, g.crc, crc32(&w.data)));
        }
    }
    Ok(())
}
pub fn norm_seen(v: &[Seen]) -> Vec<Seen> {
    v.iter()
        .map(|s| Seen { rec: norm_rec(s.rec.clone(), s.size), size: s.size, crc: if s.size == 0 { None } else { s.crc }, data: s.data.clone() })
        .collect()
}
/// Reads an archive back and compares it with the model.
pub fn read_back(bytes: Vec<u8>, pwd: &str, want: &[Expect], how: &How) -> Result<Archive, String> {
    let (a, v) = read_archive(bytes, &Splits::whole(), pwd, how).map_err(|e| format!("the written archive does not read: {e}"))?;
    check_written(&a, want)?;
    check_visits(&norm_seen(&v), want)?;
    Ok(a)
}

// ------------------------------------------------------------------------------------------ C01
fn c01_one(c: &(Hist, Splits), o: &Obs) -> Result<(), String> {
    let (h, reads) = c;
    h.label(o);
    let (bytes, _) = h.write(MemFile::new(), true)?;
    read_back(bytes, &h.password, &h.want(), &How::with(reads)).map(|_| ())
}
/// Written over an older, perhaps longer file, at whatever position that was left.
fn c01_over(c: &(Hist, Splits, Data, u16), o: &Obs) -> Result<(), String> {
    let (h, reads, old, pos) = c;
    h.label(o);
    let (fresh, _) = h.write(MemFile::new(), true)?;
    let old = old.bytes();
    o.label_if(old.len() > fresh.len(), "longer file before");
    let sink = MemFile { pos: *pos as u64 % (old.len() as u64 + 1), data: old.clone(), ..Default::default() };
    let (bytes, _) = h.write(sink, true)?;
    same("the archive over another file", &bytes[..fresh.len().min(bytes.len())], &fresh)?;
    same("what was behind it", &bytes[fresh.len()..], &old[fresh.len().min(old.len())..])?;
    read_back(bytes, &h.password, &h.want(), &How::with(reads)).map(|_| ())
}
/// Entries whose sizes take more than 32 bits, zero but for their first and last bytes; several are pushed as a batch.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HugeHist {
    pushes: Vec<(Vec<WM>, Vec<u64>)>,
}
fn c01_huge(c: &HugeHist, o: &Obs) -> Result<(), String> {
    let pass = "p";
    let mut want = vec![];
    let mut z = SevenZWriter::new(MemFile::new()).map_err(|e| format!("new: {e}"))?;
    let entry = |k: u64| {
        let mut e = SevenZArchiveEntry::new();
        e.name = format!("f{k}");
        e
    };
    for (methods, sizes) in &c.pushes {
        z.set_content_methods(methods.iter().map(|m| m.config(pass)).collect());
        let mut entries = vec![];
        let mut readers = vec![];
        for n in sizes {
            let k = want.len() as u64;
            let (r, crc) = crate::reading::ends_source(k, *n);
            want.push((format!("f{k}"), *n, crc));
            entries.push(entry(k));
            readers.push(r);
        }
        if sizes.len() == 1 {
            let e = z.push_archive_entry(entries.remove(0), readers.pop()).map_err(|e| format!("push of {sizes:?}: {e}"))?;
            if (e.size, e.crc as u32) != (sizes[0], want[want.len() - 1].2) {
                return Err(format!("push of {sizes:?} reported a size of {} and a checksum of {:#x}", e.size, e.crc));
            }
        } else {
            let readers: Vec<SourceReader<_>> = readers.into_iter().map(|r| r.into()).collect();
            z.push_archive_entries(entries, SeqReader::new(readers)).map_err(|e| format!("push of {sizes:?}: {e}"))?;
        }
    }
    o.nontrivial(want.iter().map(|w| w.1).sum::<u64>() >= 1 << 32);
    let bytes = z.finish().map_err(|e| format!("finish: {e}"))?.data;
    let len = bytes.len() as u64;
    let mut r = sevenz_rust::SevenZReader::new(std::io::Cursor::new(bytes), len, pw(pass)).map_err(|e| format!("open: {e}"))?;
    let seen: Vec<_> = r.archive().files.iter().map(|f| (f.name.clone(), f.size, f.crc as u32)).collect();
    if seen != want {
        return Err(format!("entries {seen:?} instead of {want:?}"));
    }
    let mut check = crate::reading::ends_check();
    let mut k = 0;
    let mut res = Ok(());
    r.for_each_entries(|_, rd| {
        res = check(k, want[k as usize].1, rd);
        k += 1;
        Ok(res.is_ok())
    })
    .map_err(|e| format!("iteration: {e}"))?;
    res?;
    if k != want.len() as u64 {
        return Err(format!("{k} of {} entries visited", want.len()));
    }
    Ok(())
}
pub fn c01(cx: &Ctx) {
    cx.rule("at least two entries, one of them with content");
    cx.assume("sizes up to a few MB, and of 4 GiB with simple content; content read back with this library (an independent decoder is C14's)");
    cx.run("small", cx.n(12_000, 100_000), || (hist(400, 12, true), splits()).boxed(), c01_one);
    cx.run("medium", cx.n(1_800, 20_000), || (hist(60_000, 8, true), splits()).boxed(), c01_one);
    cx.run("large", cx.n(24, 1_500), || (hist(1_500_000, 5, true), splits()).boxed(), c01_one);
    let w = |h: BoxedStrategy<Hist>| (h, splits()).boxed();
    cx.run("over-old", cx.n(2_000, 30_000), || (hist(400, 8, true), splits(), data(6_000), any::<u16>()).boxed(), c01_over);
    cx.run("crowd", cx.n(600, 20_000), move || w(crowd()), c01_one);
    cx.run("bounds", cx.n(300, 6_000), move || (bounds(21), Just(Splits::whole())).boxed(), c01_one);
    cx.run("bounds-28", cx.n(3, 60), move || (bounds(28), Just(Splits::whole())).boxed(), c01_one);
    cx.cpu_limit(600);
    cx.run("beyond-4GiB", cx.n(2, 24), || {
        let g = 1u64 << 32;
        let near = (-2i64..4).prop_map(move |d| (g as i64 + d) as u64);
        let small = || prop_oneof![1u64..100, 1u64..100_000];
        let mut fast = Opts::preset(0);
        fast.depth = 1;
        fast.nice = 273;
        let methods = prop_oneof![
            3 => Just(vec![WM::Lzma2(Some(fast.clone()))]),
            2 => Just(vec![WM::Lzma(Some(fast.clone()))]),
            1 => Just(vec![WM::Aes { power: 0, salt: [1; 16], iv: [2; 16] }, WM::Lzma2(Some(fast))]),
        ];
        let sizes = prop_oneof![
            1 => (near.clone(), small()).prop_map(|(n, a)| vec![vec![n], vec![a]]),
            2 => (small(), near.clone(), small()).prop_map(|(a, n, b)| vec![vec![a, n, b], vec![b]]),
            1 => (small(), 1u64..g, small()).prop_map(move |(a, x, b)| vec![vec![x, g - x + a], vec![b]]),
        ];
        (methods, sizes).prop_map(|(m, s)| HugeHist { pushes: s.into_iter().map(|v| (m.clone(), v)).collect() }).boxed()
    }, c01_huge);
}

// ------------------------------------------------------------------------------------------ C02
fn many(max_entries: usize) -> BoxedStrategy<Hist> {
    let e = |batch: bool| {
        (meta(), prop_oneof![4 => data(40).prop_map(Kind::File), 3 => Just(Kind::Empty), 3 => Just(Kind::Dir)], any::<bool>(), any::<bool>())
            .prop_map(move |(meta, kind, anti, stale)| WEntry {
                meta,
                kind: if batch && matches!(kind, Kind::Empty) { Kind::File(Data(vec![])) } else { kind },
                anti,
                stale,
                reads: Splits::whole(),
                fail: None,
            })
            .boxed()
    };
    // all records alike in what they have, or mixed
    (
        prop_oneof![
            2 => pvec(prop_oneof![5 => e(false).prop_map(WOp::Push), 1 => pvec(e(true), 0..9).prop_map(WOp::Batch)], 0..max_entries),
            1 => pvec(e(false).prop_map(|mut e| { e.kind = Kind::Dir; WOp::Push(e) }), 0..max_entries),
            1 => pvec(e(false).prop_map(|mut e| { e.kind = Kind::Empty; WOp::Push(e) }), 0..max_entries),
        ],
        0u8..32,
        any::<bool>(),
        password(),
    )
        .prop_map(|(mut ops, force, enc, password)| {
            let fix = |m: &mut Meta| {
                if force & 1 != 0 { m.c = m.c.or(Some(5)) }
                if force & 2 != 0 { m.a = None }
                if force & 4 != 0 { m.m = m.m.or(Some(u64::MAX)) }
                if force & 8 != 0 { m.attr = None }
            };
            for o in &mut ops {
                match o {
                    WOp::Push(e) => fix(&mut e.meta),
                    WOp::Batch(v) => v.iter_mut().for_each(|e| fix(&mut e.meta)),
                    _ => {}
                }
            }
            let m = vec![WM::Lzma2Num(4096)];
            ops.insert(0, WOp::Methods(m));
            if enc && force & 16 != 0 {
                ops.push(WOp::Methods(vec![WM::Aes { power: 0, salt: [1; 16], iv: [2; 16] }, WM::Lzma2Num(4096)]));
            }
            Hist { ops, password }
        })
        .boxed()
}
fn c02_one(h: &Hist, o: &Obs) -> Result<(), String> {
    let n = h.entries().len();
    o.nontrivial(n > 1);
    o.label_if(n > 8, "more than 8 entries");
    o.label_if(h.entries().iter().any(|e| e.record().is_anti_item), "anti item");
    o.label_if(h.entries().iter().any(|e| e.meta.c.is_some()) && h.entries().iter().any(|e| e.meta.c.is_none()), "times partly there");
    let (bytes, p) = h.write(MemFile::new(), true)?;
    let mut r = open(bytes, &Splits::whole(), &h.password).map_err(|e| format!("the written archive does not open: {e}"))?;
    check_written(r.archive(), &h.want())?;
    let mut i = 0;
    for p in &p {
        if let Some(ret) = &p.ret {
            let g = &r.archive().files[i];
            let key = |e: &SevenZArchiveEntry| (rec_of(e), e.size, e.has_crc, if e.has_crc { e.crc } else { 0 });
            if key(ret) != key(g) {
                return Err(format!("push {i} returned {:?}, read back {:?}", key(ret), key(g)));
            }
        }
        i += p.want.len();
    }
    let (v, res) = visit(&mut r, &How::plain());
    res.map_err(|e| format!("reading: {e}"))?;
    check_visits(&norm_seen(&v), &h.want())
}
pub fn c02(cx: &Ctx) {
    cx.rule("more than one entry");
    cx.assume("names without unpaired surrogates (Rust strings); anti-item flags on entries without content");
    cx.run("few", cx.n(18_000, 100_000), || many(10), c02_one);
    cx.run("many", cx.n(1_800, 10_000), || many(80), c02_one);
    cx.run("crowd", cx.n(1_000, 20_000), crowd, c02_one);
    cx.run("names", cx.n(9_000, 60_000), || {
        pvec(prop_oneof![name(), "\\PC{0,30}", pvec(any::<char>(), 0..20).prop_map(|v| v.into_iter().filter(|c| *c != '\0').collect::<String>())], 1..12)
            .prop_map(|v| Hist {
                password: "p".into(),
                ops: std::iter::once(WOp::Methods(vec![WM::Lzma2Num(4096)]))
                    .chain(v.into_iter().enumerate().map(|(i, name)| {
                        WOp::Push(WEntry {
                            meta: Meta { name, c: None, a: None, m: None, attr: None },
                            kind: match i % 3 { 0 => Kind::File(Data(vec![Seg::Fill(i as u8, i as u32)])), 1 => Kind::Empty, _ => Kind::Dir },
                            anti: false,
                            stale: false,
                            reads: Splits::whole(),
                            fail: None,
                        })
                    }))
                    .collect(),
            })
            .boxed()
    }, c02_one);
}

// ------------------------------------------------------------------------------------------ C14
pub fn check_format(bytes: &[u8], pwd: &str, want: &[Expect], gap: bool) -> Result<z7::Parsed, String> {
    let k = z7::utf16(pwd);
    let p = z7::parse_gap(bytes, &k, gap).map_err(|e| format!("not a conforming archive: {e}"))?;
    if p.files.len() != want.len() {
        return Err(format!("{} entries in the archive, {} pushed", p.files.len(), want.len()));
    }
    let datas: Vec<Vec<u8>> = (0..p.s.folders.len())
        .map(|i| z7::unpack(bytes, &p.s, i, &k))
        .collect::<Result<_, _>>()
        .map_err(|e| format!("not a conforming archive: {e}"))?;
    for (i, (f, w)) in p.files.iter().zip(want).enumerate() {
        let d: &[u8] = match f.at {
            None => &[],
            Some((k, j)) => {
                let start: u64 = p.s.folders[k].subs[..j].iter().map(|s| s.0).sum();
                &datas[k][start as usize..(start + p.s.folders[k].subs[j].0) as usize]
            }
        };
        let r = norm_rec(f.rec.clone(), d.len() as u64);
        if r != w.rec {
            return Err(format!("entry {i}: archive has {r:?}, pushed {:?}", w.rec));
        }
        same(&format!("content of entry {i}"), d, &w.data)?;
        if let Some((k, j)) = f.at {
            if !d.is_empty() && p.s.folders[k].subs[j].1.is_none() {
                return Err(format!("entry {i}: no checksum recorded"));
            }
        }
    }
    Ok(p)
}
fn c14_one(h: &Hist, o: &Obs) -> Result<(), String> {
    h.label(o);
    let (bytes, _) = h.write(MemFile::new(), true)?;
    let p = check_format(&bytes, &h.password, &h.want(), false)?;
    o.label_if(p.enc.is_some(), "packed header");
    Ok(())
}
pub fn c14(cx: &Ctx) {
    cx.rule("at least two entries, one of them with content");
    cx.assume("the strict parser in harness/src/z7.rs follows the published format; LZMA/LZMA2 decoded by liblzma and an own strict decoder");
    cx.run("small", cx.n(12_500, 80_000), || hist(400, 12, true), c14_one);
    cx.run("meta", cx.n(7_500, 60_000), || many(30), c14_one);
    cx.run("medium", cx.n(1_200, 20_000), || hist(60_000, 8, true), c14_one);
    cx.run("large", cx.n(24, 1_000), || hist(1_000_000, 4, true), c14_one);
    cx.run("crowd", cx.n(800, 20_000), crowd, c14_one);
    cx.run("bounds", cx.n(300, 6_000), || bounds(21), c14_one);
    cx.run("bounds-28", cx.n(3, 60), || bounds(28), c14_one);
}
