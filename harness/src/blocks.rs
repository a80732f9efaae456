//! C16, C18, C19, C24: ways of reading one archive.
use crate::arc::*;
use crate::fw::{Ctx, Obs};
use crate::reading::label_arch;
use crate::util::*;
use crate::writing::{hist, Hist, WOp};
use crate::z7::{self, *};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sevenz_rust::{Archive, BlockDecoder, Error, SevenZArchiveEntry, SevenZReader};
use std::io::{self, Read, Seek};

/// An archive from the independent writer or from the library's own.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Any {
    G(GArch),
    H(Hist),
}
impl Any {
    pub fn build(&self) -> Result<(Vec<u8>, String), String> {
        Ok(match self {
            Any::G(g) => (g.spec().0.build().bytes, g.password.clone()),
            Any::H(h) => (h.write(MemFile::new(), false)?.0, h.password.clone()),
        })
    }
    pub fn label(&self, o: &Obs) {
        match self {
            Any::G(g) => {
                o.label("independent writer");
                label_arch(g, o)
            }
            Any::H(h) => {
                o.label("library writer");
                h.label(o)
            }
        }
    }
}
pub fn any_arch(max: u32, aes: bool) -> BoxedStrategy<Any> {
    prop_oneof![4 => g_arch(max, aes).prop_map(Any::G), 1 => hist(max, 5, aes).prop_map(Any::H)].boxed()
}
/// Archives with very many entries, of one or many blocks.
fn any_crowd() -> BoxedStrategy<Any> {
    prop_oneof![3 => crate::z7::g_crowd().prop_map(Any::G), 1 => crate::writing::crowd().prop_map(Any::H)].boxed()
}
/// Consumption styles besides the explicit read loop.
fn consume(style: u8, how: &How, size: u64, rd: &mut dyn Read) -> io::Result<Vec<u8>> {
    let mut v = vec![];
    match style % 6 {
        0 => return how.read(rd),
        1 => {
            rd.read_to_end(&mut v)?;
        }
        2 => {
            v.resize(size as usize, 0);
            rd.read_exact(&mut v)?;
        }
        3 => {
            for b in rd.bytes() {
                v.push(b?);
                if v.len() as u64 > how.max {
                    return Err(io::Error::new(io::ErrorKind::Other, "HARNESS: too much data"));
                }
            }
            return Ok(v);
        }
        4 => {
            io::copy(rd, &mut v)?;
        }
        _ => {
            let half = size / 2;
            rd.take(half).read_to_end(&mut v)?;
            let rest = how.read(rd)?;
            v.extend(rest);
        }
    }
    let mut b = [0u8; 37];
    for _ in 0..3 {
        if rd.read(&mut b)? != 0 {
            return Err(io::Error::new(io::ErrorKind::Other, "HARNESS: bytes after the end of an entry"));
        }
    }
    Ok(v)
}
fn seen_of(e: &SevenZArchiveEntry, data: Vec<u8>) -> Seen {
    Seen { rec: rec_of(e), size: e.size(), crc: if e.has_crc { Some(e.crc as u32) } else { None }, data }
}

// ------------------------------------------------------------------------------------------ C16
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ViewCase {
    pub a: Any,
    pub views: Vec<(Splits, Splits, bool, u8)>,
}
fn c16_one(c: &ViewCase, o: &Obs) -> Result<(), String> {
    c.a.label(o);
    let (bytes, password) = c.a.build()?;
    let (a0, v0) = read_archive(bytes.clone(), &Splits::whole(), &password, &How::plain()).map_err(|e| format!("plain reading: {e}"))?;
    o.nontrivial(v0.iter().any(|s| s.data.len() > 1));
    for (src, reads, empty, style) in &c.views {
        let mut r = open(bytes.clone(), src, &password).map_err(|e| format!("open with short reads {src:?}: {e}"))?;
        if format!("{:?}", r.archive()) != format!("{a0:?}") {
            return Err(format!("parsed archive differs with source reads of {src:?}"));
        }
        let mut how = How::with(reads);
        how.empty_reads = *empty;
        let mut v = vec![];
        r.for_each_entries(|e, rd| {
            let d = consume(*style, &how, e.size(), rd).map_err(Error::io)?;
            v.push(seen_of(e, d));
            Ok(true)
        })
        .map_err(|e| format!("source reads {src:?}, entry reads {reads:?}, style {style}, empty reads {empty}: {e}"))?;
        if v != v0 {
            let i = v.iter().zip(&v0).position(|(a, b)| a != b);
            if let Some(i) = i {
                same(&format!("entry {i} read with {reads:?} (source {src:?}, style {style})"), &v[i].data, &v0[i].data)?;
            }
            return Err(format!("entries differ with source reads {src:?}, entry reads {reads:?}: {} vs {}", v.len(), v0.len()));
        }
    }
    o.evals(c.views.len() as u64);
    Ok(())
}
/// Buffers of two and four gigabytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WideCase {
    pub a: Any,
    pub src: Splits,
    pub len: u64,
}
fn wide_one(c: &WideCase, o: &Obs) -> Result<(), String> {
    c.a.label(o);
    let (bytes, password) = c.a.build()?;
    let (_, v0) = read_archive(bytes.clone(), &Splits::whole(), &password, &How::plain()).map_err(|e| format!("plain reading: {e}"))?;
    o.nontrivial(v0.iter().any(|s| s.data.len() > 1));
    // zero pages: only what is written to is ever there
    let mut buf = vec![0u8; c.len as usize];
    let mut v = vec![];
    let mut r = open(bytes, &c.src, &password).map_err(|e| format!("open: {e}"))?;
    r.for_each_entries(|e, rd| {
        let mut d = vec![];
        loop {
            match rd.read(&mut buf).map_err(Error::io)? {
                0 => break,
                n => d.extend_from_slice(&buf[..n]),
            }
        }
        v.push(seen_of(e, d));
        Ok(true)
    })
    .map_err(|e| format!("buffer of {}: {e}", c.len))?;
    if v != v0 {
        return Err(format!("entries differ with a buffer of {}", c.len));
    }
    Ok(())
}
fn view() -> BoxedStrategy<(Splits, Splits, bool, u8)> {
    (splits(), splits(), any::<bool>(), prop_oneof![3 => Just(0u8), 5 => 1u8..6]).boxed()
}
fn view_case(max: u32) -> BoxedStrategy<ViewCase> {
    (any_arch(max, true), proptest::collection::vec(view(), 2..5)).prop_map(|(a, views)| ViewCase { a, views }).boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StreamCase {
    pub o: crate::codec::ForeignOpts,
    pub kind: u8,
    pub data: Data,
    pub views: Vec<(Splits, Splits, bool, u8)>,
    pub aes: AesP,
}
fn stream_case(max: u32) -> BoxedStrategy<StreamCase> {
    (crate::codec::foreign_opts(16), any::<u8>(), data(max), proptest::collection::vec(view(), 2..5), aes_p(4))
        .prop_map(|(o, kind, data, views, aes)| StreamCase { o, kind, data, views, aes })
        .boxed()
}
/// The public decoders by themselves.
fn c16_stream(c: &StreamCase, o: &Obs) -> Result<(), String> {
    use sevenz_rust::lzma::{LZMA2Reader, LZMAReader};
    let data = c.data.bytes();
    o.nontrivial(data.len() > 1);
    let props = ((c.o.pb * 5 + c.o.lp) * 9 + c.o.lc) as u8;
    let pass = utf16("pw");
    let enc = match c.kind % 4 {
        0 => M::Lzma2(c.o.clone()).encode(&data, &[]),
        1 => M::Lzma(c.o.clone(), true).encode(&data, &[]),
        2 => M::Lzma(c.o.clone(), false).encode(&data, &[]),
        _ => c.aes.encrypt(&pass, &data),
    };
    o.label(["LZMA2", "LZMA with marker", "LZMA of known size", "AES"][c.kind as usize % 4]);
    let mut want = data.clone();
    if c.kind % 4 == 3 {
        want.resize(enc.len(), 0);
    }
    for (src, reads, empty, style) in &c.views {
        let s = ShortReader::new(enc.clone(), src.clone());
        let mut rd: Box<dyn Read> = match c.kind % 4 {
            0 => Box::new(LZMA2Reader::new(s, c.o.dict.max(4096), None)),
            1 => Box::new(LZMAReader::new_with_props(s, u64::MAX, props, c.o.dict.max(4096), None).map_err(|e| format!("{e}"))?),
            2 => Box::new(LZMAReader::new_with_props(s, data.len() as u64, props, c.o.dict.max(4096), None).map_err(|e| format!("{e}"))?),
            _ => Box::new(sevenz_rust::Aes256Sha256Decoder::new(s, &c.aes.props(), &pass).map_err(|e| format!("{e}"))?),
        };
        let mut how = How::with(reads);
        how.empty_reads = *empty;
        let got = consume(*style, &how, want.len() as u64, &mut *rd).map_err(|e| format!("source {src:?}, reads {reads:?}, style {style}, empty {empty}: {e}"))?;
        same(&format!("decoded with source {src:?}, reads {reads:?}, style {style}"), &got, &want)?;
    }
    o.evals(c.views.len() as u64);
    Ok(())
}
pub fn c16(cx: &Ctx) {
    cx.rule("some entry (or the stream) decodes to more than one byte");
    cx.assume("entries are consumed fully by the callback, as the API documents for blocks of several entries");
    cx.run("archives", cx.n(15_000, 300_000), || view_case(400), c16_one);
    cx.run("archives_medium", cx.n(2_500, 50_000), || view_case(20_000), c16_one);
    cx.run("archives_large", cx.n(60, 2_000), || view_case(600_000), c16_one);
    cx.run("streams", cx.n(8_000, 200_000), || stream_case(6_000), c16_stream);
    cx.run("streams_large", cx.n(120, 4_000), || stream_case(400_000), c16_stream);
    cx.run("wide_buffer", cx.n(400, 10_000), || {
        let len = prop_oneof![(1u64 << 31) - 1..(1 << 31) + 2, (1u64 << 32) - 1..(1 << 32) + 2, (1u64 << 32)..(1 << 32) + 3_000_000];
        (any_arch(3_000, true), splits(), len).prop_map(|(a, src, len)| WideCase { a, src, len })
    }, wide_one);
}

// ------------------------------------------------------------------------------------------ C18
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BlockCase {
    pub a: Any,
    pub order: Vec<u16>,
    pub threads: u8,
    pub src: Splits,
    pub reads: Splits,
    pub shared: bool,
    /// callbacks that stop early, or leave their last entry unread, must not matter to later decoders
    pub abandon: u16,
}
fn block_case(a: BoxedStrategy<Any>) -> BoxedStrategy<BlockCase> {
    (a, proptest::collection::vec(any::<u16>(), 0..8), 0u8..4, splits(), splits(), any::<bool>(), any::<u16>())
        .prop_map(|(a, order, threads, src, reads, shared, abandon)| BlockCase { a, order, threads, src, reads, shared, abandon })
        .boxed()
}
type BlockRes = Result<Vec<Seen>, String>;
fn c18_one(c: &BlockCase, o: &Obs) -> Result<(), String> {
    c.a.label(o);
    let (bytes, password) = c.a.build()?;
    let pass = utf16(&password);
    let mut r = open(bytes.clone(), &Splits::whole(), &password).map_err(|e| format!("open: {e}"))?;
    let (all, res) = visit(&mut r, &How::plain());
    res.map_err(|e| format!("sequential reading: {e}"))?;
    let a = Archive::read(&mut io::Cursor::new(&bytes), bytes.len() as u64, &pass).map_err(|e| format!("parse: {e}"))?;
    let n = a.folders.len();
    o.nontrivial(n > 1);
    o.label_if(c.threads > 0 && n > 0, "threads");
    // the sequential result cut into blocks
    let streams: Vec<usize> = (0..n).map(|i| a.folders[i].num_unpack_sub_streams).collect();
    let how = How::with(&c.reads);
    let mut first: Vec<Vec<Seen>> = vec![];
    let mut covered: Vec<Seen> = vec![];
    for i in 0..n {
        let mut s = ShortReader::new(bytes.clone(), c.src.clone());
        let d = BlockDecoder::new(i, &a, &pass, &mut s);
        let listed: Vec<FileRec> = d.entries().iter().map(rec_of).collect();
        if d.entry_count() != listed.len() {
            return Err(format!("block {i}: entry_count {} but {} entries", d.entry_count(), listed.len()));
        }
        if d.entries().iter().filter(|e| e.has_stream()).count() != streams[i] {
            return Err(format!("block {i} lists {} entries with content, has {}", d.entries().iter().filter(|e| e.has_stream()).count(), streams[i]));
        }
        let v = visit_block(&a, i, &pass, &mut s, &how).map_err(|e| format!("block {i}: {e}"))?;
        if v.iter().map(|s| s.rec.clone()).collect::<Vec<_>>() != listed {
            return Err(format!("block {i}: visited entries are not those listed"));
        }
        covered.extend(v.clone());
        first.push(v);
    }
    // content-less entries which no block visits
    let loose = a.files.iter().enumerate().filter(|(i, _)| a.stream_map.file_folder_index[*i].is_none()).map(|(_, e)| seen_of(e, vec![]));
    let mut got: Vec<String> = covered.iter().cloned().chain(loose).map(|s| format!("{s:?}")).collect();
    let mut want: Vec<String> = all.iter().map(|s| format!("{s:?}")).collect();
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("blocks and content-less entries give {} entries, sequential reading {}, or they differ", got.len(), want.len()));
    }
    if got.len() != a.files.len() {
        return Err(format!("{} entries covered, {} listed", got.len(), a.files.len()));
    }
    let with_content = |v: &[Seen]| v.iter().filter(|s| s.rec.stream).cloned().collect::<Vec<_>>();
    if with_content(&covered) != with_content(&all) {
        return Err("entries with content come in another order block by block".into());
    }
    if n == 0 {
        return Ok(());
    }
    // any order, repeatedly, one source for all or one each
    let mut evals = n as u64;
    let mut one = ShortReader::new(bytes.clone(), c.src.clone());
    for k in &c.order {
        let i = *k as usize % n;
        let mut own = ShortReader::new(bytes.clone(), c.src.clone());
        let src = if c.shared { &mut one } else { &mut own };
        if c.abandon >> (k % 16) & 1 == 1 {
            let mut left = 1;
            let _ = BlockDecoder::new(i, &a, &pass, src).for_each_entries(&mut |_: &SevenZArchiveEntry, rd: &mut dyn Read| {
                left -= 1;
                if left >= 0 {
                    let mut b = [0u8; 3];
                    let _ = rd.read(&mut b);
                }
                Ok(false)
            });
        }
        let v = visit_block(&a, i, &pass, src, &how).map_err(|e| format!("block {i} again: {e}"))?;
        if v != first[i] {
            return Err(format!("block {i} decodes differently when read again or in another order ({:?})", c.order));
        }
        evals += 1;
    }
    if c.threads > 0 {
        let results: Vec<(usize, BlockRes)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..(c.threads as usize + 1))
                .map(|t| {
                    let (a, bytes, pass, how) = (&a, &bytes, &pass, &how);
                    let order: Vec<usize> = (0..n).map(|i| (i * 7 + t) % n).collect();
                    let src = c.src.clone();
                    sc.spawn(move || {
                        order
                            .into_iter()
                            .map(|i| {
                                let mut s = ShortReader::new(bytes.clone(), src.clone());
                                (i, visit_block(a, i, pass, &mut s, how).map_err(|e| e.to_string()))
                            })
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec![(0, Err("panic in a thread".into()))])).collect()
        });
        for (i, r) in results {
            let v = r.map_err(|e| format!("block {i} in a thread: {e}"))?;
            if v != first[i] {
                return Err(format!("block {i} decodes differently in a thread"));
            }
            evals += 1;
        }
    }
    o.evals(evals);
    Ok(())
}
/// Lets one of several threads run at a time, and decides who is next.
struct Turns {
    st: std::sync::Mutex<TurnState>,
    cv: std::sync::Condvar,
}
struct TurnState {
    cur: usize,
    live: Vec<bool>,
    seq: Vec<u8>,
    pos: usize,
    switches: u64,
}
impl TurnState {
    fn pick(&mut self) {
        let live: Vec<usize> = (0..self.live.len()).filter(|i| self.live[*i]).collect();
        let k = self.seq[self.pos % self.seq.len()];
        self.pos += 1;
        let next = if live.is_empty() { usize::MAX } else { live[k as usize % live.len()] };
        self.switches += (next != self.cur) as u64;
        self.cur = next;
    }
}
impl Turns {
    fn new(n: usize, seq: &[u8]) -> Turns {
        let mut st = TurnState { cur: 0, live: vec![true; n], seq: if seq.is_empty() { vec![0] } else { seq.to_vec() }, pos: 0, switches: 0 };
        st.pick();
        Turns { st: std::sync::Mutex::new(st), cv: std::sync::Condvar::new() }
    }
    fn wait(&self, me: usize) {
        let mut st = self.st.lock().unwrap_or_else(|e| e.into_inner());
        while st.cur != me {
            st = self.cv.wait(st).unwrap_or_else(|e| e.into_inner());
        }
    }
    fn step(&self, me: usize) {
        let mut st = self.st.lock().unwrap_or_else(|e| e.into_inner());
        st.pick();
        if st.cur == me {
            return;
        }
        self.cv.notify_all();
        while st.cur != me {
            st = self.cv.wait(st).unwrap_or_else(|e| e.into_inner());
        }
    }
}
struct Turn<'a> {
    t: &'a Turns,
    me: usize,
    left: std::cell::Cell<u32>,
}
impl Turn<'_> {
    fn step(&self) {
        let n = self.left.get();
        if n > 0 {
            self.left.set(n - 1);
            self.t.step(self.me);
        }
    }
}
impl Drop for Turn<'_> {
    fn drop(&mut self) {
        let mut st = self.t.st.lock().unwrap_or_else(|e| e.into_inner());
        st.live[self.me] = false;
        st.pick();
        self.t.cv.notify_all();
    }
}
/// Gives way before every read.
struct Stepping<'a, R> {
    r: R,
    turn: &'a Turn<'a>,
}
impl<R: Read> Read for Stepping<'_, R> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.turn.step();
        self.r.read(b)
    }
}
impl<R: Seek> Seek for Stepping<'_, R> {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        self.r.seek(p)
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WeaveCase {
    pub a: Any,
    /// per thread the blocks it decodes
    pub threads: Vec<Vec<u16>>,
    pub seq: Vec<u8>,
    /// decoded inside of the callback of another block, by the same thread
    pub nested: Vec<(u16, u16)>,
    pub src: Splits,
    pub reads: Splits,
}
fn weave_case(a: BoxedStrategy<Any>) -> BoxedStrategy<WeaveCase> {
    (
        a,
        proptest::collection::vec(proptest::collection::vec(any::<u16>(), 1..4), 2..4),
        proptest::collection::vec(any::<u8>(), 1..24),
        proptest::collection::vec((any::<u16>(), any::<u16>()), 0..4),
        splits(),
        splits(),
    )
        .prop_map(|(a, threads, seq, nested, src, reads)| WeaveCase { a, threads, seq, nested, src, reads })
        .boxed()
}
fn c18_weave(c: &WeaveCase, o: &Obs) -> Result<(), String> {
    c.a.label(o);
    let (bytes, password) = c.a.build()?;
    let pass = utf16(&password);
    let a = Archive::read(&mut io::Cursor::new(&bytes), bytes.len() as u64, &pass).map_err(|e| format!("parse: {e}"))?;
    let n = a.folders.len();
    if n == 0 {
        return Ok(());
    }
    let how = How::with(&c.reads);
    let mut alone = vec![];
    for i in 0..n {
        alone.push(visit_block(&a, i, &pass, &mut ShortReader::new(bytes.clone(), Splits::whole()), &How::plain()).map_err(|e| format!("block {i}: {e}"))?);
    }
    let turns = Turns::new(c.threads.len(), &c.seq);
    let results: Vec<(usize, BlockRes)> = std::thread::scope(|sc| {
        let hs: Vec<_> = c
            .threads
            .iter()
            .enumerate()
            .map(|(me, order)| {
                let (a, bytes, pass, how, turns, src) = (&a, &bytes, &pass, &how, &turns, &c.src);
                sc.spawn(move || {
                    let turn = Turn { t: turns, me, left: std::cell::Cell::new(300) };
                    turns.wait(me);
                    let mut out = vec![];
                    for k in order {
                        let i = *k as usize % n;
                        let mut s = Stepping { r: ShortReader::new(bytes.clone(), src.clone()), turn: &turn };
                        let mut v = vec![];
                        let r = BlockDecoder::new(i, a, pass, &mut s).for_each_entries(&mut |e: &SevenZArchiveEntry, rd: &mut dyn Read| {
                            let d = how.read(&mut Stepping { r: rd, turn: &turn }).map_err(Error::io)?;
                            v.push(seen_of(e, d));
                            Ok(true)
                        });
                        out.push((i, r.map(|_| v).map_err(|e| e.to_string())));
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec![(0, Err("panic in a thread".into()))])).collect()
    });
    let switches = turns.st.into_inner().map(|s| s.switches).unwrap_or(0);
    o.nontrivial(switches > 2);
    o.evals(results.len() as u64 + c.nested.len() as u64);
    for (i, r) in results {
        let v = r.map_err(|e| format!("block {i} in a thread: {e}"))?;
        if v != alone[i] {
            return Err(format!("block {i} decodes differently while other threads decode"));
        }
    }
    for (i, j) in &c.nested {
        let (i, j) = (*i as usize % n, *j as usize % n);
        let mut outer = vec![];
        let mut inner: Vec<BlockRes> = vec![];
        let mut s = ShortReader::new(bytes.clone(), c.src.clone());
        BlockDecoder::new(i, &a, &pass, &mut s)
            .for_each_entries(&mut |e: &SevenZArchiveEntry, rd: &mut dyn Read| {
                let mut b = vec![0; c.reads.at1(0).min(1 << 16)];
                let k = rd.read(&mut b).map_err(Error::io)?;
                b.truncate(k);
                if inner.len() < 3 {
                    let mut s = ShortReader::new(bytes.clone(), c.src.clone());
                    inner.push(visit_block(&a, j, &pass, &mut s, &how).map_err(|e| e.to_string()));
                }
                b.extend(how.read(rd).map_err(Error::io)?);
                outer.push(seen_of(e, b));
                Ok(true)
            })
            .map_err(|e| format!("block {i}, with block {j} decoded in between: {e}"))?;
        if outer != alone[i] {
            return Err(format!("block {i} decodes differently when block {j} is decoded in between"));
        }
        for r in inner {
            if r.map_err(|e| format!("block {j} inside of {i}: {e}"))? != alone[j] {
                return Err(format!("block {j} decodes differently inside of block {i}"));
            }
        }
    }
    Ok(())
}
pub fn c18(cx: &Ctx) {
    cx.rule("an archive with at least two blocks (woven decoding: at least three switches between threads)");
    cx.assume("'woven': threads take turns, by a generated schedule, at every read of the source and of an entry (300 per thread); otherwise schedules are the operating system's. Each thread has its own source");
    cx.run("small", cx.n(12_000, 250_000), || block_case(any_arch(300, true)), c18_one);
    cx.run("medium", cx.n(1_500, 30_000), || block_case(any_arch(20_000, true)), c18_one);
    cx.run("large", cx.n(40, 1_500), || block_case(any_arch(500_000, true)), c18_one);
    cx.run("crowd", cx.n(600, 20_000), || block_case(any_crowd()), c18_one);
    cx.run("woven", cx.n(3_000, 60_000), || weave_case(any_arch(300, true)), c18_weave);
    cx.run("woven_medium", cx.n(800, 20_000), || weave_case(any_arch(20_000, true)), c18_weave);
}

// ------------------------------------------------------------------------------------------ C19
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StopCase {
    pub a: Any,
    pub at: u16,
    /// 0 stop, else an error of this kind
    pub what: u8,
    pub read_last: u8,
    pub block: u16,
    pub src: Splits,
    pub give_password: bool,
}
fn stop_case(a: BoxedStrategy<Any>) -> BoxedStrategy<StopCase> {
    (a, any::<u16>(), prop_oneof![1 => Just(0u8), 2 => 1u8..9], 0u8..3, any::<u16>(), splits(), any::<bool>())
        .prop_map(|(a, at, what, read_last, block, src, give_password)| StopCase { a, at, what, read_last, block, src, give_password })
        .boxed()
}
fn make_error(what: u8) -> Error {
    match what {
        1 => Error::other("token-other"),
        2 => Error::unsupported("token-unsupported"),
        3 => Error::io(io::Error::new(io::ErrorKind::Other, "token-io")),
        4 => Error::io_msg(io::Error::new(io::ErrorKind::NotFound, "token-io"), "token-message"),
        5 => Error::PasswordRequired,
        6 => Error::ChecksumVerificationFailed,
        7 => Error::io(io::Error::from(io::ErrorKind::UnexpectedEof)),
        _ => Error::io(io::Error::new(io::ErrorKind::Interrupted, "token-intr")),
    }
}
/// The error itself; an I/O error may come marked as possibly due to the password.
fn is_error(what: u8, e: &Error) -> bool {
    if let (Error::Io(w, _), Error::MaybeBadPassword(g)) = (&make_error(what), e) {
        return w.kind() == g.kind() && w.to_string() == g.to_string();
    }
    format!("{:?}", make_error(what)) == format!("{e:?}")
}
fn c19_one(c: &StopCase, o: &Obs) -> Result<(), String> {
    c.a.label(o);
    let (bytes, password) = c.a.build()?;
    let uses_pw = match &c.a {
        Any::G(g) => g.uses_aes(),
        Any::H(h) => h.uses_aes(),
    };
    let password = if uses_pw || c.give_password { password } else { String::new() };
    let pass = utf16(&password);
    // the complete visit
    let mut r = open(bytes.clone(), &c.src, &password).map_err(|e| format!("open: {e}"))?;
    let (all, res) = visit(&mut r, &How::plain());
    res.map_err(|e| format!("iteration: {e}"))?;
    let a = r.archive().clone();
    if all.len() != a.files.len() {
        return Err(format!("{} calls for {} entries", all.len(), a.files.len()));
    }
    let mut x: Vec<String> = all.iter().map(|s| format!("{:?}{}{:?}", s.rec, s.size, s.crc)).collect();
    let mut y: Vec<String> = a.files.iter().map(|e| seen_of(e, vec![])).map(|s| format!("{:?}{}{:?}", s.rec, s.size, s.crc)).collect();
    x.sort();
    y.sort();
    if x != y {
        return Err("the records visited are not those of the archive".into());
    }
    // the same reader once more gives the same
    let (again, res) = visit(&mut r, &How::plain());
    res.map_err(|e| format!("second iteration: {e}"))?;
    if again != all {
        return Err("a second iteration over the same reader differs".into());
    }
    if all.is_empty() {
        return Ok(());
    }
    o.nontrivial(all.len() > 1);
    let k = c.at as usize % all.len();
    o.label(if c.what == 0 { "stop" } else { "error" });
    let run = |seen: &mut Vec<Seen>, e: &SevenZArchiveEntry, rd: &mut dyn Read, k: usize| -> Result<bool, Error> {
        let last = seen.len() == k;
        let d = if last && c.read_last == 0 {
            vec![]
        } else if last && c.read_last == 1 {
            let mut b = vec![0u8; (e.size() / 2) as usize];
            rd.read_exact(&mut b).map_err(Error::io)?;
            b
        } else {
            How::plain().read(rd).map_err(Error::io)?
        };
        seen.push(seen_of(e, d));
        if last {
            if c.what == 0 {
                return Ok(false);
            }
            return Err(make_error(c.what));
        }
        Ok(true)
    };
    let judge = |what: &str, seen: &[Seen], want: &[Seen], res: Result<(), Error>| -> Result<(), String> {
        if seen.len() != want.len() {
            return Err(format!("{what}: {} entries visited, {} expected", seen.len(), want.len()));
        }
        for (i, (s, w)) in seen.iter().zip(want).enumerate() {
            if s.rec != w.rec || (i + 1 < want.len() && s.data != w.data) || !w.data.starts_with(&s.data) {
                return Err(format!("{what}: {i}-th visit is not that of the complete iteration"));
            }
        }
        match (c.what, res) {
            (0, Ok(())) => Ok(()),
            (0, Err(e)) => Err(format!("{what}: stopping is an error: {e}")),
            (_, Ok(())) => Err(format!("{what}: the callback's error is swallowed")),
            (w, Err(e)) if is_error(w, &e) => Ok(()),
            (w, Err(e)) => Err(format!("{what}: callback error {:?} came back as {e:?}", make_error(w))),
        }
    };
    let mut seen = vec![];
    let res = r.for_each_entries(|e, rd| run(&mut seen, e, rd, k));
    judge("archive", &seen, &all[..k + 1], res)?;
    // usable afterwards
    let (v, res) = visit(&mut r, &How::plain());
    res.map_err(|e| format!("iteration after a stop or error: {e}"))?;
    if v != all {
        return Err("iteration after a stop or error differs".into());
    }
    // and through a reader on the parsed archive
    let mut r2 = SevenZReader::from_archive(a.clone(), ShortReader::new(bytes.clone(), c.src.clone()), pw(&password));
    let mut seen = vec![];
    let res = r2.for_each_entries(|e, rd| run(&mut seen, e, rd, k));
    judge("from_archive", &seen, &all[..k + 1], res)?;
    if !a.folders.is_empty() {
        let i = c.block as usize % a.folders.len();
        let mut src = ShortReader::new(bytes.clone(), c.src.clone());
        src.seek(io::SeekFrom::Start(c.at as u64)).unwrap();
        let whole = visit_block(&a, i, &pass, &mut src, &How::plain()).map_err(|e| format!("block {i}: {e}"))?;
        if !whole.is_empty() {
            let k = c.at as usize % whole.len();
            let mut seen = vec![];
            let res = BlockDecoder::new(i, &a, &pass, &mut src).for_each_entries(&mut |e: &SevenZArchiveEntry, rd: &mut dyn Read| run(&mut seen, e, rd, k));
            let res = match res {
                Ok(true) if c.what == 0 => return Err("a stopped block iteration reports completion".into()),
                Ok(_) => Ok(()),
                Err(e) => Err(e),
            };
            judge("block", &seen, &whole[..k + 1], res)?;
        }
    }
    o.evals(4);
    Ok(())
}
pub fn c19(cx: &Ctx) {
    cx.rule("an archive with at least two entries");
    cx.run("small", cx.n(80_000, 400_000), || stop_case(any_arch(300, true)), c19_one);
    cx.run("medium", cx.n(6_000, 30_000), || stop_case(any_arch(15_000, true)), c19_one);
    cx.run("crowd", cx.n(1_500, 40_000), || stop_case(any_crowd()), c19_one);
}

// ------------------------------------------------------------------------------------------ C24
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LostCase {
    pub a: Any,
    pub src: Splits,
    /// None: the whole archive; otherwise the archive is cut so that no complete header is left
    pub cut: Option<u32>,
}
fn c24_one(c: &LostCase, o: &Obs) -> Result<(), String> {
    c.a.label(o);
    let (bytes, password) = c.a.build()?;
    let (a, v) = read_archive(bytes.clone(), &Splits::whole(), &password, &How::plain()).map_err(|e| format!("intact archive: {e}"))?;
    let header_len = u64::from_le_bytes(bytes[20..28].try_into().unwrap());
    if a.files.is_empty() || header_len > 900_000 {
        return Ok(());
    }
    o.nontrivial(true);
    let mut lost = bytes.clone();
    lost[8..32].fill(0);
    match c.cut {
        None => {
            let (a2, v2) = read_archive(lost, &c.src, &password, &How::plain()).map_err(|e| format!("not recovered: {e}"))?;
            if format!("{:?}", a2.files) != format!("{:?}", a.files) {
                return Err(format!("recovered entries differ: {:?}, intact {:?}", a2.files, a.files));
            }
            if v2 != v {
                return Err("recovered contents differ".into());
            }
        }
        Some(n) => {
            o.label("header cut off");
            // at least the terminating byte of the header is lost
            let keep = lost.len() - (1 + n as usize % (lost.len() - 32));
            lost.truncate(keep);
            if let Ok((a2, v2)) = read_archive(lost, &c.src, &password, &How::plain()) {
                // a packed header stored as it is, now at the end, is as good
                if format!("{:?}", a2.files) == format!("{:?}", a.files) && v2 == v {
                    return Ok(());
                }
                return Err("an archive without its end header opens with success".into());
            }
        }
    }
    Ok(())
}
/// Metadata whose bytes look like the start of a header.
fn header_like(a: &mut Any, words: &[u32], names: &[String]) {
    let mut i = 0;
    let mut set = |m: &mut Meta| {
        m.attr = Some(words[i % words.len()]);
        if i < names.len() {
            m.name = names[i].clone();
        }
        i += 1;
    };
    match a {
        Any::G(g) => {
            g.h.encoded = None;
            g.h.gap_before = 0;
            g.h.gap_after = 0;
            for b in &mut g.blocks {
                for e in &mut b.entries {
                    set(&mut e.meta);
                }
            }
            for e in &mut g.empties {
                set(&mut e.meta);
            }
        }
        Any::H(h) => {
            h.ops.insert(0, WOp::EncHeader(false));
            for op in &mut h.ops {
                match op {
                    WOp::EncHeader(b) => *b = false,
                    WOp::Push(e) => set(&mut e.meta),
                    WOp::Batch(v) => v.iter_mut().for_each(|e| set(&mut e.meta)),
                    WOp::Methods(_) => {}
                }
            }
        }
    }
}
fn lookalike(max: u32) -> BoxedStrategy<LostCase> {
    let byte = || prop_oneof![6 => proptest::sample::select(vec![0u8, 1, 2, 3, 4, 5, 6, 0x17, 0x19, 0x0e, 0x11, 0x15]), 1 => any::<u8>()];
    let word = prop_oneof![
        2 => Just(0x01050100u32),
        1 => Just(0x0105_0001),
        1 => Just(0x01_0000),
        1 => Just(0x17_0000),
        4 => [byte(), byte(), byte(), byte()].prop_map(u32::from_le_bytes),
    ];
    let pair = || [byte(), byte()].prop_map(|p| u16::from_le_bytes(p).max(1));
    let name = prop_oneof![
        1 => Just("\u{501}\u{1901}\u{3}".to_string()),
        1 => Just("\u{101}\u{501}\u{1901}\u{3}".to_string()),
        3 => proptest::collection::vec(pair(), 1..8).prop_map(|v| String::from_utf16_lossy(&v)),
    ];
    (any_arch(max, true), splits(), proptest::collection::vec(word, 1..6), proptest::collection::vec(name, 0..4))
        .prop_map(|(mut a, src, words, names)| {
            header_like(&mut a, &words, &names);
            LostCase { a, src, cut: None }
        })
        .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NoiseCase {
    pub data: Data,
    pub src: Splits,
}
/// A blank start header before data that holds no header.
fn noise_one(c: &NoiseCase, o: &Obs) -> Result<(), String> {
    let data = c.data.bytes();
    let mut b = z7::start_header(4, 0, 0, 0).to_vec();
    b[8..32].fill(0);
    b.extend_from_slice(&data);
    // a header starts with one of two pairs of bytes and ends in a zero
    let possible = data.last() == Some(&0) && data.windows(2).any(|w| matches!(w, [1, 0] | [1, 2] | [1, 4] | [1, 5] | [0x17, 6]));
    o.nontrivial(!data.is_empty());
    o.label_if(possible, "bytes a header might start with");
    match open(b, &c.src, "") {
        Ok(r) if !possible => Err(format!("opens with success: {:?}", r.archive().files)),
        _ => Ok(()),
    }
}
pub fn c24(cx: &Ctx) {
    cx.rule("the archive has entries, so that there is a header to be found");
    cx.assume("the end header lies in the last 900,000 bytes (the library searches 1 MiB)");
    let case = |max: u32| {
        (any_arch(max, true), splits(), prop_oneof![5 => Just(None), 1 => (0u32..40).prop_map(Some), 1 => any::<u32>().prop_map(Some)])
            .prop_map(|(a, src, cut)| LostCase { a, src, cut })
    };
    cx.run("small", cx.n(80_000, 600_000), move || case(300), c24_one);
    cx.run("lookalike", cx.n(60_000, 300_000), || lookalike(200), c24_one);
    cx.run("noise", cx.n(10_000, 100_000), || (data(3_000), splits()).prop_map(|(data, src)| NoiseCase { data, src }), noise_one);
    cx.run("medium", cx.n(2_000, 40_000), move || case(20_000), c24_one);
    cx.run("large", cx.n(40, 1_000), move || case(700_000), c24_one);
}
