//! Further checks on the archive writer: recorded dictionary sizes (C05), determinism (C17), faults (C22), failed
//! pushes (C23), reported sizes (C25).
use crate::arc::*;
use crate::codec::{encode_lzma, encode_lzma2, enc_case, lzma_case, EncCase, LzmaCase};
use crate::fw::{measure_peak, Ctx, Obs};
use crate::liblzma as ll;
use crate::reading::{label_arch, read_case, ReadCase};
use crate::util::Rng;
use crate::util::*;
use crate::writing::*;
use crate::z7::{self, Expect};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sevenz_rust::lzma::{CountingWriter, LZMA2Reader, LZMA2Writer, LZMAReader, LZMAWriter};
use sevenz_rust::{Aes256Sha256Encoder, AesEncoderOptions, SeqReader, SevenZReader, SevenZWriter, SourceReader};
use std::cell::{Cell, RefCell};
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

// ------------------------------------------------------------------------------------------ C05, archive part
pub fn c05_archive(cx: &Ctx) {
    // contents longer than the dictionary, with repeats at every distance around the dictionary size
    let far = || {
        (prop_oneof![2 => 4096u32..70_000, 2 => (12u32..17, 0u32..3).prop_map(|(s, d)| (1 << s) + d)], 0i32..40, 0u64..1 << 32, 1u32..4, any::<bool>()).prop_map(
            |(dict, d, seed, n, num)| {
                let mut v = vec![Seg::Rand(seed, dict + 3000)];
                for i in 0..n {
                    v.push(Seg::Copy((dict as i32 + d - 20 - i as i32) as u32, 700));
                    v.push(Seg::Rand(seed + i as u64, 30));
                }
                let m = if num {
                    WM::Lzma2Num(dict)
                } else {
                    let mut o = crate::codec::Opts::preset(6);
                    o.dict = dict;
                    if seed % 2 == 0 { WM::Lzma2(Some(o)) } else { WM::Lzma(Some(o)) }
                };
                Hist {
                    ops: vec![WOp::Methods(vec![m]), WOp::Push(plain_entry(Data(v)))],
                    password: "p".into(),
                }
            },
        )
    };
    let one = |h: &Hist, o: &Obs| {
        h.label(o);
        o.nontrivial(h.entries().iter().any(|e| matches!(&e.kind, Kind::File(d) if d.bytes().len() > 1)));
        let (bytes, _) = h.write(MemFile::new(), true)?;
        check_format(&bytes, &h.password, &h.want(), false).map(|_| ())
    };
    cx.run("archive", cx.n(800, 30_000), || hist(20_000, 5, true), one);
    cx.run("archive-dictionary", cx.n(600, 20_000), || far().boxed(), one);
}
pub fn plain_entry(d: Data) -> WEntry {
    WEntry {
        meta: z7::Meta { name: "f".into(), c: None, a: None, m: None, attr: None },
        kind: Kind::File(d),
        anti: false,
        stale: false,
        reads: Splits::whole(),
        fail: None,
    }
}

// ------------------------------------------------------------------------------------------ C17
fn c17_archive(c: &(Hist, Splits), o: &Obs) -> Result<(), String> {
    let (h, sink) = c;
    h.label(o);
    let (a, _) = h.write(MemFile::new(), false)?;
    let (b, _) = h.write(MemFile::new(), false)?;
    same("archive written again", &b, &a)?;
    let (b, _) = h.write(MemFile::new(), true)?;
    same("archive with content split over reads", &b, &a)?;
    let (b, _) = h.write(MemFile::short(sink.clone()), false)?;
    same("archive written to a sink with short writes", &b, &a)?;
    let (b, _) = h.write(MemFile::short(sink.clone()), true)?;
    same("archive with split content and short writes", &b, &a)?;
    o.evals(4);
    Ok(())
}
fn c17_lzma2(c: &EncCase, o: &Obs) -> Result<(), String> {
    let (d, p) = c.bytes();
    o.nontrivial(d.len() > 1 && (c.writes.at1(0) < d.len() || c.sink.is_some()));
    let plain = EncCase { writes: Splits::whole(), sink: None, flush: vec![], ..c.clone() };
    let a = encode_lzma2(&plain, &d, p.clone())?;
    let b = encode_lzma2(&EncCase { flush: vec![], ..c.clone() }, &d, p.clone())?;
    same("LZMA2 stream from split writes", &b, &a)?;
    // flushes are part of the history: the same ones give the same bytes
    let x = encode_lzma2(c, &d, p.clone())?;
    let y = encode_lzma2(&EncCase { sink: None, ..c.clone() }, &d, p)?;
    same("LZMA2 stream with the same flushes", &y, &x)
}
fn c17_lzma(c: &LzmaCase, o: &Obs) -> Result<(), String> {
    let (d, p) = c.enc.bytes();
    o.nontrivial(d.len() > 1 && (c.enc.writes.at1(0) < d.len() || c.enc.sink.is_some()));
    let plain = LzmaCase { enc: EncCase { writes: Splits::whole(), sink: None, flush: vec![], ..c.enc.clone() }, form: c.form.clone() };
    let a = encode_lzma(&plain, &d, p.clone())?;
    let b = encode_lzma(&LzmaCase { enc: EncCase { flush: vec![], ..c.enc.clone() }, form: c.form.clone() }, &d, p.clone())?;
    same("LZMA stream from split writes", &b, &a)?;
    let x = encode_lzma(c, &d, p.clone())?;
    let y = encode_lzma(&LzmaCase { enc: EncCase { sink: None, ..c.enc.clone() }, form: c.form.clone() }, &d, p)?;
    same("LZMA stream with the same flushes", &y, &x)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AesCase {
    pub power: u8,
    pub salt: [u8; 16],
    pub iv: [u8; 16],
    pub password: String,
    pub data: Data,
    pub writes: Splits,
    pub flush: Vec<bool>,
    pub sink: Option<Splits>,
    pub reads: Splits,
    pub src: Splits,
}
pub fn aes_case(max: u32) -> BoxedStrategy<AesCase> {
    (
        (prop_oneof![8 => 0u8..8, 1 => Just(0x3fu8)], any::<[u8; 16]>(), any::<[u8; 16]>(), z7::password()),
        data(max),
        splits(),
        prop_oneof![2 => Just(vec![]), 1 => pvec(any::<bool>(), 1..6)],
        prop_oneof![1 => Just(None), 1 => splits().prop_map(Some)],
        splits(),
        splits(),
    )
        .prop_map(|((power, salt, iv, password), data, writes, flush, sink, reads, src)| AesCase {
            power,
            salt,
            iv,
            password,
            data,
            writes,
            flush,
            sink,
            reads,
            src,
        })
        .boxed()
}
impl AesCase {
    pub fn encode(&self, data: &[u8], split: bool) -> Result<Vec<u8>, String> {
        let mut a = AesEncoderOptions::new(pw(&self.password));
        a.num_cycles_power = self.power;
        a.salt = self.salt;
        a.iv = self.iv;
        let mut sink = MemFile { splits: if split { self.sink.clone() } else { None }, ..Default::default() };
        {
            let mut w = Aes256Sha256Encoder::new(CountingWriter::new(&mut sink), &a).map_err(|e| format!("AES encoder: {e}"))?;
            let whole = Splits::whole();
            crate::codec::feed(&mut w, data, if split { &self.writes } else { &whole }, if split { &self.flush } else { &[] })?;
            w.write(&[]).map_err(|e| format!("finishing: {e}"))?;
        }
        Ok(sink.data)
    }
}
fn c17_aes(c: &AesCase, o: &Obs) -> Result<(), String> {
    let d = c.data.bytes();
    o.nontrivial(d.len() > 16);
    same("AES stream from split writes", &c.encode(&d, true)?, &c.encode(&d, false)?)
}
pub fn c17(cx: &Ctx) {
    cx.rule("at least two entries, one of them with content (archives); content split or short writes (codecs)");
    cx.assume("AES salt and IV are part of the options (they are random only when the options are made)");
    cx.run("archive", cx.n(2_000, 60_000), || (hist(3_000, 8, true), splits()).boxed(), c17_archive);
    cx.run("archive-large", cx.n(60, 3_000), || (hist(200_000, 4, true), splits()).boxed(), c17_archive);
    cx.run("lzma2", cx.n(3_000, 80_000), || enc_case(false, 30_000, 16), c17_lzma2);
    cx.run("lzma2-large", cx.n(40, 2_000), || enc_case(false, 1_500_000, 18), c17_lzma2);
    cx.run("lzma", cx.n(3_000, 80_000), || lzma_case(30_000), c17_lzma);
    cx.run("lzma-large", cx.n(40, 2_000), || lzma_case(1_500_000), c17_lzma);
    cx.run("aes", cx.n(4_000, 100_000), || aes_case(3_000), c17_aes);
}

// ------------------------------------------------------------------------------------------ C23
fn with_failures(max: u32, ops: usize) -> BoxedStrategy<Hist> {
    let fail = || prop_oneof![2 => Just(None), 1 => (0u16..3).prop_map(Some), 1 => (0u16..40).prop_map(Some)];
    let bad = prop_oneof![
        5 => methods(true),
        1 => (0u8..3).prop_map(|b| vec![WM::Bad(b)]),
        1 => (methods(true), 0u8..3).prop_map(|(mut m, b)| { m.push(WM::Bad(b)); m }),
        1 => (methods(true), 0u8..3).prop_map(|(mut m, b)| { m.insert(0, WM::Bad(b)); m }),
    ];
    (
        methods(true),
        pvec(
            (
                prop_oneof![3 => w_op(max, true), 1 => bad.prop_map(WOp::Methods)],
                pvec(fail(), 6),
            ),
            1..ops,
        ),
        methods(true),
        w_op(max, true),
        z7::password(),
    )
        .prop_map(|(m0, v, m1, last, password)| {
            let mut ops = vec![WOp::Methods(m0)];
            for (mut op, f) in v {
                match &mut op {
                    WOp::Push(e) => e.fail = f[0],
                    WOp::Batch(v) => v.iter_mut().zip(&f).for_each(|(e, f)| e.fail = *f),
                    _ => {}
                }
                ops.push(op);
            }
            ops.push(WOp::Methods(m1));
            ops.push(last);
            Hist { ops, password }
        })
        .boxed()
}
fn succeeded(p: &[Pushed]) -> Vec<Expect> {
    p.iter().filter(|p| p.err.is_none()).flat_map(|p| p.want.iter().cloned()).collect()
}
fn c23_one(c: &(Hist, Splits), o: &Obs) -> Result<(), String> {
    let (h, reads) = c;
    let mut z = SevenZWriter::new(MemFile::new()).map_err(|e| format!("writer: {e}"))?;
    let p = run_ops(h, &mut z, true, false);
    // nothing fails that has no reason to
    let mut bad = false;
    let mut k = 0;
    for op in &h.ops {
        match op {
            WOp::Methods(m) => bad = m.iter().any(|m| matches!(m, WM::Bad(_))),
            WOp::EncHeader(_) => {}
            WOp::Push(e) => {
                if let Some(x) = &p[k].err {
                    if !bad && e.fail.is_none() {
                        return Err(format!("push {k} failed without reason: {x}"));
                    }
                }
                k += 1;
            }
            WOp::Batch(v) => {
                if let Some(x) = &p[k].err {
                    if !bad && v.iter().all(|e| e.fail.is_none()) {
                        return Err(format!("batch {k} failed without reason: {x}"));
                    }
                }
                k += 1;
            }
        }
    }
    let failed = p.iter().filter(|p| p.err.is_some()).count();
    let first = p.iter().position(|p| p.err.is_some()).unwrap_or(p.len());
    o.nontrivial(failed > 0 && p[first..].iter().any(|p| p.err.is_none()));
    o.label_if(failed > 1, "several failed pushes");
    o.label_if(p.iter().any(|p| p.err.is_some() && p.want.len() > 1), "failed batch");
    let want = succeeded(&p);
    let f = z.finish().map_err(|e| format!("finish failed: {e}"))?;
    read_back(f.data.clone(), &h.password, &want, &How::with(reads))?;
    check_format(&f.data, &h.password, &want, true).map(|_| ())
}
pub fn c23(cx: &Ctx) {
    cx.rule("a failed push, followed by one that succeeds");
    cx.assume("failures of content readers and rejected methods; failing sinks are C22's");
    cx.run("small", cx.n(12_000, 120_000), || (with_failures(300, 10), splits()).boxed(), c23_one);
    cx.run("medium", cx.n(1_800, 20_000), || (with_failures(30_000, 8), splits()).boxed(), c23_one);
    cx.run("large", cx.n(40, 2_000), || (with_failures(400_000, 5), splits()).boxed(), c23_one);
}

// ------------------------------------------------------------------------------------------ C22
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    /// every call from here on fails
    Dead,
    /// this call fails, later ones work
    Once,
    /// as Once, with the kind that callers are expected to retry
    Interrupted,
    /// from here on: nothing more to read / nothing accepted
    Zero,
    /// one write accepts nothing (writing only)
    ZeroOnce,
}
/// Counts the calls made to a stream and makes one of them fail.
#[derive(Default)]
pub struct Plan {
    pub calls: Cell<u64>,
    pub at: Cell<Option<(u64, Fault)>>,
    pub hit: Cell<bool>,
}
impl Plan {
    /// None: go on normally; Some(Ok(())): transfer nothing; Some(Err): fail
    fn step(&self) -> Option<io::Result<()>> {
        let k = self.calls.get();
        self.calls.set(k + 1);
        let (at, f) = self.at.get()?;
        if k < at {
            return None;
        }
        let err = |kind: ErrorKind| Some(Err(io::Error::new(kind, "injected")));
        let r = match f {
            Fault::Dead => err(error_kind(at)),
            Fault::Zero => Some(Ok(())),
            _ if k > at => None,
            Fault::Once => err(error_kind(at)),
            Fault::Interrupted => err(ErrorKind::Interrupted),
            Fault::ZeroOnce => Some(Ok(())),
        };
        if r.is_some() {
            self.hit.set(true);
        }
        r
    }
}
pub struct FaultSink {
    pub file: Rc<RefCell<MemFile>>,
    pub plan: Rc<Plan>,
}
impl Write for FaultSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match self.plan.step() {
            None => self.file.borrow_mut().write(b),
            Some(Ok(())) => Ok(0),
            Some(Err(e)) => Err(e),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        match self.plan.step() {
            Some(Err(e)) => Err(e),
            _ => Ok(()),
        }
    }
}
impl Seek for FaultSink {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        match self.plan.step() {
            Some(Err(e)) => Err(e),
            _ => self.file.borrow_mut().seek(s),
        }
    }
}
pub struct FaultSource {
    pub r: ShortReader,
    pub plan: Rc<Plan>,
}
impl Read for FaultSource {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        match self.plan.step() {
            None => self.r.read(b),
            Some(Ok(())) => Ok(0),
            Some(Err(e)) => Err(e),
        }
    }
}
impl Seek for FaultSource {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        match self.plan.step() {
            Some(Err(e)) => Err(e),
            _ => self.r.seek(s),
        }
    }
}
/// The calls that are made to fail: all of them if there are not too many.
fn positions(n: u64, cap: u64, seed: u64) -> Vec<u64> {
    if n <= cap {
        return (0..n).collect();
    }
    let mut r = Rng::new(seed);
    let mut v: Vec<u64> = (0..cap / 4).chain(n - cap / 4..n).collect();
    for _ in 0..cap / 2 {
        v.push(r.below(n));
    }
    v.sort();
    v.dedup();
    v
}
fn c22_write(c: &(Hist, u64), o: &Obs, cap: u64) -> Result<(), String> {
    let (h, seed) = c;
    h.label(o);
    let run = |at: Option<(u64, Fault)>| -> Result<(Option<Vec<u8>>, Vec<Pushed>, u64), String> {
        let plan = Rc::new(Plan::default());
        plan.at.set(at);
        let file = Rc::new(RefCell::new(MemFile::new()));
        let mut z = match SevenZWriter::new(FaultSink { file: file.clone(), plan: plan.clone() }) {
            Ok(z) => z,
            Err(e) => return if at.is_some() { Ok((None, vec![], 0)) } else { Err(format!("writer: {e}")) },
        };
        let p = run_ops(h, &mut z, true, false);
        let ok = z.finish();
        if let (None, Err(e)) = (at, &ok) {
            return Err(format!("finish failed: {e}"));
        }
        let ok = ok.is_ok();
        let data = file.borrow().data.clone();
        Ok((if ok { Some(data) } else { None }, p, plan.calls.get()))
    };
    let (whole, p, n) = run(None)?;
    if let Some(e) = p.iter().find_map(|p| p.err.as_ref()) {
        return Err(format!("push failed: {e}"));
    }
    let whole = whole.unwrap();
    let mut runs = 0;
    for f in [Fault::Dead, Fault::Once, Fault::Interrupted, Fault::Zero, Fault::ZeroOnce] {
        for k in positions(n, cap, *seed) {
            runs += 1;
            let ctx = |e: String| format!("{f:?} at call {k} of {n}: {e}");
            let (got, p, _) = run(Some((k, f))).map_err(ctx)?;
            let Some(got) = got else { continue };
            if p.iter().all(|p| p.err.is_none()) {
                // nobody reported anything, so nothing may differ
                same("archive", &got, &whole).map_err(ctx)?;
            } else {
                // complete with what was pushed successfully
                let want = succeeded(&p);
                read_back(got.clone(), &h.password, &want, &How::plain()).map_err(ctx)?;
                check_format(&got, &h.password, &want, true).map_err(ctx)?;
            }
        }
    }
    o.evals(runs);
    Ok(())
}
/// As `std::io::copy` does: interrupted reads are tried again, any other error ends it.
pub fn patient(r: &mut dyn Read, reads: &Splits) -> io::Result<Vec<u8>> {
    let mut out = vec![];
    let mut buf = vec![0u8; 1 << 16];
    let mut interrupted = 0;
    let mut i = 0;
    loop {
        let want = reads.at1(i).min(buf.len());
        i += 1;
        match r.read(&mut buf[..want]) {
            Ok(0) => return Ok(out),
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(e) if e.kind() == ErrorKind::Interrupted => {
                interrupted += 1;
                if interrupted > 100 {
                    return Err(io::Error::new(ErrorKind::Other, "HARNESS: interrupted for ever"));
                }
            }
            Err(e) => return Err(e),
        }
        if out.len() > 1 << 28 {
            return Err(io::Error::new(ErrorKind::Other, "HARNESS: too much data"));
        }
    }
}
fn c22_read(c: &(ReadCase, u64), o: &Obs, cap: u64) -> Result<(), String> {
    let (c, seed) = c;
    label_arch(&c.g, o);
    let (spec, want) = c.g.spec();
    let b = spec.build();
    let run = |at: Option<(u64, Fault)>| -> (Vec<(String, Vec<u8>)>, Option<String>, u64, bool) {
        let plan = Rc::new(Plan::default());
        plan.at.set(at);
        let src = FaultSource { r: ShortReader::new(b.bytes.clone(), c.src.clone()), plan: plan.clone() };
        let mut v = vec![];
        let res = match SevenZReader::new(src, b.bytes.len() as u64, pw(&c.g.password)) {
            Err(e) => Err(format!("open: {e}")),
            Ok(mut r) => r
                .for_each_entries(|e, rd| {
                    let d = patient(rd, &c.reads)?;
                    v.push((e.name().to_string(), d));
                    Ok(true)
                })
                .map_err(|e| format!("read: {e}")),
        };
        (v, res.err(), plan.calls.get(), plan.hit.get())
    };
    let (v0, e, n, _) = run(None);
    if let Some(e) = e {
        return Err(format!("valid archive rejected: {e}"));
    }
    if v0.len() != want.len() {
        return Err(format!("{} of {} entries visited", v0.len(), want.len()));
    }
    let mut runs = 0;
    for f in [Fault::Dead, Fault::Once, Fault::Interrupted, Fault::Zero] {
        for k in positions(n, cap, *seed) {
            runs += 1;
            let (v, e, _, hit) = run(Some((k, f)));
            let ctx = |x: &str| format!("{f:?} at call {k} of {n}: {x}");
            if let Some(e) = &e {
                if e.contains("HARNESS") {
                    return Err(ctx(e));
                }
                if !hit {
                    return Err(ctx(&format!("error without a fault: {e}")));
                }
            } else if v.len() != v0.len() {
                return Err(ctx(&format!("success with {} of {} entries", v.len(), v0.len())));
            }
            // what was delivered to its end is right
            for (g, w) in v.iter().zip(&v0) {
                if g.0 != w.0 {
                    return Err(ctx(&format!("entry {:?} instead of {:?}", g.0, w.0)));
                }
                same(&format!("content of {:?}", w.0), &g.1, &w.1).map_err(|e| ctx(&e))?;
            }
        }
    }
    o.evals(runs);
    Ok(())
}
fn fault_hist(max: u32, ops: usize) -> BoxedStrategy<Hist> {
    (methods(true), hist(max, ops, true))
        .prop_map(|(m, mut h)| {
            if !matches!(h.ops.first(), Some(WOp::Methods(_))) {
                h.ops.insert(0, WOp::Methods(m));
            }
            h
        })
        .boxed()
}
/// Content readers that fail with a retryable kind, or end early and go on.
fn c22_content(c: &(Hist, u64), o: &Obs) -> Result<(), String> {
    let (h, seed) = c;
    h.label(o);
    // one failing content reader, everywhere
    let whole = h.write(MemFile::new(), true)?.0;
    let mut r = Rng::new(*seed);
    let n = h.entries().len();
    let mut runs = 0;
    for i in 0..n {
        for k in [0u16, 1, 2, r.below(12) as u16, r.below(200) as u16] {
            runs += 1;
            let mut h2 = h.clone();
            let mut at = 0;
            for op in &mut h2.ops {
                match op {
                    WOp::Push(e) => {
                        if at == i {
                            e.fail = Some(k)
                        }
                        at += 1;
                    }
                    WOp::Batch(v) => {
                        for e in v {
                            if at == i {
                                e.fail = Some(k)
                            }
                            at += 1;
                        }
                    }
                    _ => {}
                }
            }
            let mut z = SevenZWriter::new(MemFile::new()).map_err(|e| format!("writer: {e}"))?;
            let p = run_ops(&h2, &mut z, true, false);
            let f = z.finish().map_err(|e| format!("finish failed: {e}"))?;
            if p.iter().all(|p| p.err.is_none()) {
                same(&format!("archive with reader {i} failing at call {k} unnoticed"), &f.data, &whole)?;
            } else {
                read_back(f.data, &h.password, &succeeded(&p), &How::plain()).map_err(|e| format!("reader {i} failing at call {k}: {e}"))?;
            }
        }
    }
    o.evals(runs);
    Ok(())
}
pub fn c22(cx: &Ctx) {
    cx.level("fault_enumeration");
    cx.rule("an archive with at least two entries; every I/O call (up to a cap, then a sample of them) fails in turn, in each of the listed ways");
    cx.assume("fault kinds: persistent error, transient error, interrupted, end of file / zero-length write (persistent and once); sinks keep what they accepted");
    cx.run("write", cx.n(250, 6_000), || (fault_hist(300, 5), any::<u64>()).boxed(), |c, o| c22_write(c, o, 60));
    cx.run("write-large", cx.n(24, 600), || (fault_hist(40_000, 3), any::<u64>()).boxed(), |c, o| c22_write(c, o, 60));
    cx.run("read", cx.n(5_000, 100_000), || (read_case(300, true), any::<u64>()).boxed(), |c, o| c22_read(c, o, 120));
    cx.run("read-large", cx.n(200, 6_000), || (read_case(40_000, true), any::<u64>()).boxed(), |c, o| c22_read(c, o, 120));
    cx.run("content", cx.n(200, 5_000), || (fault_hist(2_000, 6), any::<u64>()).boxed(), c22_content);
    crate::trees::c22_files(cx);
}

// ------------------------------------------------------------------------------------------ C25
fn c25_push(h: &Hist, o: &Obs) -> Result<(), String> {
    h.label(o);
    let (bytes, p) = h.write(MemFile::new(), true)?;
    let pa = check_format(&bytes, &h.password, &h.want(), false)?;
    let r = open(bytes.clone(), &Splits::whole(), &h.password).map_err(|e| format!("does not open: {e}"))?;
    let a = r.archive();
    let mut pack = 0;
    let mut at = 0;
    let mut file = 0;
    for p in &p {
        let own_block = match &p.ret {
            Some(ret) => {
                if ret.size() != p.want[0].data.len() as u64 {
                    return Err(format!("push reports size {} of {}", ret.size(), p.want[0].data.len()));
                }
                ret.has_stream()
            }
            None => true,
        };
        if own_block {
            let (off, size, crc) = pa.s.packs[pack];
            if off != 32 + at {
                return Err(format!("pack stream {pack} at {off}, expected {}", 32 + at));
            }
            at += size;
            if let Some(ret) = &p.ret {
                let d = &bytes[off as usize..(off + size) as usize];
                if ret.compressed_size != size {
                    return Err(format!("push reports compressed size {}, the stream has {size}", ret.compressed_size));
                }
                if ret.compressed_crc != crc32(d) as u64 {
                    return Err(format!("push reports compressed checksum {:#x}, the stream has {:#x}", ret.compressed_crc, crc32(d)));
                }
                if ret.has_crc && ret.crc != crc32(&p.want[0].data) as u64 {
                    return Err("push reports a wrong content checksum".into());
                }
                let _ = crc;
                let e = &a.files[file];
                if e.compressed_size != size {
                    return Err(format!("reader reports compressed size {} of {size}", e.compressed_size));
                }
            }
            pack += 1;
        } else if let Some(ret) = &p.ret {
            if ret.compressed_size != 0 {
                return Err("entry without content reports a compressed size".into());
            }
        }
        file += p.want.len();
    }
    if pack != pa.s.packs.len() {
        return Err(format!("{} pack streams, {pack} pushes with content", pa.s.packs.len()));
    }
    Ok(())
}
/// One step of a consumer.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SeqCase {
    pub parts: Vec<(Data, Splits)>,
    pub reads: Vec<u16>,
    /// stop after so many reads (None: read to the end)
    pub stop: Option<u8>,
}
fn c25_seq(c: &SeqCase, o: &Obs) -> Result<(), String> {
    let parts: Vec<Vec<u8>> = c.parts.iter().map(|p| p.0.bytes()).collect();
    let all: Vec<u8> = parts.concat();
    o.nontrivial(parts.len() > 1 && !all.is_empty());
    o.label_if(c.reads.contains(&0), "empty reads");
    o.label_if(parts.iter().any(|p| p.is_empty()), "empty part");
    let readers: Vec<SourceReader<ShortReader>> =
        c.parts.iter().zip(&parts).map(|((_, s), d)| SourceReader::new(ShortReader::new(d.clone(), s.clone()))).collect();
    let mut s = SeqReader::new(readers);
    if s.reader_len() != parts.len() {
        return Err("reader_len".into());
    }
    let mut got = vec![];
    let mut buf = vec![0u8; 1 << 16];
    let mut i = 0usize;
    let mut ended = false;
    let check = |s: &SeqReader<SourceReader<ShortReader>>, got: &[u8]| -> Result<(), String> {
        let mut at = 0;
        for (j, p) in parts.iter().enumerate() {
            let n = p.len().min(got.len() - at.min(got.len()));
            let n = if at >= got.len() { 0 } else { n };
            if s[j].read_count() != n {
                return Err(format!("reader {j} counts {} of {n} bytes", s[j].read_count()));
            }
            if s[j].crc_value() != crc32(&p[..n]) {
                return Err(format!("reader {j}: checksum {:#x} of {n} bytes, expected {:#x}", s[j].crc_value(), crc32(&p[..n])));
            }
            at += p.len();
        }
        Ok(())
    };
    loop {
        if c.stop.map(|n| n as usize <= i).unwrap_or(false) {
            break;
        }
        let want = if c.reads.is_empty() { buf.len() } else { c.reads[i % c.reads.len()] as usize };
        let want = if i > 5000 { buf.len() } else { want };
        i += 1;
        let n = s.read(&mut buf[..want]).map_err(|e| format!("read: {e}"))?;
        got.extend_from_slice(&buf[..n]);
        if n == 0 && want > 0 {
            ended = true;
            break;
        }
        if i < 20 {
            if got != all[..got.len().min(all.len())] {
                return Err("wrong bytes".into());
            }
            check(&s, &got)?;
        }
        if c.reads.iter().all(|r| *r == 0) && !c.reads.is_empty() && i > 5 {
            break;
        }
    }
    if ended {
        same("concatenation", &got, &all)?;
        for _ in 0..2 {
            if s.read(&mut buf).map_err(|e| format!("read: {e}"))? != 0 {
                return Err("bytes after the end".into());
            }
        }
    }
    same("what was read", &got, &all[..got.len().min(all.len())])?;
    check(&s, &got)
}
fn c25_counting(c: &(Data, Splits, Option<Splits>), o: &Obs) -> Result<(), String> {
    let d = c.0.bytes();
    o.nontrivial(d.len() > 1);
    let mut w = CountingWriter::new(MemFile { splits: c.2.clone(), ..Default::default() });
    let shared = w.counting();
    let mut at = 0;
    let mut i = 0;
    while at < d.len() {
        let n = c.1.at1(i).min(d.len() - at);
        let k = w.write(&d[at..at + n]).map_err(|e| format!("write: {e}"))?;
        at += k;
        i += 1;
        if w.writed_bytes() != at || shared.get() != at {
            return Err(format!("counted {} / {} of {at} bytes", w.writed_bytes(), shared.get()));
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MemCase {
    pub dict: u32,
    pub lc: u32,
    pub lp: u32,
    pub pb: u32,
    pub data: Data,
}
fn mem_case() -> BoxedStrategy<MemCase> {
    (
        prop_oneof![
            2 => 0u32..20_000,
            2 => (0u32..26, -20i64..20).prop_map(|(s, d)| ((1i64 << s) + d).max(0) as u32),
            1 => 0u32..(100 << 20),
        ],
        0u32..9,
        0u32..5,
        0u32..5,
        data(20_000),
    )
        .prop_map(|(dict, lc, lp, pb, data)| MemCase { dict, lc, lp, pb, data })
        .boxed()
}
fn c25_memory(c: &MemCase, o: &Obs) -> Result<(), String> {
    use sevenz_rust::lzma::{lzma2_get_memery_usage, lzma_get_memery_usage, lzma_get_memery_usage_by_props};
    let d = c.data.bytes();
    o.nontrivial(c.dict > 4096 && !d.is_empty());
    let props = (c.pb * 5 + c.lp) * 9 + c.lc;
    let est = lzma_get_memery_usage(c.dict, c.lc, c.lp).map_err(|e| format!("estimate: {e}"))? as u64 * 1024;
    let est2 = lzma_get_memery_usage_by_props(c.dict, props as u8).map_err(|e| format!("estimate: {e}"))? as u64 * 1024;
    if est != est2 {
        return Err(format!("the two LZMA estimates differ: {est} / {est2}"));
    }
    let mut opt = ll::preset(1);
    opt.dict_size = 4096;
    opt.lc = c.lc.min(4);
    opt.lp = c.lp.min(4 - opt.lc);
    opt.pb = c.pb;
    // LZMA: what is decoded does not matter for the memory, but it has to be decodable
    let mut stream = crate::reflzma::TokEnc::new(crate::reflzma::Props { lc: c.lc, lp: c.lp, pb: c.pb }, 4096);
    for b in &d {
        stream.tok(&crate::reflzma::Tok::Lit(*b), 1);
    }
    let (enc, plain) = stream.finish();
    let mut buf = vec![0u8; 5000];
    let (r, peak) = measure_peak(|| -> io::Result<u64> {
        let mut r = LZMAReader::new_with_props(&enc[..], plain.len() as u64, props as u8, c.dict, None)?;
        let mut n = 0;
        loop {
            let k = r.read(&mut buf)?;
            if k == 0 {
                return Ok(n);
            }
            n += k as u64;
        }
    });
    match r {
        Ok(n) if n == plain.len() as u64 => {}
        Ok(n) => return Err(format!("decoded {n} of {} bytes", plain.len())),
        Err(e) => return Err(format!("decoding: {e}")),
    }
    if peak > est {
        return Err(format!("decoding LZMA takes {peak} bytes, estimated {est}"));
    }
    // with a limit of exactly the estimate it decodes, with less it is refused
    let mut alone = vec![props as u8];
    alone.extend_from_slice(&c.dict.to_le_bytes());
    alone.extend_from_slice(&(plain.len() as u64).to_le_bytes());
    alone.extend_from_slice(&enc);
    let ((), peak) = {
        let (r, p) = measure_peak(|| -> Result<(), String> {
            let mut r = LZMAReader::new_mem_limit(&alone[..], (est / 1024) as u32, None).map_err(|e| format!("refused with its own estimate as limit: {e}"))?;
            while r.read(&mut buf).map_err(|e| format!("decoding: {e}"))? > 0 {}
            Ok(())
        });
        (r?, p)
    };
    if peak > est {
        return Err(format!("decoding LZMA with a limit of {est} takes {peak} bytes"));
    }
    if est > 1024 && LZMAReader::new_mem_limit(&alone[..], (est / 1024) as u32 - 1, None).is_ok() {
        return Err("a stream needing more than the limit was accepted".into());
    }
    // LZMA2
    let est = lzma2_get_memery_usage(c.dict) as u64 * 1024;
    opt.dict_size = 4096;
    let enc = ll::raw_encode(&[ll::F::Lzma2(opt)], &[(&d, None)]).map_err(|e| format!("liblzma: {e}"))?;
    let (r, peak) = measure_peak(|| -> io::Result<u64> {
        let mut r = LZMA2Reader::new(&enc[..], c.dict.max(4096), None);
        let mut n = 0;
        loop {
            let k = r.read(&mut buf)?;
            if k == 0 {
                return Ok(n);
            }
            n += k as u64;
        }
    });
    match r {
        Ok(n) if n == d.len() as u64 => {}
        Ok(n) => return Err(format!("decoded {n} of {} bytes", d.len())),
        Err(e) => return Err(format!("decoding: {e}")),
    }
    let est = est.max(lzma2_get_memery_usage(c.dict.max(4096)) as u64 * 1024);
    if peak > est {
        return Err(format!("decoding LZMA2 takes {peak} bytes, estimated {est}"));
    }
    Ok(())
}
/// The encoders' estimate: enough for what they take, and of its size.
fn c25_encoder_memory(c: &(crate::codec::Opts, Data), o: &Obs) -> Result<(), String> {
    let (opts, d) = (&c.0, c.1.bytes());
    o.nontrivial(opts.dict > 4096 && !d.is_empty());
    let opt = opts.lzma2(None);
    let est = crate::fw::no_panic(|| opt.get_memery_usage())? as u64 * 1024;
    for (what, lzma2) in [("LZMA", false), ("LZMA2", true)] {
        let (r, peak) = measure_peak(|| -> io::Result<()> {
            let out = CountingWriter::new(io::sink());
            if lzma2 {
                let mut w = LZMA2Writer::new(out, &opt);
                w.write_all(&d)?;
                w.finish().map(|_| ())
            } else {
                let mut w = LZMAWriter::new_no_header(out, &opt, true)?;
                w.write_all(&d)?;
                w.finish().map(|_| ())
            }
        });
        r.map_err(|e| format!("encoding {what}: {e}"))?;
        if peak > est {
            return Err(format!("encoding {what} takes {peak} bytes, estimated {est}"));
        }
        if est > peak * 2 + (1 << 20) {
            return Err(format!("encoding {what} takes only {peak} bytes, estimated {est}"));
        }
    }
    Ok(())
}
/// What the estimates say of any parameters: they are refused exactly if no stream can have them, and never too low.
fn c25_estimates(c: &(u32, u32, u32, u8), o: &Obs) -> Result<(), String> {
    use sevenz_rust::lzma::{lzma2_get_memery_usage, lzma_get_memery_usage, lzma_get_memery_usage_by_props, DICT_SIZE_MAX};
    let (dict, lc, lp, props) = *c;
    let least = |lc: u32, lp: u32| (dict.max(4096) as u64 + (0x600u64 << (lc + lp))) / 1024;
    let (a, b, l2) = crate::fw::no_panic(|| (lzma_get_memery_usage(dict, lc, lp), lzma_get_memery_usage_by_props(dict, props), lzma2_get_memery_usage(dict)))?;
    for (r, ok, lc, lp, what) in [(a, lc <= 8 && lp <= 4, lc, lp, "lc and lp"), (b, props < 225, props as u32 % 45 % 9, props as u32 % 45 / 9, "the properties byte")] {
        let ok = ok && dict <= DICT_SIZE_MAX;
        o.nontrivial(ok && dict > 4096);
        match r {
            Ok(_) if !ok => return Err(format!("an estimate for impossible parameters, by {what}")),
            Ok(n) if (n as u64) < least(lc, lp) => return Err(format!("estimated {n} KiB by {what}, at least {} are needed", least(lc, lp))),
            Err(e) if ok => return Err(format!("no estimate by {what}: {e}")),
            _ => {}
        }
    }
    if (l2 as u64) < dict.max(4096) as u64 / 1024 + 64 {
        return Err(format!("estimated {l2} KiB for LZMA2"));
    }
    Ok(())
}
fn c25_read(c: &ReadCase, o: &Obs) -> Result<(), String> {
    label_arch(&c.g, o);
    let (spec, want) = c.g.spec();
    let b = spec.build();
    let p = z7::parse_gap(&b.bytes, &z7::utf16(&c.g.password), true).map_err(|e| format!("HARNESS: {e}"));
    let r = open(b.bytes.clone(), &Splits::whole(), &c.g.password).map_err(|e| format!("valid archive rejected: {e}"))?;
    let a = r.archive();
    let mut src = ShortReader::new(b.bytes.clone(), Splits::whole());
    let pwd = c.g.pw();
    let mut covered = 0;
    for i in 0..a.folders.len() {
        let d = sevenz_rust::BlockDecoder::new(i, a, &pwd, &mut src);
        if d.entry_count() != d.entries().len() {
            return Err(format!("block {i}: count {} of {} entries", d.entry_count(), d.entries().len()));
        }
        let streams = d.entries().iter().filter(|e| e.has_stream()).count();
        let expect = want.iter().filter(|w| w.folder == Some(i)).count();
        if streams != expect {
            return Err(format!("block {i}: {streams} entries with content, expected {expect}"));
        }
        covered += streams;
        let sum: u64 = d.entries().iter().map(|e| e.size()).sum();
        let unpack = a.folders[i].get_unpack_size();
        if sum != unpack && expect > 0 {
            return Err(format!("block {i}: entries add up to {sum}, block has {unpack}"));
        }
        // size of the packed stream, reported with the first entry of a block with one packed stream
        o.label_if(p.is_ok(), "pack sizes compared");
    if let Ok(p) = &p {
            let f = &p.s.folders[i];
            if f.packed.len() == 1 {
                if let Some(e) = d.entries().iter().find(|e| e.has_stream()) {
                    if e.compressed_size != p.s.packs[f.first_pack].1 {
                        return Err(format!("block {i}: compressed size {} of {}", e.compressed_size, p.s.packs[f.first_pack].1));
                    }
                }
            }
        }
    }
    // the blocks' coders as they were written
    for (i, (f, w)) in a.folders.iter().zip(&spec.folders).enumerate() {
        let main = (0..w.unpack.len()).find(|k| !w.binds.iter().any(|b| b.1 == *k as u64)).unwrap_or(0);
        if f.get_unpack_size() != w.unpack[main] {
            return Err(format!("block {i}: size {} of {}", f.get_unpack_size(), w.unpack[main]));
        }
        // (coders with one output here, so sizes and coders go together)
        for (k, coder) in f.coders.iter().enumerate() {
            let (x, y) = (f.get_unpack_size_for_coder(coder), f.get_unpack_size_at_index(k));
            if x != w.unpack[k] || y != w.unpack[k] {
                return Err(format!("block {i}: size {x} / {y} of coder {k}, {} expected", w.unpack[k]));
            }
            if coder.decompression_method_id() != &w.coders[k].id[..] || coder.properties != w.coders[k].props.clone().unwrap_or_default() {
                return Err(format!("block {i}: coder {k} is {:?} {:?}", coder.decompression_method_id(), coder.properties));
            }
        }
        if f.get_unpack_size_at_index(f.coders.len()) != 0 {
            return Err(format!("block {i}: a size of no coder"));
        }
        for k in 0..=w.coders.iter().map(|c| c.nin).sum::<u64>() {
            let (x, y) = (f.find_bind_pair_for_in_stream(k as usize), f.find_bind_pair_for_out_stream(k as usize));
            if x != w.binds.iter().position(|b| b.0 == k) || y != w.binds.iter().position(|b| b.1 == k) {
                return Err(format!("block {i}: bind pairs {x:?} / {y:?} of stream {k}"));
            }
        }
        let got: Vec<usize> = f.ordered_coder_iter().map(|(k, _)| k).collect();
        let mut at = main;
        if w.coders.iter().all(|c| c.nin == 1) {
            let mut order = vec![at];
            while let Some(b) = w.binds.iter().find(|b| b.0 == at as u64) {
                at = b.1 as usize;
                order.push(at);
            }
            order.reverse();
            if got != order {
                return Err(format!("block {i}: coders in the order {got:?}, expected {order:?}"));
            }
        }
    }
    if covered != want.iter().filter(|w| w.folder.is_some()).count() {
        return Err("blocks do not cover the entries".into());
    }
    Ok(())
}
pub fn c25(cx: &Ctx) {
    cx.rule("two or more entries (archives), two or more readers with content (SeqReader), dictionaries above the minimum (memory)");
    cx.assume("heap use is measured by a counting allocator; estimates in KiB as the library documents");
    cx.run("push", cx.n(7_500, 80_000), || hist(1_000, 10, true), c25_push);
    cx.run("push-large", cx.n(60, 3_000), || hist(200_000, 5, true), c25_push);
    cx.run("read", cx.n(18_000, 80_000), || read_case(300, true), c25_read);
    cx.run("seq", cx.n(20_000, 500_000), || {
        (
            pvec((prop_oneof![1 => Just(Data(vec![])), 3 => data(3_000)], splits()), 0..7),
            pvec(prop_oneof![1 => Just(0u16), 3 => 1u16..40, 2 => 1u16..9000], 0..6),
            prop_oneof![3 => Just(None), 1 => (0u8..40).prop_map(Some)],
        )
            .prop_map(|(parts, reads, stop)| SeqCase { parts, reads, stop })
            .boxed()
    }, c25_seq);
    cx.run("counting", cx.n(5_000, 100_000), || (data(20_000), splits(), prop_oneof![1 => Just(None), 3 => splits().prop_map(Some)]).boxed(), c25_counting);
    cx.run("memory", cx.n(5_000, 60_000), mem_case, c25_memory);
    cx.run("encoder-memory", cx.n(2_000, 40_000), || {
        let dict = prop_oneof![
            3 => crate::codec::dict_size(16),
            2 => (12u32..27, -20i64..20).prop_map(|(s, d)| ((1i64 << s) + d).max(4096) as u32),
            1 => 4096u32..(100 << 20),
        ];
        (crate::codec::opts(false, 16), dict, data(20_000)).prop_map(|(mut o, dict, d)| { o.dict = dict; (o, d) }).boxed()
    }, c25_encoder_memory);
    cx.run("estimates", cx.n(100_000, 1_000_000), || {
        let dict = prop_oneof![any::<u32>(), (0u32..33, -20i64..20).prop_map(|(s, d)| ((1i64 << s) + d).clamp(0, u32::MAX as i64) as u32)];
        let small = |n: u32| prop_oneof![4 => 0..n, 1 => 0..40u32, 1 => any::<u32>()];
        (dict, small(10), small(6), any::<u8>()).boxed()
    }, c25_estimates);
}
