//! Hand-declared FFI to the system's liblzma, used as independent encoder and decoder.
use std::os::raw::c_void;

pub const F_DELTA: u64 = 0x03;
pub const F_X86: u64 = 0x04;
pub const F_PPC: u64 = 0x05;
pub const F_ARM: u64 = 0x07;
pub const F_ARMT: u64 = 0x08;
pub const F_SPARC: u64 = 0x09;
pub const F_IA64: u64 = 0x06;
pub const F_LZMA1: u64 = 0x4000_0000_0000_0001;
pub const F_LZMA1EXT: u64 = 0x4000_0000_0000_0002;
pub const F_LZMA2: u64 = 0x21;

const RUN: u32 = 0;
const SYNC_FLUSH: u32 = 1;
const FULL_FLUSH: u32 = 2;
const FINISH: u32 = 3;
const OK: u32 = 0;
const STREAM_END: u32 = 1;

#[repr(C)]
struct Stream {
    next_in: *const u8,
    avail_in: usize,
    total_in: u64,
    next_out: *mut u8,
    avail_out: usize,
    total_out: u64,
    allocator: *const c_void,
    internal: *mut c_void,
    rp: [*mut c_void; 4],
    seek_pos: u64,
    r2: u64,
    r3: usize,
    r4: usize,
    e1: u32,
    e2: u32,
}
impl Stream {
    fn new() -> Self {
        unsafe { std::mem::zeroed() }
    }
}
impl Drop for Stream {
    fn drop(&mut self) {
        unsafe { lzma_end(self) }
    }
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct OptLzma {
    pub dict_size: u32,
    pub preset_dict: *const u8,
    pub preset_dict_size: u32,
    pub lc: u32,
    pub lp: u32,
    pub pb: u32,
    pub mode: u32,
    pub nice_len: u32,
    pub mf: u32,
    pub depth: u32,
    pub ext_flags: u32,
    pub ext_size_low: u32,
    pub ext_size_high: u32,
    r: [u32; 5],
    e: [u32; 4],
    p: [*mut c_void; 2],
}
impl OptLzma {
    pub fn new() -> Self {
        unsafe { std::mem::zeroed() }
    }
}
#[repr(C)]
struct OptDelta {
    typ: u32,
    dist: u32,
    r: [u32; 4],
    p: [*mut c_void; 2],
}
#[repr(C)]
struct OptBcj {
    start_offset: u32,
}
#[repr(C)]
struct Filter {
    id: u64,
    options: *const c_void,
}

extern "C" {
    fn lzma_end(s: *mut Stream);
    fn lzma_code(s: *mut Stream, action: u32) -> u32;
    fn lzma_raw_encoder(s: *mut Stream, f: *const Filter) -> u32;
    fn lzma_raw_decoder(s: *mut Stream, f: *const Filter) -> u32;
    fn lzma_alone_encoder(s: *mut Stream, o: *const OptLzma) -> u32;
    fn lzma_alone_decoder(s: *mut Stream, memlimit: u64) -> u32;
    fn lzma_lzma_preset(o: *mut OptLzma, preset: u32) -> u8;
}

pub enum F {
    Lzma1(OptLzma),
    Lzma1Ext(OptLzma),
    Lzma2(OptLzma),
    Bcj(u64),
    /// branch filter of a stream that starts at this offset
    BcjAt(u64, u32),
    Delta(u32),
}

fn with_filters<T>(fs: &[F], f: impl FnOnce(*const Filter) -> T) -> T {
    let deltas: Vec<OptDelta> = fs
        .iter()
        .map(|f| OptDelta {
            typ: 0,
            dist: if let F::Delta(d) = f { *d } else { 1 },
            r: [0; 4],
            p: [std::ptr::null_mut(); 2],
        })
        .collect();
    let bcjs: Vec<OptBcj> = fs.iter().map(|f| OptBcj { start_offset: if let F::BcjAt(_, s) = f { *s } else { 0 } }).collect();
    let mut v: Vec<Filter> = fs
        .iter()
        .zip(deltas.iter().zip(&bcjs))
        .map(|(f, (d, b))| match f {
            F::Lzma1(o) => Filter { id: F_LZMA1, options: o as *const _ as *const c_void },
            F::Lzma1Ext(o) => Filter { id: F_LZMA1EXT, options: o as *const _ as *const c_void },
            F::Lzma2(o) => Filter { id: F_LZMA2, options: o as *const _ as *const c_void },
            F::Bcj(id) => Filter { id: *id, options: std::ptr::null() },
            F::BcjAt(id, _) => Filter { id: *id, options: b as *const _ as *const c_void },
            F::Delta(_) => Filter { id: F_DELTA, options: d as *const _ as *const c_void },
        })
        .collect();
    v.push(Filter { id: u64::MAX, options: std::ptr::null() });
    f(v.as_ptr())
}

#[derive(Debug)]
pub struct Decoded {
    pub out: Vec<u8>,
    pub consumed: usize,
    /// the decoder reported the end of the stream
    pub ended: bool,
    pub code: u32,
}

unsafe fn run(s: &mut Stream, input: &[u8], action: u32, out: &mut Vec<u8>, max_out: usize) -> u32 {
    s.next_in = input.as_ptr();
    s.avail_in = input.len();
    let mut buf = vec![0u8; 1 << 16];
    loop {
        let room = buf.len().min(max_out - out.len());
        s.next_out = buf.as_mut_ptr();
        s.avail_out = room;
        let r = lzma_code(s, action);
        out.extend_from_slice(&buf[..room - s.avail_out]);
        if r != OK {
            return r;
        }
        if out.len() >= max_out {
            return OK;
        }
        if action == RUN && s.avail_in == 0 && s.avail_out > 0 {
            return OK;
        }
    }
}

/// Decodes a raw stream; at most `max_out` bytes of output.
pub fn raw_decode(fs: &[F], input: &[u8], max_out: usize) -> Decoded {
    unsafe {
        let mut s = Stream::new();
        let r = with_filters(fs, |f| lzma_raw_decoder(&mut s, f));
        assert_eq!(r, OK, "liblzma raw decoder init");
        let mut out = vec![];
        // one byte more so that excess output is noticed
        let code = run(&mut s, input, FINISH, &mut out, max_out + 1);
        Decoded { consumed: s.total_in as usize, ended: code == STREAM_END, out, code }
    }
}
pub fn alone_decode(input: &[u8], max_out: usize) -> Decoded {
    unsafe {
        let mut s = Stream::new();
        assert_eq!(lzma_alone_decoder(&mut s, u64::MAX), OK);
        let mut out = vec![];
        let code = run(&mut s, input, FINISH, &mut out, max_out + 1);
        Decoded { consumed: s.total_in as usize, ended: code == STREAM_END, out, code }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Flush {
    Sync,
    Full,
}
/// Encodes the pieces, flushing after each as requested.
pub fn raw_encode(fs: &[F], pieces: &[(&[u8], Option<Flush>)]) -> Result<Vec<u8>, u32> {
    unsafe {
        let mut s = Stream::new();
        let r = with_filters(fs, |f| lzma_raw_encoder(&mut s, f));
        if r != OK {
            return Err(r);
        }
        let mut out = vec![];
        for (p, f) in pieces {
            let (action, good) = match f {
                None => (RUN, OK),
                Some(Flush::Sync) => (SYNC_FLUSH, STREAM_END),
                Some(Flush::Full) => (FULL_FLUSH, STREAM_END),
            };
            if p.is_empty() && action == RUN {
                continue;
            }
            let r = run(&mut s, p, action, &mut out, usize::MAX);
            if r != good {
                return Err(r);
            }
        }
        let r = run(&mut s, &[], FINISH, &mut out, usize::MAX);
        if r != STREAM_END {
            return Err(r);
        }
        Ok(out)
    }
}
pub fn alone_encode(o: &OptLzma, data: &[u8]) -> Result<Vec<u8>, u32> {
    unsafe {
        let mut s = Stream::new();
        let r = lzma_alone_encoder(&mut s, o);
        if r != OK {
            return Err(r);
        }
        let mut out = vec![];
        let r = run(&mut s, data, FINISH, &mut out, usize::MAX);
        if r != STREAM_END {
            return Err(r);
        }
        Ok(out)
    }
}
pub fn preset(level: u32) -> OptLzma {
    let mut o = OptLzma::new();
    unsafe { lzma_lzma_preset(&mut o, level) };
    o
}
/// Simple filters (branch, delta) alone are not allowed by liblzma as a whole chain; the encoder output of the filter
/// is obtained by encoding filter+LZMA2 and decoding LZMA2 only.
pub fn filter_encode(f: F, data: &[u8]) -> Vec<u8> {
    let mut o = preset(0);
    o.dict_size = 1 << 16;
    let enc = raw_encode(&[f, F::Lzma2(o)], &[(data, None)]).expect("liblzma filter encode");
    let d = raw_decode(&[F::Lzma2(o)], &enc, data.len());
    assert!(d.ended && d.out.len() == data.len());
    d.out
}
pub fn filter_decode(f: F, data: &[u8]) -> Vec<u8> {
    let mut o = preset(0);
    o.dict_size = 1 << 16;
    let enc = raw_encode(&[F::Lzma2(o)], &[(data, None)]).expect("liblzma encode");
    let d = raw_decode(&[f, F::Lzma2(o)], &enc, data.len());
    assert!(d.ended && d.out.len() == data.len());
    d.out
}
