//! Reading archives through the library, and comparing with what they have to hold.
use crate::util::*;
use crate::z7::{Expect, FileRec};
use sevenz_rust::{Archive, Error, Password, SevenZArchiveEntry, SevenZReader};
use std::io::{Read, Seek};

pub fn pw(p: &str) -> Password {
    Password::from(p)
}
pub fn rec_of(e: &SevenZArchiveEntry) -> FileRec {
    FileRec {
        name: e.name().to_string(),
        stream: e.has_stream(),
        dir: e.is_directory(),
        anti: e.is_anti_item(),
        c: if e.has_creation_date { Some(e.creation_date().to_raw()) } else { None },
        a: if e.has_access_date { Some(e.access_date().to_raw()) } else { None },
        m: if e.has_last_modified_date { Some(e.last_modified_date().to_raw()) } else { None },
        attr: if e.has_windows_attributes { Some(e.windows_attributes()) } else { None },
    }
}
/// One visited entry.
#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    pub rec: FileRec,
    pub size: u64,
    pub crc: Option<u32>,
    pub data: Vec<u8>,
}
fn seen(e: &SevenZArchiveEntry, data: Vec<u8>) -> Seen {
    Seen { rec: rec_of(e), size: e.size(), crc: if e.has_crc { Some(e.crc as u32) } else { None }, data }
}
/// How entries are consumed.
#[derive(Clone, Debug)]
pub struct How {
    pub reads: Splits,
    /// an empty read before every n-th read
    pub empty_reads: bool,
    /// further reads after the end
    pub past_end: bool,
    pub max: u64,
}
impl How {
    pub fn plain() -> How {
        How { reads: Splits::whole(), empty_reads: false, past_end: false, max: 1 << 30 }
    }
    pub fn with(reads: &Splits) -> How {
        How { reads: reads.clone(), empty_reads: false, past_end: true, max: 1 << 30 }
    }
    pub fn read(&self, r: &mut dyn Read) -> std::io::Result<Vec<u8>> {
        let mut out = vec![];
        let mut buf = vec![0u8; 1 << 16];
        let mut i = 0;
        loop {
            if self.empty_reads && i % 3 == 0 {
                let n = r.read(&mut [])?;
                if n != 0 {
                    return Err(std::io::Error::new(std::io::ErrorKind::Other, "HARNESS: empty read returned bytes"));
                }
            }
            let want = self.reads.at1(i).min(buf.len());
            i += 1;
            let n = r.read(&mut buf[..want])?;
            if n > want {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "HARNESS: read returned more than asked"));
            }
            if n == 0 {
                break;
            }
            out.extend_from_slice(&buf[..n]);
            if out.len() as u64 > self.max {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "HARNESS: too much data"));
            }
        }
        if self.past_end {
            for k in 0..3 {
                let n = r.read(&mut buf[..1 + k * 100])?;
                if n != 0 {
                    return Err(std::io::Error::new(std::io::ErrorKind::Other, "HARNESS: bytes after the end of an entry"));
                }
            }
        }
        Ok(out)
    }
}
pub fn open(bytes: Vec<u8>, src: &Splits, password: &str) -> Result<SevenZReader<ShortReader>, Error> {
    let len = bytes.len() as u64;
    SevenZReader::new(ShortReader::new(bytes, src.clone()), len, pw(password))
}
/// Visits everything; Err is the error of the iteration, with what was visited before.
pub fn visit<S: Read + Seek>(r: &mut SevenZReader<S>, how: &How) -> (Vec<Seen>, Result<(), Error>) {
    let mut v = vec![];
    let res = r.for_each_entries(|e, rd| {
        let d = how.read(rd).map_err(Error::io)?;
        v.push(seen(e, d));
        Ok(true)
    });
    (v, res)
}
pub fn visit_block<S: Read + Seek>(a: &Archive, i: usize, password: &[u8], src: &mut S, how: &How) -> Result<Vec<Seen>, Error> {
    let mut v = vec![];
    let d = sevenz_rust::BlockDecoder::new(i, a, password, src);
    let ok = d.for_each_entries(&mut |e: &SevenZArchiveEntry, rd: &mut dyn Read| {
        let d = how.read(rd).map_err(Error::io)?;
        v.push(seen(e, d));
        Ok(true)
    })?;
    if !ok {
        return Err(Error::other("HARNESS: block iteration reports a stop nobody asked for"));
    }
    Ok(v)
}
/// Reads a whole archive.
pub fn read_archive(bytes: Vec<u8>, src: &Splits, password: &str, how: &How) -> Result<(Archive, Vec<Seen>), Error> {
    let mut r = open(bytes, src, password)?;
    let a = r.archive().clone();
    let (v, res) = visit(&mut r, how);
    res?;
    Ok((a, v))
}
pub fn check_rec(i: usize, got: &SevenZArchiveEntry, want: &Expect) -> Result<(), String> {
    let g = rec_of(got);
    if g != want.rec {
        return Err(format!("entry {i}: metadata {g:?}, expected {:?}", want.rec));
    }
    if got.size() != want.data.len() as u64 {
        return Err(format!("entry {i}: size {} expected {}", got.size(), want.data.len()));
    }
    let crc = if got.has_crc { Some(got.crc) } else { None };
    if crc != want.crc.map(|c| c as u64) {
        return Err(format!("entry {i}: checksum {crc:?} expected {:?}", want.crc));
    }
    Ok(())
}
pub fn check_records(a: &Archive, want: &[Expect]) -> Result<(), String> {
    if a.files.len() != want.len() {
        return Err(format!("{} entries listed, expected {}", a.files.len(), want.len()));
    }
    for (i, (g, w)) in a.files.iter().zip(want).enumerate() {
        check_rec(i, g, w)?;
    }
    Ok(())
}
fn key(s: &Seen) -> String {
    format!("{:?} {} {:?} {}", s.rec, s.size, s.crc, crc32(&s.data))
}
/// Every entry visited once with its own record and content; entries with content in archive order.
pub fn check_visits(v: &[Seen], want: &[Expect]) -> Result<(), String> {
    let w: Vec<Seen> = want
        .iter()
        .map(|e| Seen { rec: e.rec.clone(), size: e.data.len() as u64, crc: e.crc, data: e.data.clone() })
        .collect();
    let streams = |x: &[Seen]| -> Vec<Seen> { x.iter().filter(|s| s.rec.stream).cloned().collect() };
    let (gs, ws) = (streams(v), streams(&w));
    for (i, (g, x)) in gs.iter().zip(&ws).enumerate() {
        if g.rec != x.rec || g.size != x.size || g.crc != x.crc {
            return Err(format!("{i}-th entry with content visited: {:?} size {} crc {:?}, expected {:?} size {} crc {:?}", g.rec, g.size, g.crc, x.rec, x.size, x.crc));
        }
        same(&format!("content of entry {:?}", g.rec.name), &g.data, &x.data)?;
    }
    if gs.len() != ws.len() {
        return Err(format!("{} entries with content visited, expected {}", gs.len(), ws.len()));
    }
    let mut a: Vec<String> = v.iter().map(key).collect();
    let mut b: Vec<String> = w.iter().map(key).collect();
    a.sort();
    b.sort();
    if a != b {
        let extra: Vec<&String> = a.iter().filter(|x| !b.contains(x)).collect();
        let missing: Vec<&String> = b.iter().filter(|x| !a.contains(x)).collect();
        return Err(format!("visited {} entries, expected {}; unexpected {extra:?}, missing {missing:?}", a.len(), b.len()));
    }
    Ok(())
}
