//! C12, C13: hostile archives and streams.
use crate::blocks::{any_arch, Any};
use crate::fw::{no_panic, with_mem_limit, Ctx, Obs};
use crate::util::{self, crc32, data, splits, Data, ShortReader, Splits};
use crate::z7::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sevenz_rust::{Archive, BlockDecoder, Error, SevenZArchiveEntry, SevenZReader};
use std::io::{self, Read};

const MIB: u64 = 1 << 20;

// ------------------------------------------------------------------------------------- generators
/// A number for a header field.
pub fn num() -> BoxedStrategy<u64> {
    prop_oneof![
        8 => 0u64..5,
        3 => 5u64..40,
        2 => 40u64..70_000,
        2 => (8u32..64, -2i64..3).prop_map(|(k, d)| (1u64 << k).wrapping_add(d as u64)),
        1 => (0u64..70).prop_map(|d| u64::MAX - d),
        1 => (0u64..70).prop_map(|d| (1u64 << 63).wrapping_sub(d)),
        1 => any::<u64>(),
        1 => any::<u32>().prop_map(|v| v as u64),
    ]
    .boxed()
}
/// A change of a byte string; positions are taken modulo the length.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Flip(u32, u8),
    Set(u32, u8),
    Insert(u32, Vec<u8>),
    Remove(u32, u16),
    Dup(u32, u32, u16),
    Swap(u32, u32, u16),
    Fill(u32, u16, u8),
    Cut(u32),
    Append(Vec<u8>),
}
pub fn edit() -> BoxedStrategy<Edit> {
    let p = prop_oneof![3 => any::<u32>(), 1 => 0u32..64];
    prop_oneof![
        4 => (p.clone(), 0u8..8).prop_map(|(p, b)| Edit::Flip(p, b)),
        4 => (p.clone(), prop_oneof![any::<u8>(), 0u8..27, Just(0xffu8), Just(0x80u8), Just(0x7fu8)]).prop_map(|(p, b)| Edit::Set(p, b)),
        2 => (p.clone(), prop::collection::vec(any::<u8>(), 1..10)).prop_map(|(p, b)| Edit::Insert(p, b)),
        1 => p.clone().prop_map(|p| Edit::Insert(p, vec![0xff; 9])),
        2 => (p.clone(), 1u16..20).prop_map(|(p, n)| Edit::Remove(p, n)),
        1 => (p.clone(), p.clone(), 1u16..40).prop_map(|(a, b, n)| Edit::Dup(a, b, n)),
        1 => (p.clone(), p.clone(), 1u16..20).prop_map(|(a, b, n)| Edit::Swap(a, b, n)),
        1 => (p.clone(), 1u16..300, prop_oneof![Just(0u8), Just(0xff), any::<u8>()]).prop_map(|(a, n, b)| Edit::Fill(a, n, b)),
        1 => p.prop_map(Edit::Cut),
        1 => prop::collection::vec(any::<u8>(), 1..40).prop_map(Edit::Append),
    ]
    .boxed()
}
pub fn apply(v: &mut Vec<u8>, e: &Edit) {
    let at = |p: u32, v: &Vec<u8>| p as usize % v.len().max(1);
    match e {
        Edit::Append(b) => v.extend_from_slice(b),
        Edit::Insert(p, b) => {
            let p = *p as usize % (v.len() + 1);
            v.splice(p..p, b.iter().copied());
        }
        _ if v.is_empty() => {}
        Edit::Flip(p, b) => {
            let p = at(*p, v);
            v[p] ^= 1 << (b % 8);
        }
        Edit::Set(p, b) => {
            let p = at(*p, v);
            v[p] = *b;
        }
        Edit::Remove(p, n) => {
            let p = at(*p, v);
            let e = (p + *n as usize).min(v.len());
            v.drain(p..e);
        }
        Edit::Dup(a, b, n) => {
            let (a, b) = (at(*a, v), at(*b, v));
            let piece: Vec<u8> = v[a..(a + *n as usize).min(v.len())].to_vec();
            v.splice(b..b, piece);
        }
        Edit::Swap(a, b, n) => {
            let (a, b) = (at(*a, v), at(*b, v));
            for i in 0..*n as usize {
                if a.max(b) + i < v.len() {
                    v.swap(a + i, b + i);
                }
            }
        }
        Edit::Fill(p, n, b) => {
            let p = at(*p, v);
            let e = (p + *n as usize).min(v.len());
            v[p..e].fill(*b);
        }
        Edit::Cut(p) => {
            let p = at(*p, v);
            v.truncate(p);
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RCoder {
    pub id: Vec<u8>,
    pub props: Option<Vec<u8>>,
    /// numbers of input and output streams of a coder written in the complex form
    pub complex: Option<(u64, u64)>,
    pub prop_size: Option<u64>,
    pub extra_bits: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RFolder {
    pub coders: Vec<RCoder>,
    pub num_coders: Option<u64>,
    pub binds: Vec<(u64, u64)>,
    pub packed: Vec<u64>,
    pub sizes: Vec<u64>,
    pub crc: Option<u32>,
}
/// A header in the grammar of the format, with numbers that need not fit together.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Random {
    pub pads: Vec<u8>,
    pub pack_pos: u64,
    pub num_packs: Option<u64>,
    pub packs: Vec<u64>,
    pub pack_crcs: u8,
    pub folders: Vec<RFolder>,
    pub num_folders: Option<u64>,
    pub sub_counts: Option<Vec<u64>>,
    pub sub_sizes: Option<Vec<u64>>,
    pub sub_crcs: Option<Vec<u8>>,
    pub num_files: u64,
    /// property id, its size when not the real one, its body
    pub props: Vec<(u8, Option<u64>, Vec<u8>)>,
    pub arch_props: Vec<(u8, Option<u64>, Vec<u8>)>,
    /// bit i: section i left out
    pub omit: u16,
    pub data: Data,
}
fn ids() -> BoxedStrategy<Vec<u8>> {
    let known: Vec<Vec<u8>> = vec![
        vec![0],
        vec![0x21],
        vec![3, 1, 1],
        vec![4, 2, 2],
        vec![4, 1, 8],
        vec![4, 0xf7, 0x11, 1],
        vec![6, 0xf1, 7, 1],
        vec![3, 3, 1, 3],
        vec![3, 3, 1, 0x1b],
        vec![3],
        vec![4],
        vec![5],
        vec![6],
        vec![7],
        vec![8],
        vec![9],
        vec![3, 3, 5, 1],
        vec![3, 3, 7, 1],
        vec![3, 3, 8, 5],
        vec![3, 3, 2, 5],
        vec![],
    ];
    prop_oneof![12 => prop::sample::select(known), 1 => prop::collection::vec(any::<u8>(), 0..15)].boxed()
}
fn props_for(id: &[u8]) -> BoxedStrategy<Option<Vec<u8>>> {
    let good: BoxedStrategy<Vec<u8>> = match id {
        [3, 1, 1] => (0u8..225, prop_oneof![4 => 0u32..(1 << 20), 1 => any::<u32>()])
            .prop_map(|(p, d)| {
                let mut v = vec![p];
                v.extend(d.to_le_bytes());
                v
            })
            .boxed(),
        [0x21] => prop_oneof![4 => 0u8..20, 1 => 0u8..42].prop_map(|p| vec![p]).boxed(),
        [6, 0xf1, 7, 1] => aes_p(8).prop_map(|a| a.props()).boxed(),
        [3] => any::<u8>().prop_map(|p| vec![p]).boxed(),
        _ => Just(vec![]).boxed(),
    };
    prop_oneof![6 => good.prop_map(|v| if v.is_empty() { None } else { Some(v) }), 1 => prop::option::of(prop::collection::vec(any::<u8>(), 0..8))].boxed()
}
fn rcoder() -> BoxedStrategy<RCoder> {
    ids()
        .prop_flat_map(|id| {
            let bcj2 = id == [3, 3, 1, 0x1b];
            let complex = if bcj2 {
                prop_oneof![8 => Just(Some((4u64, 1u64))), 1 => Just(None), 2 => (num(), num()).prop_map(Some)].boxed()
            } else {
                prop_oneof![8 => Just(None), 1 => Just(Some((1u64, 1u64))), 2 => (num(), num()).prop_map(Some)].boxed()
            };
            (props_for(&id), complex, prop_oneof![20 => Just(None), 1 => num().prop_map(Some)], prop_oneof![30 => Just(0u8), 1 => Just(0x40), 1 => Just(0x80)], Just(id))
        })
        .prop_map(|(props, complex, prop_size, extra_bits, id)| RCoder { id, props, complex, prop_size, extra_bits })
        .boxed()
}
fn small_or(n: BoxedStrategy<u64>) -> BoxedStrategy<u64> {
    prop_oneof![5 => 0u64..6, 1 => n].boxed()
}
fn rfolder() -> BoxedStrategy<RFolder> {
    (
        prop::collection::vec(rcoder(), 1..6),
        prop_oneof![30 => Just(None), 1 => num().prop_map(Some)],
        prop::collection::vec((small_or(num()), small_or(num())), 0..8),
        prop::collection::vec(small_or(num()), 0..8),
        prop::collection::vec(prop_oneof![2 => 0u64..300, 1 => num()], 1..6),
        prop::option::of(any::<u32>()),
    )
        .prop_map(|(coders, num_coders, binds, packed, sizes, crc)| RFolder { coders, num_coders, binds, packed, sizes, crc })
        .boxed()
}
/// A folder whose coders form a chain, in some order.
fn rchain() -> BoxedStrategy<RFolder> {
    (prop::collection::vec(rcoder(), 1..5), any::<u64>(), prop::collection::vec(prop_oneof![2 => 0u64..300, 1 => num()], 1..6), prop::option::of(any::<u32>()))
        .prop_map(|(mut coders, perm, sizes, crc)| {
            let n = coders.len();
            for c in &mut coders {
                c.complex = None;
                c.extra_bits = 0;
            }
            let mut at: Vec<usize> = (0..n).collect();
            let mut r = util::Rng::new(perm);
            for i in (1..n).rev() {
                at.swap(i, r.below(i as u64 + 1) as usize);
            }
            let binds = (1..n).map(|i| (at[i] as u64, at[i - 1] as u64)).collect();
            RFolder { coders, num_coders: None, binds, packed: vec![at[0] as u64], sizes, crc }
        })
        .boxed()
}
fn random() -> BoxedStrategy<Random> {
    let opt = |n: BoxedStrategy<u64>| prop_oneof![12 => Just(None), 1 => n.prop_map(Some)].boxed();
    let prop = (prop_oneof![8 => 14u8..26, 1 => any::<u8>()], opt(num()), prop::collection::vec(prop_oneof![any::<u8>(), 0u8..4], 0..40));
    (
        (
            prop_oneof![4 => Just(vec![]), 1 => prop::collection::vec(0u8..3, 1..5)],
            prop_oneof![3 => 0u64..40, 1 => num()],
            opt(num()),
            prop::collection::vec(prop_oneof![3 => 0u64..300, 1 => num()], 0..6),
            prop_oneof![3 => Just(0u8), 1 => any::<u8>()],
            prop::collection::vec(prop_oneof![rfolder(), rchain()], 0..4),
            opt(num()),
        ),
        (
            prop::option::of(prop::collection::vec(prop_oneof![6 => 0u64..4, 1 => num()], 0..5)),
            prop::option::of(prop::collection::vec(prop_oneof![4 => 0u64..200, 1 => num()], 0..8)),
            prop::option::of(prop::collection::vec(any::<u8>(), 0..40)),
            prop_oneof![8 => 0u64..8, 1 => num()],
            prop::collection::vec(prop.clone(), 0..6),
            prop_oneof![5 => Just(vec![]), 1 => prop::collection::vec(prop, 1..3)],
            prop_oneof![3 => Just(0u16), 1 => any::<u16>()],
            data(400),
        ),
    )
        .prop_map(|((pads, pack_pos, num_packs, packs, pack_crcs, folders, num_folders), (sub_counts, sub_sizes, sub_crcs, num_files, props, arch_props, omit, data))| Random {
            pads,
            pack_pos,
            num_packs,
            packs,
            pack_crcs,
            folders,
            num_folders,
            sub_counts,
            sub_sizes,
            sub_crcs,
            num_files,
            props,
            arch_props,
            omit,
            data,
        })
        .boxed()
}
impl Random {
    fn streams(&self, e: &mut Emit) {
        let om = |i: u32| self.omit >> i & 1 == 1;
        if !om(0) {
            e.b(6);
            e.n(self.pack_pos);
            e.n(self.num_packs.unwrap_or(self.packs.len() as u64));
            if !om(1) {
                e.b(9);
                for p in &self.packs {
                    e.n(*p);
                }
            }
            if self.pack_crcs & 1 == 1 {
                e.b(10);
                e.b(1);
                for p in &self.packs {
                    e.raw(&(*p as u32).to_le_bytes());
                }
            }
            e.b(0);
        }
        if !om(2) {
            e.b(7);
            e.b(11);
            e.n(self.num_folders.unwrap_or(self.folders.len() as u64));
            e.b(0);
            let mut outs = vec![];
            for f in &self.folders {
                e.n(f.num_coders.unwrap_or(f.coders.len() as u64));
                let (mut tin, mut tout) = (0u64, 0u64);
                for c in &f.coders {
                    e.b(c.id.len().min(15) as u8 | if c.complex.is_some() { 0x10 } else { 0 } | if c.props.is_some() || c.prop_size.is_some() { 0x20 } else { 0 } | c.extra_bits);
                    e.raw(&c.id[..c.id.len().min(15)]);
                    let (i, o) = c.complex.unwrap_or((1, 1));
                    if c.complex.is_some() {
                        e.n(i);
                        e.n(o);
                    }
                    tin = tin.saturating_add(i);
                    tout = tout.saturating_add(o);
                    let p = c.props.clone().unwrap_or_default();
                    if c.props.is_some() || c.prop_size.is_some() {
                        e.n(c.prop_size.unwrap_or(p.len() as u64));
                        e.raw(&p);
                    }
                }
                let nb = tout.saturating_sub(1).min(40);
                for k in 0..nb as usize {
                    let (i, o) = if f.binds.is_empty() { (k as u64, k as u64 + 1) } else { f.binds[k % f.binds.len()] };
                    e.n(i);
                    e.n(o);
                }
                let np = tin.saturating_sub(nb).min(40);
                if np > 1 {
                    for k in 0..np as usize {
                        e.n(if f.packed.is_empty() { k as u64 } else { f.packed[k % f.packed.len()] });
                    }
                }
                outs.push(tout.min(40));
            }
            e.b(12);
            for (f, n) in self.folders.iter().zip(&outs) {
                for k in 0..*n as usize {
                    e.n(f.sizes[k % f.sizes.len()]);
                }
            }
            if self.folders.iter().any(|f| f.crc.is_some()) {
                e.b(10);
                let d: Vec<bool> = self.folders.iter().map(|f| f.crc.is_some()).collect();
                e.defined(&d, false);
                for f in &self.folders {
                    if let Some(c) = f.crc {
                        e.raw(&c.to_le_bytes());
                    }
                }
            }
            e.b(0);
        }
        if !om(3) {
            e.b(8);
            let mut total = 0usize;
            let mut inner = 0usize;
            if let Some(c) = &self.sub_counts {
                e.b(13);
                for i in 0..self.folders.len() {
                    let n = if c.is_empty() { 1 } else { c[i % c.len()] };
                    e.n(n);
                    total = (total + n.min(1000) as usize).min(1000);
                    inner = (inner + n.saturating_sub(1).min(1000) as usize).min(1000);
                }
            } else {
                total = self.folders.len();
            }
            if let Some(s) = &self.sub_sizes {
                e.b(9);
                for i in 0..inner {
                    e.n(if s.is_empty() { 1 } else { s[i % s.len()] });
                }
            }
            if let Some(c) = &self.sub_crcs {
                e.b(10);
                e.b(1);
                for i in 0..total * 4 {
                    e.b(if c.is_empty() { 0 } else { c[i % c.len()] });
                }
            }
            e.b(0);
        }
        e.b(0);
    }
    fn build(&self) -> (Vec<u8>, Vec<u8>) {
        let mut e = Emit::new(&self.pads);
        let om = |i: u32| self.omit >> i & 1 == 1;
        let put = |e: &mut Emit, ps: &[(u8, Option<u64>, Vec<u8>)]| {
            for (id, n, body) in ps {
                e.b(*id);
                e.n(n.unwrap_or(body.len() as u64));
                e.raw(body);
            }
            e.b(0);
        };
        e.b(1);
        if !self.arch_props.is_empty() {
            e.b(2);
            put(&mut e, &self.arch_props);
        }
        if !om(4) {
            e.b(4);
            self.streams(&mut e);
        }
        if !om(5) {
            e.b(5);
            e.n(self.num_files);
            put(&mut e, &self.props);
        }
        e.b(0);
        (self.data.bytes(), e.out)
    }
    /// The streams as the description of a packed header.
    fn build_stub(&self) -> (Vec<u8>, Vec<u8>) {
        let mut e = Emit::new(&self.pads);
        e.b(0x17);
        self.streams(&mut e);
        (self.data.bytes(), e.out)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    /// numbers of the header replaced; the flag selects those describing a packed header
    Numbers(GArch, Vec<(bool, u16, u64)>),
    /// the unpacked header changed, checksums repaired; packed again unless 0
    Header(GArch, Vec<Edit>, u8),
    /// a header of random structure; packed unless 0
    Random(Random, u8),
    /// the description of a packed header, of random structure
    Stub(Random),
    /// offset, size and checksum of the header, start header checksum right or not
    Start(Any, Option<u64>, Option<u64>, Option<u32>, bool),
    /// the file changed; the flag clears the start header
    File(Any, Vec<Edit>, bool),
    /// the data area changed
    Streams(Any, Vec<Edit>),
    /// signature and random bytes
    Bytes(Vec<u8>, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hostile {
    pub what: What,
    pub password: bool,
    /// the callback ignores read errors and goes on
    pub go_on: bool,
    pub src: Splits,
}
fn pack_header(data: &mut Vec<u8>, raw: &[u8], how: u8) -> Vec<u8> {
    let chain = match how % 4 {
        1 => vec![M::Copy],
        2 => vec![M::Lzma(plain_opts(), false)],
        3 => vec![M::Lzma2(plain_opts())],
        _ => return raw.to_vec(),
    };
    let mut f = linear_folder(&chain, raw, &[], 0);
    f.crc = Some(crc32(raw));
    let pos = data.len() as u64;
    data.extend_from_slice(&f.packs[0]);
    let mut e = Emit::new(&[]);
    e.b(0x17);
    e.pack_info(pos, &[&f.packs[0]], &PackCrc::None);
    e.unpack_info(std::slice::from_ref(&f), false);
    e.b(0);
    e.out
}
fn plain_opts() -> crate::codec::ForeignOpts {
    crate::codec::ForeignOpts { lc: 3, lp: 0, pb: 2, dict: 4096, mode: 1, nice: 32, mf: 0x14, depth: 0 }
}
impl Hostile {
    pub fn build(&self) -> Result<(Vec<u8>, String), String> {
        Ok(match &self.what {
            What::Numbers(g, m) => {
                let (mut s, _) = g.spec();
                let b = s.build();
                for (stub, k, v) in m {
                    if *stub && b.stub_nums > 0 {
                        s.mutate.push((1_000_000 + *k as usize % b.stub_nums, *v));
                    } else if b.nums > 0 {
                        s.mutate.push((*k as usize % b.nums, *v));
                    }
                }
                (s.build().bytes, g.password.clone())
            }
            What::Header(g, edits, how) => {
                let b = g.spec().0.build();
                let mut raw = b.raw_header.clone();
                for e in edits {
                    apply(&mut raw, e);
                }
                let mut data = b.bytes[32..b.header_at].to_vec();
                let h = pack_header(&mut data, &raw, *how);
                (assemble(4, &data, &h), g.password.clone())
            }
            What::Random(r, how) => {
                let (mut data, raw) = r.build();
                let h = pack_header(&mut data, &raw, *how);
                (assemble(4, &data, &h), "pw".into())
            }
            What::Stub(r) => {
                let (data, h) = r.build_stub();
                (assemble(4, &data, &h), "pw".into())
            }
            What::Start(a, off, size, crc, repair) => {
                let (mut b, p) = a.build()?;
                if let Some(v) = off {
                    b[12..20].copy_from_slice(&v.to_le_bytes());
                }
                if let Some(v) = size {
                    b[20..28].copy_from_slice(&v.to_le_bytes());
                }
                if let Some(v) = crc {
                    b[28..32].copy_from_slice(&v.to_le_bytes());
                }
                if *repair {
                    let c = crc32(&b[12..32]);
                    b[8..12].copy_from_slice(&c.to_le_bytes());
                }
                (b, p)
            }
            What::File(a, edits, lost) => {
                let (mut b, p) = a.build()?;
                for e in edits {
                    apply(&mut b, e);
                }
                if *lost && b.len() >= 8 {
                    let n = b.len().min(32);
                    b[8..n].fill(0);
                }
                (b, p)
            }
            What::Streams(a, edits) => {
                let (b, p) = a.build()?;
                let off = u64::from_le_bytes(b[12..20].try_into().unwrap()) as usize;
                let mut data = b[32..32 + off].to_vec();
                for e in edits {
                    apply(&mut data, e);
                }
                data.resize(off, 0);
                let mut out = b.clone();
                out[32..32 + off].copy_from_slice(&data);
                (out, p)
            }
            What::Bytes(v, mode) => {
                let mut b = vec![];
                if *mode > 0 {
                    b = start_header(4, 0, v.len() as u64, crc32(v)).to_vec();
                }
                if *mode > 1 {
                    b[8..32].fill(0);
                }
                b.extend_from_slice(v);
                if *mode > 2 {
                    b.truncate(v.len());
                }
                (b, "pw".into())
            }
        })
    }
}
fn what(max: u32) -> BoxedStrategy<What> {
    let edits = |n: usize| prop::collection::vec(edit(), 1..n);
    prop_oneof![
        4 => (g_arch(max, true), prop::collection::vec((prop::bool::weighted(0.3), any::<u16>(), num()), 1..4)).prop_map(|(g, m)| What::Numbers(g, m)),
        4 => (g_arch(max, true), edits(6), 0u8..4).prop_map(|(g, e, h)| What::Header(g, e, h)),
        6 => (random(), prop_oneof![3 => Just(0u8), 1 => 1u8..4]).prop_map(|(r, h)| What::Random(r, h)),
        2 => random().prop_map(What::Stub),
        1 => (any_arch(max, true), prop::option::of(num()), prop::option::of(num()), prop::option::of(any::<u32>()), prop::bool::weighted(0.9))
            .prop_map(|(a, o, s, c, r)| What::Start(a, o, s, c, r)),
        3 => (any_arch(max, true), edits(5), prop::bool::weighted(0.4)).prop_map(|(a, e, l)| What::File(a, e, l)),
        4 => (any_arch(max, true), edits(5)).prop_map(|(a, e)| What::Streams(a, e)),
        1 => (prop::collection::vec(prop_oneof![any::<u8>(), 0u8..26], 0..120), 0u8..4).prop_map(|(v, m)| What::Bytes(v, m)),
    ]
    .boxed()
}
fn hostile(max: u32) -> BoxedStrategy<Hostile> {
    (what(max), prop::bool::weighted(0.85), prop::bool::weighted(0.3), splits())
        .prop_map(|(what, password, go_on, src)| Hostile { what, password, go_on, src })
        .boxed()
}

// ------------------------------------------------------------------------------------- exercise
fn read_num(b: &[u8], at: &mut usize) -> Option<u64> {
    let first = *b.get(*at)? as u64;
    *at += 1;
    let mut mask = 0x80u64;
    let mut v = 0u64;
    for i in 0..8 {
        if first & mask == 0 {
            return Some(v | ((first & (mask - 1)) << (8 * i)));
        }
        v |= (*b.get(*at)? as u64) << (8 * i);
        *at += 1;
        mask >>= 1;
    }
    Some(v)
}
/// Sum of the dictionary sizes which LZMA and LZMA2 coders anywhere in the bytes declare.
fn declared(b: &[u8]) -> u64 {
    let mut sum = 0u64;
    for i in 0..b.len() {
        let n = if b[i..].starts_with(&[3, 1, 1]) {
            3
        } else if b[i] == 0x21 && i > 0 && b[i - 1] & 0xf == 1 {
            1
        } else {
            continue;
        };
        let mut best = 0u64;
        for complex in [false, true] {
            let mut at = i + n;
            if complex && (read_num(b, &mut at).is_none() || read_num(b, &mut at).is_none()) {
                continue;
            }
            let Some(size) = read_num(b, &mut at) else { continue };
            let Some(p) = b.get(at..) else { continue };
            let d = if n == 3 && size >= 5 && p.len() >= 5 {
                u32::from_le_bytes(p[1..5].try_into().unwrap()) as u64
            } else if n == 1 && size >= 1 && !p.is_empty() {
                lzma2_prop_dict(p[0]).unwrap_or(0)
            } else {
                0
            };
            best = best.max(d);
        }
        sum += best;
    }
    sum
}
fn folder_dicts(a: &Archive, i: usize) -> u64 {
    a.folders[i]
        .coders
        .iter()
        .map(|c| match c.decompression_method_id() {
            [3, 1, 1] if c.properties.len() >= 5 => u32::from_le_bytes(c.properties[1..5].try_into().unwrap()) as u64,
            [0x21] if !c.properties.is_empty() => lzma2_prop_dict(c.properties[0]).unwrap_or(0),
            _ => 0,
        })
        .sum()
}
pub struct Outcome {
    pub opened: bool,
    pub read_any: bool,
    pub complete: bool,
}
/// Opens the bytes and reads everything in them, within limits.
pub fn exercise(bytes: &[u8], password: &str, src: &Splits, go_on: bool, cap: u64) -> Result<Outcome, String> {
    // a header is parsed into records; the factor is what the record of an entry without any data
    // of its own (one bit in the header) takes
    let base = 64 * MIB + 2_000 * bytes.len() as u64;
    let limit = base + declared(bytes).saturating_mul(2);
    let pass = utf16(password);
    let mut out = Outcome { opened: false, read_any: false, complete: false };
    let mut s = ShortReader::new(bytes.to_vec(), src.clone());
    let a = no_panic(|| with_mem_limit(limit, || Archive::read(&mut s, bytes.len() as u64, &pass)))?;
    let a = match a {
        Ok(a) => a,
        Err(_) => {
            // the same through the reader
            let r = no_panic(|| with_mem_limit(limit, || SevenZReader::new(ShortReader::new(bytes.to_vec(), src.clone()), bytes.len() as u64, crate::arc::pw(password)).is_ok()))?;
            if r {
                return Err("SevenZReader opens what Archive::read refuses".into());
            }
            return Ok(out);
        }
    };
    out.opened = true;
    let total = std::cell::Cell::new(0u64);
    let calls = std::cell::Cell::new(0u64);
    let mut buf = vec![0u8; 1 << 15];
    let any = std::cell::Cell::new(false);
    let mut cb = |e: &SevenZArchiveEntry, rd: &mut dyn Read| -> Result<bool, Error> {
        calls.set(calls.get() + 1);
        let mut got = 0u64;
        loop {
            match rd.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => {
                    if n > buf.len() {
                        return Err(Error::other("HARNESS more bytes than asked for"));
                    }
                    any.set(true);
                    got += n as u64;
                    if got > e.size() {
                        return Err(Error::other("HARNESS more bytes than the entry has"));
                    }
                    total.set(total.get() + n as u64);
                    if total.get() > cap {
                        return Err(Error::other("HARNESS-CAP"));
                    }
                }
                Err(er) if er.kind() == io::ErrorKind::Interrupted => continue,
                Err(er) => {
                    if !go_on {
                        return Err(Error::io(er));
                    }
                    // a reader may be asked again after an error
                    let mut b = [0u8; 100];
                    for _ in 0..3 {
                        let _ = rd.read(&mut b);
                    }
                    break;
                }
            }
        }
        Ok(true)
    };
    let judge = |e: &Error| -> Result<(), String> {
        let s = format!("{e:?}");
        if s.contains("HARNESS more") {
            return Err(s);
        }
        Ok(())
    };
    let most = (0..a.folders.len()).map(|i| folder_dicts(&a, i)).max().unwrap_or(0);
    let limit = base + most.saturating_mul(2);
    let entries = a.files.len();
    let mut r = SevenZReader::from_archive(a.clone(), ShortReader::new(bytes.to_vec(), src.clone()), crate::arc::pw(password));
    let res = no_panic(|| with_mem_limit(limit, || r.for_each_entries(&mut cb)))?;
    if let Err(e) = &res {
        judge(e)?;
    } else {
        if calls.get() != entries as u64 {
            return Err(format!("iteration succeeds with {} calls for {entries} entries", calls.get()));
        }
        out.complete = true;
    }
    for i in 0..a.folders.len().min(40) {
        total.set(0);
        let limit = base + folder_dicts(&a, i).saturating_mul(2);
        let mut s = ShortReader::new(bytes.to_vec(), src.clone());
        let res = no_panic(|| {
            with_mem_limit(limit, || {
                let d = BlockDecoder::new(i, &a, &pass, &mut s);
                if d.entry_count() != d.entries().len() {
                    return Err(Error::other("HARNESS more entries than counted"));
                }
                d.for_each_entries(&mut cb)
            })
        })?;
        if let Err(e) = &res {
            judge(e)?;
        }
    }
    out.read_any = any.get();
    Ok(out)
}
fn c12_one(c: &Hostile, o: &Obs) -> Result<(), String> {
    let (bytes, p) = c.build()?;
    o.label(match &c.what {
        What::Numbers(..) => "number in the header replaced",
        What::Header(..) => "header edited",
        What::Random(..) => "random header",
        What::Stub(..) => "random description of a packed header",
        What::Start(..) => "start header changed",
        What::File(_, _, true) => "file edited, start header lost",
        What::File(..) => "file edited",
        What::Streams(..) => "packed streams edited",
        What::Bytes(..) => "random bytes",
    });
    let r = exercise(&bytes, if c.password { &p } else { "" }, &c.src, c.go_on, 4 * MIB)?;
    o.label(match (r.opened, r.read_any, r.complete) {
        (false, ..) => "refused on opening",
        (true, false, false) => "opened, nothing readable",
        (true, true, false) => "opened, part of the content read",
        (true, _, true) => "opened and read to the end",
    });
    o.nontrivial(bytes.len() >= 32 && (r.opened || matches!(c.what, What::Numbers(..) | What::Header(..) | What::Random(..) | What::Stub(..))));
    Ok(())
}
pub fn c12(cx: &Ctx) {
    cx.rule("the archive opens, or the case is a structural change inside a header whose checksums are right");
    cx.assume("memory is compared with 64 MiB + 2000 bytes per byte of the file + twice the LZMA/LZMA2 dictionaries declared; memory of the C libraries behind bzip2 and zstd is not counted");
    cx.assume("content is read up to 4 MiB per iteration");
    cx.cpu_limit(30);
    cx.run("small", cx.n(300_000, 3_000_000), || hostile(300), c12_one);
    cx.run("medium", cx.n(20_000, 100_000), || hostile(20_000), c12_one);
}
