//! C20, C21: file trees. The library runs in a child of this process with an unprivileged user's rights, a limit on
//! the size of files, and a scratch directory of its own (`--jail`); this process makes the trees and compares.
use crate::arc::pw;
use crate::fw::{no_panic, Ctx, Obs};
use crate::util::*;
use crate::writing::{aes_method, WM};
use crate::z7::{hdr_opts, Chain, GArch, GBlock, GEmpty, GEntry, HdrOpts, Meta, M};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sevenz_rust::{default_entry_extract_fn, Archive, Error, Password, SevenZArchiveEntry, SevenZReader, SevenZWriter};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::OnceLock;
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

// ------------------------------------------------------------------------------------------ the jail
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    src: PathBuf,
    solid: bool,
    /// paths, relative to the source, which the filter rejects
    reject: Vec<String>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    Whole { how: u8, src: PathBuf, dest: PathBuf, password: Option<String> },
    Push { methods: Option<Vec<WM>>, clear_header: bool, steps: Vec<Step>, dest: PathBuf, password: String },
    /// entry by entry: path and name, and the sizes of the batches (0: a push of its own)
    Entries { methods: Option<Vec<WM>>, items: Vec<(PathBuf, String)>, batch: Vec<u8>, deprecated: bool, dest: PathBuf, password: String },
    Extract { how: u8, src: PathBuf, dest: PathBuf, password: Option<String> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Job {
    cwd: PathBuf,
    act: Act,
    /// the largest size a file may reach meanwhile
    limit: Option<u64>,
}

fn act(a: &Act) -> Result<(), Error> {
    let p = |s: &Option<String>| s.as_ref().map(|s| pw(s)).unwrap_or(Password::empty());
    match a {
        Act::Whole { how, src, dest, password } => match how {
            0 => sevenz_rust::compress(src, fs::File::create(dest)?).map(|_| ()),
            1 => sevenz_rust::compress_to_path(src, dest),
            2 => sevenz_rust::compress_encypted(src, fs::File::create(dest)?, p(password)).map(|_| ()),
            _ => sevenz_rust::compress_to_path_encrypted(src, dest, p(password)),
        },
        Act::Push { methods, clear_header, steps, dest, password } => {
            let mut z = SevenZWriter::create(dest)?;
            if *clear_header {
                z.set_encrypt_header(false);
            }
            if let Some(m) = methods {
                z.set_content_methods(m.iter().map(|m| m.config(password)).collect());
            }
            for s in steps {
                let stray = RefCell::new(None);
                let filter = |q: &Path| match q.strip_prefix(&s.src) {
                    Ok(rel) => !s.reject.iter().any(|r| Path::new(r) == rel),
                    Err(_) => {
                        *stray.borrow_mut() = Some(q.to_path_buf());
                        true
                    }
                };
                if s.solid {
                    z.push_source_path(&s.src, filter)?;
                } else {
                    z.push_source_path_non_solid(&s.src, filter)?;
                }
                if let Some(q) = stray.into_inner() {
                    return Err(Error::other(format!("filter was asked about {q:?}, which is not below the source")));
                }
            }
            z.finish()?;
            Ok(())
        }
        Act::Entries { methods, items, batch, deprecated, dest, password } => {
            let mut z = SevenZWriter::create(dest)?;
            if let Some(m) = methods {
                z.set_content_methods(m.iter().map(|m| m.config(password)).collect());
            }
            #[allow(deprecated)]
            let entry = |p: &PathBuf, n: &str| {
                if *deprecated {
                    SevenZWriter::<fs::File>::create_archive_entry(p, n.to_string())
                } else {
                    SevenZArchiveEntry::from_path(p, n.to_string())
                }
            };
            let (mut i, mut k) = (0, 0);
            while i < items.len() {
                let n = batch.get(k % batch.len().max(1)).copied().unwrap_or(0) as usize;
                k += 1;
                if n == 0 || items[i].0.is_dir() {
                    let (p, name) = &items[i];
                    z.push_archive_entry(entry(p, name), if p.is_dir() { None } else { Some(fs::File::open(p)?) })?;
                    i += 1;
                    continue;
                }
                let files: Vec<_> = items[i..].iter().take(n).take_while(|x| !x.0.is_dir()).collect();
                let mut readers: Vec<sevenz_rust::SourceReader<fs::File>> = vec![];
                for x in &files {
                    readers.push(fs::File::open(&x.0)?.into());
                }
                z.push_archive_entries(files.iter().map(|x| entry(&x.0, &x.1)).collect(), sevenz_rust::SeqReader::new(readers))?;
                i += files.len();
            }
            z.finish()?;
            Ok(())
        }
        Act::Extract { how, src, dest, password } => {
            let bad = RefCell::new(None);
            let f = |e: &SevenZArchiveEntry, r: &mut dyn Read, to: &PathBuf| {
                if e.name().split('/').all(|c| !c.is_empty() && c != "." && c != "..") && *to != dest.join(e.name()) {
                    *bad.borrow_mut() = Some((e.name().to_string(), to.clone()));
                }
                default_entry_extract_fn(e, r, to)
            };
            match how {
                0 => sevenz_rust::decompress(fs::File::open(src)?, dest),
                1 => sevenz_rust::decompress_file(src, dest),
                2 => sevenz_rust::decompress_with_password(fs::File::open(src)?, dest, p(password)),
                3 => sevenz_rust::decompress_file_with_password(src, dest, p(password)),
                4 => sevenz_rust::decompress_with_extract_fn(io::Cursor::new(fs::read(src)?), dest, f),
                5 => sevenz_rust::decompress_file_with_extract_fn(src, dest, f),
                6 => sevenz_rust::decompress_with_extract_fn_and_password(fs::File::open(src)?, dest, p(password), f),
                8 => {
                    let password = p(password);
                    let a = sevenz_rust::Archive::open_with_password(src, &password)?;
                    let mut file = fs::File::open(src)?;
                    fs::create_dir_all(dest)?;
                    let mut some = |e: &SevenZArchiveEntry, r: &mut dyn Read| f(e, r, &dest.join(e.name()));
                    for i in 0..a.folders.len() {
                        sevenz_rust::BlockDecoder::new(i, &a, password.as_slice(), &mut file).for_each_entries(&mut some)?;
                    }
                    for e in a.files.iter().filter(|e| !e.has_stream()) {
                        some(e, &mut io::empty())?;
                    }
                    Ok(())
                }
                _ => {
                    let mut r = SevenZReader::open(src, p(password))?;
                    fs::create_dir_all(dest)?;
                    r.for_each_entries(|e, r| default_entry_extract_fn(e, r, &dest.join(e.name())))
                }
            }?;
            match bad.into_inner() {
                Some((n, p)) => Err(Error::other(format!("entry {n:?} was given the path {p:?}"))),
                None => Ok(()),
            }
        }
    }
}
/// Writing beyond that size is an error from now on.
fn file_limit(n: Option<u64>) {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        assert_eq!(libc::getrlimit(libc::RLIMIT_FSIZE, &mut l), 0);
        l.rlim_cur = n.unwrap_or(l.rlim_max);
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &l), 0);
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
}
/// What the child does; true if this process is one.
pub fn jail() -> bool {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 3 || a[1] != "--jail" {
        return false;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let jobs: Vec<Job> = serde_json::from_slice(&fs::read(&a[2]).expect("jobs")).expect("jobs");
    let mut out: Vec<Option<String>> = vec![];
    for j in jobs {
        std::env::set_current_dir(&j.cwd).expect("cwd");
        file_limit(j.limit);
        let r = no_panic(|| act(&j.act));
        file_limit(None);
        match r {
            Ok(r) => out.push(r.err().map(|e| format!("{e:?}"))),
            Err(p) => {
                eprintln!("panic: {p}");
                std::process::exit(7);
            }
        }
    }
    println!("{}", serde_json::to_string(&out).unwrap());
    true
}

const NOBODY: u32 = 65534;
static BASE: OnceLock<PathBuf> = OnceLock::new();
static COUNT: AtomicU64 = AtomicU64::new(0);
/// A directory for this process, with a copy of this program that anyone may run.
fn base() -> &'static PathBuf {
    BASE.get_or_init(|| {
        let t = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_nanos();
        let d = PathBuf::from(format!("/tmp/pbt-{}-{}", std::process::id(), t));
        fs::create_dir(&d).expect("scratch directory");
        chmod(&d, 0o755);
        fs::copy("/proc/self/exe", d.join("pbt")).expect("copy of this program");
        chmod(&d.join("pbt"), 0o755);
        d
    })
}
fn clean_up() {
    if let Some(d) = BASE.get() {
        let _ = fs::remove_dir_all(d);
    }
}
fn chmod(p: &Path, mode: u32) {
    fs::set_permissions(p, fs::Permissions::from_mode(mode)).expect("chmod");
}
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let d = base().join(COUNT.fetch_add(1, SeqCst).to_string());
        fs::create_dir(&d).expect("scratch directory");
        chmod(&d, 0o755);
        Scratch(d)
    }
    fn dir(&self, rel: &str) -> PathBuf {
        let d = self.0.join(rel);
        fs::create_dir_all(&d).expect("scratch directory");
        chmod(&d, 0o777);
        d
    }
    /// Runs the jobs without rights, and tells how each ended.
    fn run(&self, jobs: &[Job]) -> Result<Vec<Option<String>>, String> {
        let spec = self.0.join("jobs.json");
        fs::write(&spec, serde_json::to_vec(jobs).unwrap()).unwrap();
        let mut c = std::process::Command::new(base().join("pbt"));
        c.arg("--jail").arg(&spec).env_clear().current_dir("/");
        c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
        if unsafe { libc::geteuid() } == 0 {
            c.uid(NOBODY).gid(NOBODY);
        }
        unsafe {
            c.pre_exec(|| {
                let lim = |what, v| libc::setrlimit(what, &libc::rlimit { rlim_cur: v, rlim_max: v });
                lim(libc::RLIMIT_CPU, 60);
                lim(libc::RLIMIT_FSIZE, 256 << 20);
                lim(libc::RLIMIT_CORE, 0);
                libc::umask(0o022);
                Ok(())
            });
        }
        let mut ch = c.spawn().expect("jail");
        let t = Instant::now();
        let status = loop {
            match ch.try_wait().expect("wait") {
                Some(s) => break s,
                None if t.elapsed() > Duration::from_secs(200) => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Err("the operation did not end".into());
                }
                None => std::thread::sleep(Duration::from_micros(300)),
            }
        };
        let mut out = String::new();
        let mut err = String::new();
        ch.stdout.take().unwrap().read_to_string(&mut out).unwrap();
        ch.stderr.take().unwrap().read_to_string(&mut err).unwrap();
        if !status.success() {
            return Err(format!("the process ended with {status}: {}", err.trim()));
        }
        serde_json::from_str(&out).map_err(|e| format!("no result ({e}): {out} {err}"))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

// ------------------------------------------------------------------------------------------ trees
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Node {
    File { name: String, data: Data, time: (i64, u32) },
    Dir { name: String, items: Vec<Node> },
}
#[derive(Clone, Debug, PartialEq)]
struct FileIs {
    data: Vec<u8>,
    time: SystemTime,
}
#[derive(Clone, Debug, Default)]
struct Tree {
    files: BTreeMap<String, FileIs>,
    dirs: BTreeSet<String>,
}
impl Node {
    fn make(&self, at: &Path, used: &mut BTreeSet<String>) {
        let (Node::File { name, .. } | Node::Dir { name, .. }) = self;
        let mut n: String = name.chars().filter(|c| *c != '\0' && *c != '/').collect();
        while n.len() > 200 {
            n.pop();
        }
        if n.is_empty() || n == "." || n == ".." {
            n.push('_');
        }
        let mut i = 0;
        while !used.insert(n.clone()) {
            i += 1;
            n = format!("{n}{i}");
        }
        let p = at.join(&n);
        match self {
            Node::File { data, time, .. } => {
                let mut f = fs::File::create(&p).expect("file of the tree");
                f.write_all(&data.bytes()).unwrap();
                let t = if time.0 < 0 {
                    UNIX_EPOCH - Duration::from_secs(time.0.unsigned_abs()) + Duration::from_nanos(time.1 as u64)
                } else {
                    UNIX_EPOCH + Duration::new(time.0 as u64, time.1)
                };
                f.set_times(fs::FileTimes::new().set_modified(t)).unwrap();
                chmod(&p, 0o644);
            }
            Node::Dir { items, .. } => {
                fs::create_dir(&p).expect("directory of the tree");
                chmod(&p, 0o755);
                let mut used = BTreeSet::new();
                for i in items {
                    i.make(&p, &mut used);
                }
            }
        }
    }
}
/// What is below a directory; names are relative to it.
fn look(root: &Path) -> Result<Tree, String> {
    fn go(p: &Path, rel: &str, t: &mut Tree) -> Result<(), String> {
        for e in fs::read_dir(p).map_err(|e| format!("{p:?}: {e}"))? {
            let e = e.map_err(|e| e.to_string())?;
            let n = e.file_name().into_string().map_err(|n| format!("a name is not UTF-8: {n:?}"))?;
            let n = if rel.is_empty() { n } else { format!("{rel}/{n}") };
            let k = e.file_type().map_err(|e| e.to_string())?;
            if k.is_dir() {
                t.dirs.insert(n.clone());
                go(&e.path(), &n, t)?;
            } else if k.is_file() {
                let m = e.metadata().map_err(|e| e.to_string())?;
                let data = fs::read(e.path()).map_err(|e| e.to_string())?;
                t.files.insert(n, FileIs { data, time: m.modified().unwrap() });
            } else {
                return Err(format!("{n:?} is neither a file nor a directory"));
            }
        }
        Ok(())
    }
    let mut t = Tree::default();
    go(root, "", &mut t)?;
    Ok(t)
}
fn apart(a: SystemTime, b: SystemTime) -> Duration {
    a.duration_since(b).unwrap_or_else(|e| e.duration())
}
fn compare(got: &Tree, want: &Tree) -> Result<(), String> {
    for (n, w) in &want.files {
        let g = got.files.get(n).ok_or_else(|| format!("file {n:?} is missing after extraction"))?;
        same(&format!("content of {n:?}"), &g.data, &w.data)?;
        if apart(g.time, w.time) >= Duration::from_nanos(100) {
            return Err(format!("file {n:?} was modified at {:?}, after extraction at {:?}", w.time, g.time));
        }
    }
    if let Some(n) = got.files.keys().find(|n| !want.files.contains_key(*n)) {
        return Err(format!("extraction made the file {n:?}, which is not in the tree"));
    }
    if got.dirs != want.dirs {
        return Err(format!("directories {:?} instead of {:?}", got.dirs, want.dirs));
    }
    Ok(())
}
fn parents(n: &str) -> impl Iterator<Item = &str> {
    n.char_indices().filter(|(_, c)| *c == '/').map(move |(i, _)| &n[..i])
}

// ------------------------------------------------------------------------------------------ C20
fn file_name() -> BoxedStrategy<String> {
    let ch = prop_oneof![
        8 => proptest::char::range('a', 'c'),
        3 => prop::sample::select(vec![' ', '.', '-', '~', '\\', ':', '*', '?', '"', '\'', '%', '\n', '\t', '\u{7f}', '$', '|', '<']),
        2 => proptest::char::range('\u{80}', '\u{2fff}'),
        1 => proptest::char::range('\u{1f300}', '\u{1f6ff}'),
        1 => any::<char>(),
    ];
    prop_oneof![
        8 => pvec(ch.clone(), 1..8),
        // the same name again and again, in different places
        4 => prop::sample::select(vec!["a", "a", "a", "b"]).prop_map(|s| s.chars().collect()),
        1 => pvec(ch, 40..120),
        1 => prop::sample::select(vec!["..a", "...", ".hidden", "a.7z", "a b", " a", "a ", "a.", "e\u{301}", "\u{e9}", "A", "CON", "-", "\u{fffd}", "\u{feff}a"]).prop_map(|s| s.chars().collect()),
    ]
    .prop_map(|v| v.into_iter().collect())
    .boxed()
}
fn moment() -> BoxedStrategy<(i64, u32)> {
    let secs = prop_oneof![
        3 => 0i64..2_000_000_000,
        1 => -2_000_000_000i64..0,
        1 => -11_644_473_599i64..15_000_000_000,
        1 => prop::sample::select(vec![0i64, -1, 1, i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64, u32::MAX as i64 + 1, i32::MIN as i64]),
    ];
    let nanos = prop_oneof![1 => Just(0u32), 1 => Just(999_999_999), 1 => (0u32..10_000_000).prop_map(|n| n * 100), 2 => 0u32..1_000_000_000];
    (secs, nanos).boxed()
}
fn content(max: u32) -> BoxedStrategy<Data> {
    prop_oneof![
        2 => Just(Data(vec![])),
        6 => data(max.min(3000)),
        2 => data(max),
        2 => (8190u32..8195, any::<u8>()).prop_map(|(n, b)| Data(vec![Seg::Ramp(b, n)])),
    ]
    .boxed()
}
fn node(max: u32) -> BoxedStrategy<Node> {
    let leaf = prop_oneof![
        6 => (file_name(), content(max), moment()).prop_map(|(name, data, time)| Node::File { name, data, time }),
        1 => file_name().prop_map(|name| Node::Dir { name, items: vec![] }),
    ];
    leaf.prop_recursive(5, 8, 4, |n| (file_name(), pvec(n, 0..4)).prop_map(|(name, items)| Node::Dir { name, items })).boxed()
}
/// Now and then a chain of directories with one file at its end.
fn nodes(max: u32) -> BoxedStrategy<Vec<Node>> {
    prop_oneof![
        12 => pvec(node(max), 0..5),
        1 => (pvec(file_name(), 5..25), node(max)).prop_map(|(v, n)| vec![v.into_iter().fold(n, |n, name| Node::Dir { name: name.chars().take(8).collect(), items: vec![n] })]),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PushHow {
    methods: Option<Vec<WM>>,
    clear_header: bool,
    /// per file and directory: rejected by all filters / left to a second push
    reject: Vec<bool>,
    second: Vec<bool>,
    solid: [bool; 2],
    reject_root: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum How {
    Whole(u8),
    Push(PushHow),
    Entries { methods: Option<Vec<WM>>, batch: Vec<u8>, deprecated: bool, order: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TreeCase {
    root: String,
    items: Vec<Node>,
    /// take only this file as the source, not the tree
    single: Option<u16>,
    src_form: u8,
    how: How,
    password: Option<String>,
    arc_form: u8,
    extract: u8,
    dest_form: u8,
    /// files that exist before extraction, with other content
    stale: Vec<bool>,
}
fn cheap_methods() -> BoxedStrategy<Option<Vec<WM>>> {
    let c = prop_oneof![3 => (4096u32..100_000).prop_map(WM::Lzma2Num), 2 => (4096u32..100_000).prop_map(WM::LzmaNum)];
    prop_oneof![
        1 => Just(None),
        5 => c.clone().prop_map(|c| Some(vec![c])),
        3 => (aes_method(), c).prop_map(|(a, c)| Some(vec![a, c])),
        1 => aes_method().prop_map(|a| Some(vec![a])),
    ]
    .boxed()
}
fn tree_case(max: u32) -> BoxedStrategy<TreeCase> {
    let some = |w: u32| prop_oneof![1 => Just(vec![]), 1 => pvec(prop::bool::weighted(w as f64 / 100.0), 1..12)];
    let push = (cheap_methods(), prop::bool::weighted(0.2), some(25), some(40), any::<[bool; 2]>(), prop::bool::weighted(0.03))
        .prop_map(|(methods, clear_header, reject, second, solid, reject_root)| PushHow { methods, clear_header, reject, second, solid, reject_root });
    let entries = (cheap_methods(), prop_oneof![1 => Just(vec![]), 2 => pvec(0u8..6, 1..5)], any::<bool>(), any::<u64>())
        .prop_map(|(methods, batch, deprecated, order)| How::Entries { methods, batch, deprecated, order });
    let how = prop_oneof![2 => (0u8..4).prop_map(How::Whole), 3 => push.prop_map(How::Push), 1 => entries];
    (
        (file_name(), nodes(max), prop_oneof![5 => Just(None), 1 => any::<u16>().prop_map(Some)], 0u8..7),
        (how, prop_oneof![1 => Just(None), 3 => crate::z7::password().prop_map(Some)]),
        (0u8..4, 0u8..9, 0u8..9, prop_oneof![2 => Just(vec![]), 1 => pvec(any::<bool>(), 1..8)]),
    )
        .prop_map(|((root, items, single, src_form), (how, password), (arc_form, extract, dest_form, stale))| TreeCase {
            root,
            items,
            single,
            src_form,
            how,
            password,
            arc_form,
            extract,
            dest_form,
            stale,
        })
        .boxed()
}
fn c20_one(c: &TreeCase, o: &Obs) -> Result<(), String> {
    let s = Scratch::new();
    let password = c.password.clone().filter(|p| !p.is_empty()).unwrap_or("secret".into());
    let src = s.dir("src");
    Node::Dir { name: c.root.clone(), items: c.items.clone() }.make(&src, &mut BTreeSet::new());
    let root = fs::read_dir(&src).unwrap().next().unwrap().unwrap();
    let root_name = root.file_name();
    let root = root.path();
    let before = look(&root)?;

    // the source
    let one = match c.single {
        Some(i) if !before.files.is_empty() => Some(before.files.keys().nth(i as usize % before.files.len()).unwrap().clone()),
        _ => None,
    };
    let mut path = root.clone();
    if let Some(n) = &one {
        path = path.join(n);
    }
    let rel = path.strip_prefix(&src).unwrap().to_path_buf();
    let add = |p: &Path, t: &str| PathBuf::from(format!("{}{t}", p.to_str().unwrap()));
    let (src_cwd, path) = match (c.src_form, one.is_some()) {
        (0, _) | (1, true) => (s.0.clone(), path),
        (1, _) => (s.0.clone(), add(&path, "/")),
        (2, _) => (src.clone(), rel),
        (3, _) => (src.clone(), Path::new(".").join(rel)),
        (4, true) | (5, true) => (path.parent().unwrap().to_path_buf(), PathBuf::from(path.file_name().unwrap())),
        (4, _) => (root.clone(), PathBuf::from(".")),
        (5, _) => (src.clone(), add(&rel, "/.")),
        (_, _) => (root.clone(), Path::new("..").join(&root_name).join(rel.strip_prefix(&root_name).unwrap())),
    };

    // the archive
    let arc = s.dir("arc");
    let make_parent = matches!(c.how, How::Whole(1 | 3));
    let file = match c.arc_form {
        0 => arc.join("a.7z"),
        1 | 2 if make_parent => arc.join("n1/n2 x/a.7z"),
        3 if c.src_form < 2 => PathBuf::from("arc/a"),
        _ => arc.join("\u{e4} b"),
    };
    let mut want = Tree::default();
    let compress = match &c.how {
        How::Whole(h) => {
            o.label(["compress", "compress_to_path", "compress_encypted", "compress_to_path_encrypted"][*h as usize]);
            match &one {
                Some(n) => {
                    want.files.insert(n.rsplit('/').next().unwrap().to_string(), before.files[n].clone());
                }
                None => want = before.clone(),
            }
            Act::Whole { how: *h, src: path.clone(), dest: file.clone(), password: c.password.clone() }
        }
        How::Entries { methods, batch, deprecated, order } => {
            o.label("entry by entry");
            want = match &one {
                Some(n) => Tree { files: [(n.rsplit('/').next().unwrap().to_string(), before.files[n].clone())].into(), ..Default::default() },
                None => before.clone(),
            };
            let at = |n: &String| if one.is_some() { path.clone() } else { path.join(n) };
            let mut items: Vec<(PathBuf, String)> = want.dirs.iter().chain(want.files.keys()).map(|n| (at(n), n.clone())).collect();
            let mut r = crate::util::Rng::new(*order);
            for i in (1..items.len()).rev() {
                items.swap(i, (r.next() % (i as u64 + 1)) as usize);
            }
            Act::Entries { methods: methods.clone(), items, batch: batch.clone(), deprecated: *deprecated, dest: file.clone(), password: password.clone() }
        }
        How::Push(p) => {
            o.label_if(p.solid[0], "solid");
            o.label_if(!p.solid[0], "non-solid");
            let pick = |v: &[bool], i: usize| !v.is_empty() && v[i % v.len()];
            let mut rejected: Vec<String> = vec![];
            let mut second: Vec<String> = vec![];
            match &one {
                Some(n) => {
                    if !p.reject_root {
                        want.files.insert(n.rsplit('/').next().unwrap().to_string(), before.files[n].clone());
                    }
                }
                None => {
                    let all: Vec<(&String, bool)> = before.files.keys().map(|n| (n, true)).chain(before.dirs.iter().map(|n| (n, false))).collect();
                    for (i, (n, file)) in all.iter().enumerate() {
                        if pick(&p.reject, i) {
                            rejected.push(n.to_string());
                        } else if *file && pick(&p.second, i) {
                            second.push(n.to_string());
                        }
                    }
                    let gone = |n: &str| p.reject_root || rejected.iter().any(|r| r == n) || parents(n).any(|q| rejected.iter().any(|r| r == q));
                    for (n, f) in &before.files {
                        if !gone(n) {
                            want.files.insert(n.clone(), f.clone());
                        }
                    }
                }
            }
            o.label_if(!rejected.is_empty() && !want.files.is_empty(), "filtered");
            if p.reject_root {
                rejected.push(String::new());
            }
            for n in want.files.keys() {
                want.dirs.extend(parents(n).map(|s| s.to_string()));
            }
            let mut steps = vec![];
            if second.is_empty() {
                steps.push(Step { src: path.clone(), solid: p.solid[0], reject: rejected });
            } else {
                o.label("two pushes");
                let first: Vec<String> = before.files.keys().filter(|n| !second.contains(n)).cloned().collect();
                steps.push(Step { src: path.clone(), solid: p.solid[0], reject: [rejected.clone(), second].concat() });
                steps.push(Step { src: path.clone(), solid: p.solid[1], reject: [rejected, first].concat() });
            }
            Act::Push {
                methods: p.methods.clone(),
                clear_header: p.clear_header,
                steps,
                dest: file.clone(),
                password: password.clone(),
            }
        }
    };
    let encrypted = match &c.how {
        How::Whole(h) => *h >= 2 && c.password.as_ref().map_or(false, |p| !p.is_empty()),
        How::Entries { methods, .. } => methods.iter().flatten().any(|m| m.is_aes()),
        How::Push(p) => p.methods.iter().flatten().any(|m| m.is_aes()),
    };
    o.label_if(encrypted, "encrypted");
    o.label_if(one.is_some(), "single file");
    o.label_if(want.dirs.iter().any(|d| !want.files.keys().any(|f| f.starts_with(&format!("{d}/")))), "empty directory");
    o.nontrivial(want.files.len() + want.dirs.len() >= 2);

    // the destination
    let out = s.dir("out");
    let (out_cwd, dest, full) = match c.dest_form {
        0 => (s.0.clone(), out.clone(), out.clone()),
        1 => (s.0.clone(), out.join("x"), out.join("x")),
        2 => (s.0.clone(), out.join("x/y \u{df}/z"), out.join("x/y \u{df}/z")),
        3 => (s.0.clone(), add(&out, "/x/"), out.join("x")),
        4 => (out.clone(), PathBuf::from("."), out.clone()),
        5 => (out.clone(), PathBuf::from("x"), out.join("x")),
        6 => (out.clone(), PathBuf::from("./x/y"), out.join("x/y")),
        7 => (s.0.clone(), PathBuf::from("out/"), out.clone()),
        _ => (s.dir("out/w"), PathBuf::from("../x"), out.join("x")),
    };
    let mut fresh = true;
    if c.dest_form != 4 && c.dest_form != 8 {
        for (i, n) in want.files.keys().enumerate() {
            if !c.stale.is_empty() && c.stale[i % c.stale.len()] {
                let p = full.join(n);
                let mut made = p.parent().unwrap().to_path_buf();
                fs::create_dir_all(&made).unwrap();
                while made.starts_with(&out) {
                    chmod(&made, 0o777);
                    made.pop();
                }
                fs::write(&p, vec![0x55; want.files[n].data.len() + 777]).unwrap();
                std::os::unix::fs::chown(&p, Some(NOBODY), Some(NOBODY)).expect("chown");
                fresh = false;
            }
        }
    }
    o.label_if(!fresh, "over existing files");
    let how = if encrypted { [2, 3, 6, 7, 8][c.extract as usize % 5] } else { c.extract };
    let extract = Act::Extract { how, src: s.0.join(&file), dest: dest.clone(), password: if matches!(c.how, How::Whole(_)) { c.password.clone() } else { Some(password) } };

    let r = s.run(&[Job { cwd: src_cwd, act: compress, limit: None }, Job { cwd: out_cwd, act: extract, limit: None }])?;
    if let Some(e) = &r[0] {
        return Err(format!("compressing {path:?} failed: {e}"));
    }
    if let Some(e) = &r[1] {
        return Err(format!("extracting to {dest:?} failed: {e}"));
    }
    compare(&look(&full)?, &want)?;
    // and the source is as it was
    compare(&look(&root)?, &before).map_err(|e| format!("the source has changed: {e}"))
}


/// Sizes around the 4 GiB at which a solid push starts a new block; the files have holes for content.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    sizes: Vec<u64>,
}
/// Keeps the first bytes and the last ones written, and forgets what is between them.
#[derive(Default)]
struct Hole {
    pos: u64,
    len: u64,
    head: [u8; 32],
    /// what was written last, without a gap, and where it starts
    tail: Vec<u8>,
    tail_at: u64,
}
impl Write for Hole {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.pos < 32 {
            let n = b.len().min(32 - self.pos as usize);
            self.head[self.pos as usize..][..n].copy_from_slice(&b[..n]);
            self.pos += n as u64;
            self.len = self.len.max(self.pos);
            return Ok(n);
        }
        if self.pos != self.tail_at + self.tail.len() as u64 {
            self.tail.clear();
            self.tail_at = self.pos;
        }
        if self.tail.len() > 2 << 20 {
            self.tail.drain(..1 << 20);
            self.tail_at += 1 << 20;
        }
        self.tail.extend_from_slice(b);
        self.pos += b.len() as u64;
        self.len = self.len.max(self.pos);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Hole {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.pos = seek_to(self.pos, self.len, s)?;
        Ok(self.pos)
    }
}
impl Read for Hole {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = (b.len() as u64).min(self.len - self.pos) as usize;
        b[..n].fill(0);
        for (at, p) in [(0, &self.head[..]), (self.tail_at, &self.tail[..])] {
            let (lo, hi) = (self.pos.max(at), (self.pos + n as u64).min(at + p.len() as u64));
            if lo < hi {
                b[(lo - self.pos) as usize..(hi - self.pos) as usize].copy_from_slice(&p[(lo - at) as usize..(hi - at) as usize]);
            }
        }
        self.pos += n as u64;
        Ok(n)
    }
}
fn c20_big(c: &Big, o: &Obs) -> Result<(), String> {
    let s = Scratch::new();
    let d = s.dir("src");
    let start = |i: usize, n: u64| vec![i as u8 + 1; 5.min(n) as usize];
    let mut want = vec![];
    for (i, n) in c.sizes.iter().enumerate() {
        let mut f = fs::File::create(d.join(format!("f{i}"))).unwrap();
        f.set_len(*n).unwrap();
        let b = start(i, *n);
        f.write_all(&b).unwrap();
        want.push((format!("f{i}"), *n, crc_zeros(&b, n - b.len() as u64)));
    }
    o.nontrivial(c.sizes.iter().sum::<u64>() >= 1 << 32);
    let r = no_panic(|| -> Result<Hole, Error> {
        let mut z = SevenZWriter::new(Hole::default())?;
        z.set_encrypt_header(false);
        z.set_content_methods(vec![WM::Aes { power: 0, salt: [1; 16], iv: [2; 16] }.config("a")]);
        z.push_source_path(&d, |_| true)?;
        Ok(z.finish()?)
    })?;
    let mut h = r.map_err(|e| format!("pushing files of sizes {:?}: {e:?}", c.sizes))?;
    h.pos = 0;
    let len = h.len;
    let a = Archive::read(&mut h, len, &[]).map_err(|e| format!("reading: {e:?}"))?;
    let mut seen: Vec<(String, u64, u32)> = a.files.iter().map(|f| (f.name.clone(), f.size, if f.size > 0 { f.crc as u32 } else { 0 })).collect();
    seen.sort();
    if seen != want {
        return Err(format!("entries {seen:?} instead of {want:?}"));
    }
    let packed: u64 = a.pack_sizes.iter().sum();
    if packed < c.sizes.iter().sum() {
        return Err(format!("{packed} bytes of content for files of {:?}", c.sizes));
    }
    o.label_if(a.folders.len() > 1, "several blocks");
    Ok(())
}
pub fn c20(cx: &Ctx) {
    cx.rule("trees with at least two files and directories to be recreated; sizes of 4 GiB and more in all for 'big'");
    cx.assume("names are UTF-8, no symbolic links, times are representable in a FILETIME; the file system keeps them to 100 ns");
    cx.run("tree", cx.n(7000, 150_000), || tree_case(70_000), c20_one);
    let most = if cx.n(0, 1) == 0 { 2u64 } else { 4 };
    let big = move || {
        let g = 1u64 << 30;
        let size = prop_oneof![3 => (0u64..most).prop_map(move |n| n * g), 2 => (1u64..most, -2i64..3).prop_map(move |(n, d)| (n * g).wrapping_add_signed(d)), 1 => 0u64..1000];
        (pvec(size, 2..most as usize + 1), any::<u64>()).prop_map(move |(mut sizes, x)| {
            // the sizes in all come to little less or more than 4 GiB, or to much more
            let sum: u64 = sizes.iter().sum();
            if sum < 4 * g {
                let at = x as usize % sizes.len();
                sizes[at] += 4 * g - sum + x % 3 - 1;
            }
            Big { sizes }
        })
    };
    // as much as 16 GiB are encrypted for a case, some 4 in the quick tier
    cx.cpu_limit(900);
    cx.run("big", cx.n(3, 24), big, c20_big);
    clean_up();
}

// ------------------------------------------------------------------------------------------ C22: the file system's faults
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Fault {
    None,
    /// while compressing: this file, this directory cannot be read; no file may grow beyond that share of the archive;
    /// the archive's directory, or an existing file in its place, may not be written, or a directory is there
    HiddenFile(u16),
    HiddenDir(u16),
    NoSource,
    ArchiveLimit(u16),
    ArchivePlace(u8),
    /// between: the archive is damaged, cut, gone, or a directory
    Damage(u32, u8),
    Cut(u32),
    NoArchive(bool),
    /// while extracting: no file may grow beyond that share of the largest; in the place of a file is a directory,
    /// a read-only file; in the place of a directory is a file, a read-only directory
    OutLimit(u16),
    DirForFile(u16),
    ReadOnlyFile(u16),
    FileForDir(u16),
    ReadOnlyDir(u16),
    ReadOnlyDest(bool),
    FileForDest,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FaultCase {
    items: Vec<Node>,
    how: How,
    password: Option<String>,
    extract: u8,
    fault: Fault,
}
fn fault_case() -> BoxedStrategy<FaultCase> {
    let at = || any::<u16>();
    let fault = prop_oneof![
        1 => Just(Fault::None),
        2 => at().prop_map(Fault::HiddenFile),
        2 => at().prop_map(Fault::HiddenDir),
        1 => Just(Fault::NoSource),
        5 => at().prop_map(Fault::ArchiveLimit),
        2 => (0u8..4).prop_map(Fault::ArchivePlace),
        8 => (any::<u32>(), 1u8..).prop_map(|(p, x)| Fault::Damage(p, x)),
        3 => any::<u32>().prop_map(Fault::Cut),
        1 => any::<bool>().prop_map(Fault::NoArchive),
        5 => at().prop_map(Fault::OutLimit),
        2 => at().prop_map(Fault::DirForFile),
        2 => at().prop_map(Fault::ReadOnlyFile),
        3 => at().prop_map(Fault::FileForDir),
        2 => at().prop_map(Fault::ReadOnlyDir),
        1 => any::<bool>().prop_map(Fault::ReadOnlyDest),
        1 => Just(Fault::FileForDest),
    ];
    (tree_case(30_000), fault).prop_map(|(t, fault)| FaultCase { items: t.items, how: if let How::Entries { order, .. } = t.how { How::Whole(order as u8 % 4) } else { t.how }, password: t.password, extract: t.extract, fault }).boxed()
}
fn files_one(c: &FaultCase, o: &Obs) -> Result<(), String> {
    let s = Scratch::new();
    let password = c.password.clone().filter(|p| !p.is_empty()).unwrap_or("secret".into());
    let src = s.dir("src");
    Node::Dir { name: "r".into(), items: c.items.clone() }.make(&src, &mut BTreeSet::new());
    let root = src.join("r");
    let mut want = look(&root)?;
    let files: Vec<String> = want.files.keys().cloned().collect();
    let dirs: Vec<String> = want.dirs.iter().cloned().collect();
    let arc = s.dir("arc");
    let mut file = arc.join("a.7z");
    let (act, encrypted) = match &c.how {
        // (there the reading of the tree is the caller's)
        How::Entries { .. } => return Ok(()),
        How::Whole(h) => {
            (Act::Whole { how: *h, src: root.clone(), dest: file.clone(), password: Some(password.clone()) }, *h >= 2)
        }
        How::Push(p) => {
            want.dirs = want.files.keys().flat_map(|n| parents(n).map(|s| s.to_string()).collect::<Vec<_>>()).collect();
            let step = Step { src: root.clone(), solid: p.solid[0], reject: vec![] };
            let a = Act::Push { methods: p.methods.clone(), clear_header: p.clear_header, steps: vec![step], dest: file.clone(), password: password.clone() };
            (a, p.methods.iter().flatten().any(|m| m.is_aes()))
        }
    };
    let pick = |v: &[String], i: u16| (!v.is_empty()).then(|| v[i as usize % v.len()].clone());
    let mut fault = c.fault;
    let mut must_fail = false;

    // compressing
    let mut jobs = vec![Job { cwd: s.0.clone(), act, limit: None }];
    match fault {
        Fault::HiddenFile(i) => match pick(&files, i) {
            Some(n) => {
                chmod(&root.join(n), 0);
                must_fail = true;
            }
            None => fault = Fault::None,
        },
        Fault::HiddenDir(i) => match pick(&dirs, i) {
            Some(n) => {
                // without the right to search it, only its names can be read
                let within = files.iter().chain(&dirs).any(|f| f.starts_with(&format!("{n}/")));
                chmod(&root.join(n), if i & 256 == 0 || !within { 0 } else { 0o444 });
                must_fail = true;
            }
            None => fault = Fault::None,
        },
        Fault::NoSource => {
            let no = src.join("none");
            match &mut jobs[0].act {
                Act::Whole { src, .. } => *src = no,
                Act::Push { steps, .. } => steps[0].src = no,
                _ => unreachable!(),
            }
            must_fail = true;
        }
        Fault::ArchiveLimit(i) => {
            // how large it gets is found by making it first
            let r = s.run(&jobs)?;
            if let Some(e) = &r[0] {
                return Err(format!("compressing failed without a fault: {e}"));
            }
            let full = fs::metadata(&file).unwrap().len();
            fs::remove_file(&file).unwrap();
            jobs[0].limit = Some(match i % 5 {
                0 => full.saturating_sub(1 + i as u64 / 5 % 40),
                1 => i as u64 / 5 % 40,
                2 => full + i as u64 % 2,
                _ => full * i as u64 / 65536,
            });
            // times of access may take another number of bytes in the second archive
            must_fail = jobs[0].limit.unwrap() + 64 < full;
        }
        Fault::ArchivePlace(k) => {
            match k {
                0 => chmod(&arc, 0o555),
                1 => {
                    fs::write(&file, "old").unwrap();
                    chmod(&file, 0o444);
                }
                2 => fs::create_dir(&file).unwrap(),
                _ => {
                    let f = arc.join("f");
                    fs::write(&f, "old").unwrap();
                    file = f.join("a.7z");
                }
            }
            must_fail = true;
        }
        _ => {}
    }
    match &mut jobs[0].act {
        Act::Whole { dest, .. } | Act::Push { dest, .. } => *dest = file.clone(),
        _ => unreachable!(),
    }
    let r = s.run(&jobs)?.remove(0);
    let old = (0o755, 0o644);
    for (v, mode) in [(&dirs, old.0), (&files, old.1)] {
        v.iter().for_each(|n| chmod(&root.join(n), mode));
    }
    o.label(match &fault {
        Fault::None => "no fault",
        Fault::HiddenFile(_) | Fault::HiddenDir(_) | Fault::NoSource => "fault of the source",
        Fault::ArchiveLimit(_) | Fault::ArchivePlace(_) => "fault of the archive's place",
        Fault::Damage(..) | Fault::Cut(_) | Fault::NoArchive(_) => "archive damaged",
        _ => "fault of the destination",
    });
    o.nontrivial(!files.is_empty() && !matches!(fault, Fault::None));
    match r {
        None if must_fail => return Err(format!("compressing was no error, with {fault:?}")),
        Some(_) if must_fail || jobs[0].limit.is_some() => return Ok(()),
        Some(e) => return Err(format!("compressing failed, with {fault:?}: {e}")),
        None => {}
    }

    // the archive
    let mut bytes = fs::read(&file).map_err(|e| e.to_string())?;
    let n = bytes.len();
    let touched = match fault {
        Fault::Damage(p, x) => {
            let at = match p % 4 {
                0 => p as usize / 4 % 32,
                1 => n - 1 - (p as usize / 4 % n.min(200)),
                _ => p as usize / 4 % n,
            };
            bytes[at] ^= x;
            fs::write(&file, &bytes).unwrap();
            true
        }
        Fault::Cut(p) => {
            bytes.truncate(if p % 2 == 0 { n - 1 - p as usize / 2 % n.min(40) } else { p as usize / 2 % n });
            fs::write(&file, &bytes).unwrap();
            must_fail = true;
            true
        }
        Fault::NoArchive(dir) => {
            fs::remove_file(&file).unwrap();
            if dir {
                fs::create_dir(&file).unwrap();
            }
            must_fail = true;
            true
        }
        _ => false,
    };

    // extracting
    let out = s.dir("out");
    let dest = out.join("d");
    let own = |p: &Path| std::os::unix::fs::chown(p, Some(NOBODY), Some(NOBODY)).expect("chown");
    let prepare = |n: &str| {
        let mut at = dest.clone();
        fs::create_dir_all(&at).unwrap();
        own(&at);
        for p in parents(n) {
            at = dest.join(p);
            fs::create_dir_all(&at).unwrap();
            own(&at);
        }
        dest.join(n)
    };
    let mut limit = None;
    let out_files: Vec<String> = want.files.keys().cloned().collect();
    let out_dirs: Vec<String> = want.dirs.iter().cloned().collect();
    match fault {
        Fault::OutLimit(i) => {
            let max = want.files.values().map(|f| f.data.len()).max().unwrap_or(0) as u64;
            let l = match i % 4 {
                0 => max.saturating_sub(1 + i as u64 / 4 % 4),
                1 => max,
                _ => max * i as u64 / 65536,
            };
            limit = Some(l);
            must_fail = l < max;
        }
        Fault::DirForFile(i) => {
            if let Some(n) = pick(&out_files, i) {
                let p = prepare(&n);
                fs::create_dir(&p).unwrap();
                own(&p);
                must_fail = true;
            }
        }
        Fault::ReadOnlyFile(i) => {
            if let Some(n) = pick(&out_files, i) {
                let p = prepare(&n);
                fs::write(&p, "old").unwrap();
                chmod(&p, 0o444);
                must_fail = true;
            }
        }
        Fault::FileForDir(i) => {
            if let Some(n) = pick(&out_dirs, i) {
                let p = prepare(&n);
                fs::write(&p, "old").unwrap();
                own(&p);
                must_fail = true;
            }
        }
        Fault::ReadOnlyDir(i) => {
            // fails if anything is to be made in it
            if let Some(n) = pick(&out_dirs, i) {
                let p = prepare(&n);
                fs::create_dir(&p).unwrap();
                chmod(&p, 0o555);
                must_fail = out_files.iter().chain(&out_dirs).any(|f| f.starts_with(&format!("{n}/")));
            }
        }
        Fault::ReadOnlyDest(made) => {
            if made {
                fs::create_dir(&dest).unwrap();
                chmod(&dest, 0o555);
                must_fail = !out_files.is_empty() || !out_dirs.is_empty();
            } else {
                chmod(&out, 0o555);
                must_fail = true;
            }
        }
        Fault::FileForDest => {
            fs::write(&dest, "old").unwrap();
            own(&dest);
            must_fail = true;
        }
        _ => {}
    }
    let how = if encrypted { [2, 3, 6, 7, 8][c.extract as usize % 5] } else { c.extract };
    let extract = Act::Extract { how, src: file, dest: dest.clone(), password: Some(password) };
    let r = s.run(&[Job { cwd: s.0.clone(), act: extract, limit }])?.remove(0);
    chmod(&out, 0o777);
    match r {
        Some(_) if must_fail || touched => Ok(()),
        Some(e) => Err(format!("extracting failed, with {fault:?}: {e}")),
        None if must_fail => Err(format!("extracting was no error, with {fault:?}")),
        None => {
            o.label_if(touched, "damage of no consequence");
            compare(&look(&dest)?, &want).map_err(|e| format!("with {fault:?}: {e}"))
        }
    }
}
pub fn c22_files(cx: &Ctx) {
    cx.run("files", cx.n(4000, 150_000), fault_case, files_one);
    clean_up();
}

// ------------------------------------------------------------------------------------------ C21
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Item {
    /// "{S}" stands for the scratch directory, "{D}" for the destination
    name: String,
    /// 0, 1 file, 2 empty file, 3 directory
    kind: u8,
    data: u8,
    attr: Option<u32>,
    new_block: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hostile {
    items: Vec<Item>,
    h: HdrOpts,
    extract: u8,
    dest_form: u8,
    src_form: u8,
}
fn ordinary_part() -> BoxedStrategy<&'static str> {
    prop_oneof![
        6 => prop::sample::select(vec!["a", "b", "c", "dir", "sub"]),
        2 => prop::sample::select(vec!["dest", "l7", "canary", "x y", "\u{fc}", "...", "..a", "a..", ".. ", " ..", "\\", "..\\a", "..\\..\\canary", "~", "C:", "C:\\a", "\u{2025}", "\u{ff0e}\u{ff0e}", "a\u{202e}b", "-"]),
    ]
    .boxed()
}
fn hostile_name() -> BoxedStrategy<String> {
    let part = || {
        prop_oneof![
            5 => ordinary_part(),
            4 => Just(".."),
            1 => Just("."),
            1 => Just(""),
        ]
    };
    let joined = |v: Vec<&'static str>| {
        let mut ups = 0;
        let v: Vec<&str> = v
            .into_iter()
            .filter(|c| {
                ups += (*c == "..") as u32;
                *c != ".." || ups <= 6
            })
            .collect();
        v.join("/")
    };
    prop_oneof![
        8 => pvec(ordinary_part(), 1..4).prop_map(move |v| v.join("/")),
        8 => pvec(part(), 1..6).prop_map(joined),
        2 => (1usize..7, pvec(ordinary_part(), 0..3)).prop_map(|(n, v)| format!("{}{}", "../".repeat(n), v.join("/"))),
        2 => (pvec(ordinary_part(), 1..4), 0usize..4, pvec(ordinary_part(), 1..3), any::<bool>()).prop_map(|(a, n, b, t)| {
            format!("{}/{}{}{}", a.join("/"), "../".repeat((a.len() + n).min(6)), b.join("/"), if t { "/" } else { "" })
        }),
        2 => (prop::sample::select(vec!["{S}", "{D}", "{S}/l1/l2", "/{S}", "{D}/..", "{D}/../..", "{D}x", "../../../../../..{S}", "a/{S}"]), pvec(part(), 1..3))
            .prop_map(move |(p, v)| format!("{p}/{}", joined(v))),
    ]
    .boxed()
}
fn hostile() -> BoxedStrategy<Hostile> {
    // regular file, symbolic link, directory and so on, as Unix programs note them
    let attr = prop_oneof![
        3 => Just(None),
        1 => prop::sample::select(vec![0xA1FF_8020u32, 0xA1FF_8000, 0xA1FF_8400, 0x41ED_8010, 0x81A4_8020, 0x400, 0x10, 0x1180_8000, 0x6180_8000]).prop_map(Some),
    ];
    let item = |name: BoxedStrategy<String>| {
        (name, 0u8..4, any::<u8>(), attr.clone(), prop::bool::weighted(0.2))
            .prop_map(|(name, kind, data, attr, new_block)| Item { name, kind, data, attr, new_block })
            .boxed()
    };
    let plain = || pvec(ordinary_part(), 1..4).prop_map(|v| v.join("/")).boxed();
    let items = prop_oneof![
        3 => pvec(item(hostile_name()), 1..5),
        2 => (pvec(item(plain()), 0..5), item(hostile_name()), any::<u8>()).prop_map(|(mut v, i, at)| {
            v.insert(at as usize % (v.len() + 1), i);
            v
        }),
        2 => pvec(item(plain()), 1..6),
    ];
    (items, hdr_opts(false), 0u8..7, 0u8..8, any::<u8>())
        .prop_map(|(items, h, extract, dest_form, src_form)| Hostile { items, h, extract, dest_form, src_form })
        .boxed()
}
type Snap = BTreeMap<PathBuf, Option<(Vec<u8>, SystemTime)>>;
/// Everything below a directory, `but` excluded.
fn snap(p: &Path, but: &Path, out: &mut Snap) {
    for e in fs::read_dir(p).expect("read_dir") {
        let e = e.expect("read_dir");
        let q = e.path();
        if q == but {
            continue;
        }
        let m = fs::symlink_metadata(&q).expect("metadata");
        if m.is_dir() {
            out.insert(q.clone(), None);
            snap(&q, but, out);
        } else {
            let d = if m.is_file() { fs::read(&q).unwrap_or_default() } else { b"special".to_vec() };
            out.insert(q, Some((d, m.modified().unwrap())));
        }
    }
}
/// Where an entry of that name is, going by the text of the name alone.
fn place(dest: &Path, name: &str) -> PathBuf {
    let mut at = if name.starts_with('/') { PathBuf::from("/") } else { dest.to_path_buf() };
    for c in name.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                at.pop();
            }
            c => at.push(c),
        }
    }
    at
}
fn c21_one(c: &Hostile, o: &Obs) -> Result<(), String> {
    let s = Scratch::new();
    s.dir("arc");
    let mut at = String::from("l1");
    for i in 2..9 {
        let d = s.dir(&at);
        s.dir(&format!("{at}/dir"));
        for f in ["a", "b", "canary", "dir/a"] {
            let f = d.join(f);
            fs::write(&f, format!("canary {i} {f:?}")).unwrap();
            chmod(&f, 0o666);
            let old = UNIX_EPOCH + Duration::from_secs(1_000_000_000);
            fs::File::options().write(true).open(&f).unwrap().set_times(fs::FileTimes::new().set_modified(old)).unwrap();
            std::os::unix::fs::chown(&f, Some(NOBODY), Some(NOBODY)).expect("chown");
        }
        if i < 8 {
            at = format!("{at}/l{i}");
        }
    }
    let l7 = s.0.join(&at);
    let dest = l7.join("dest");
    if c.dest_form % 2 == 0 {
        s.dir(&format!("{at}/dest"));
    }
    let (cwd, given, full) = match c.dest_form {
        0 | 1 => (s.0.clone(), dest.clone(), dest.clone()),
        2 | 3 => (l7.clone(), PathBuf::from("dest"), dest.clone()),
        4 => (dest.clone(), PathBuf::from("."), dest.clone()),
        5 => (l7.clone(), PathBuf::from("dest/"), dest.clone()),
        6 => (s.0.clone(), dest.join("a/b"), dest.join("a/b")),
        _ => (l7.join("dir"), PathBuf::from("../dest"), dest.clone()),
    };

    let (mut blocks, mut empties): (Vec<GBlock>, Vec<GEmpty>) = (vec![], vec![]);
    let mut want = Tree::default();
    let mut names: Vec<(String, bool)> = vec![];
    let (mut escapes, mut plain) = (false, true);
    // empty entries are put among the others by position
    for i in &c.items {
        let name = i.name.replace("{S}", s.0.to_str().unwrap()).replace("{D}", full.to_str().unwrap());
        let m = Meta { name: name.clone(), c: None, a: None, m: None, attr: i.attr };
        let out = !place(&full, &name).starts_with(&full);
        escapes |= out;
        let parts: Vec<&str> = name.split('/').collect();
        plain &= parts.iter().all(|p| !matches!(*p, "" | "." | ".."));
        let data = if i.kind < 2 { format!("{}/l1/canary {}", s.0.display(), i.data).into_bytes() } else { vec![] };
        names.push((name.clone(), i.kind == 3));
        want.dirs.extend(parents(&name).map(|s| s.to_string()));
        if i.kind == 3 {
            want.dirs.insert(name);
        } else {
            want.files.insert(name, FileIs { data: data.clone(), time: UNIX_EPOCH });
        }
        if i.kind < 2 {
            let e = GEntry { meta: m, data: Data(vec![Seg::Lit(data)]), crc: true };
            match blocks.last_mut() {
                Some(b) if !i.new_block => b.entries.push(e),
                _ => blocks.push(GBlock { chain: Chain::Linear(vec![M::Copy]), perm: 0, folder_crc: false, entries: vec![e] }),
            }
        } else {
            empties.push(GEmpty { meta: m, at: (names.len() - 1) as u16, kind: if i.kind == 3 { 0 } else { 1 } });
        }
    }
    let clash = names.iter().enumerate().any(|(i, (a, da))| {
        names.iter().enumerate().any(|(j, (b, db))| i != j && ((a == b && !(*da && *db)) || (!*da && b.starts_with(&format!("{a}/")))))
    });
    o.label_if(escapes, "escaping name");
    o.label_if(plain && !clash, "ordinary names only");
    o.label_if(!plain && !escapes, "odd names which stay inside");
    o.label_if(names.iter().any(|n| n.0.starts_with('/')), "absolute name");
    o.nontrivial(escapes || (plain && !clash));
    let (spec, _) = GArch { blocks, empties, h: c.h.clone(), password: String::new() }.spec();
    let file = s.0.join("arc/a.7z");
    fs::write(&file, spec.build().bytes).unwrap();
    let mut before = Snap::new();
    fs::write(s.0.join("jobs.json"), "").unwrap();
    snap(&s.0, &full, &mut before);
    before.remove(&s.0.join("jobs.json"));
    // directories on the way to the destination may be made
    for q in full.ancestors().skip(1).take_while(|q| **q != *s.0) {
        before.insert(q.to_path_buf(), None);
    }
    let password = if c.src_form % 3 == 0 { None } else { Some("x".to_string()) };
    let r = s.run(&[Job { cwd, act: Act::Extract { how: c.extract % 7, src: file, dest: given, password }, limit: None }])?.remove(0);
    let mut after = Snap::new();
    snap(&s.0, &full, &mut after);
    after.remove(&s.0.join("jobs.json"));
    for q in full.ancestors().skip(1).take_while(|q| **q != *s.0) {
        after.insert(q.to_path_buf(), None);
    }
    let names: Vec<&str> = names.iter().map(|n| &n.0[..]).collect();
    if let Some(k) = after.keys().find(|k| !before.contains_key(*k)) {
        return Err(format!("extracting {names:?} made {k:?}, outside of {full:?}"));
    }
    if let Some((k, _)) = before.iter().find(|(k, v)| after.get(*k) != Some(*v)) {
        return Err(format!("extracting {names:?} changed {k:?}, outside of {full:?}"));
    }
    match r {
        None if escapes => Err(format!("extracting {names:?} to {full:?} was no error")),
        None if plain && !clash => {
            let mut got = look(&full)?;
            for f in got.files.values_mut() {
                f.time = UNIX_EPOCH;
            }
            compare(&got, &want)
        }
        Some(e) if plain && !clash => Err(format!("extracting {names:?} failed: {e}")),
        _ => Ok(()),
    }
}
pub fn c21(cx: &Ctx) {
    cx.rule("archives with a name that leads outside, or with ordinary names only, which must be extracted");
    cx.assume("no symbolic links in or on the way to the destination; names lead out by at most six levels, or to the check's scratch directory");
    cx.run("names", cx.n(9000, 300_000), hostile, c21_one);
    clean_up();
}
