//! C18: a mounted image behaves like its tree.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use xv::builder::{build_far, giant, Layout};
use xv::content;
use xv::devs::Medium;
use xv::fuse::{self, Attr, Mounted};
use xv::gen::{self, Opts};
use xv::runner::*;
use xv::tree::*;
use xv::{ensure, OFFSETS};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// node among the known ones, child of it, spelling
    Lookup(u16, u16, u8, u64),
    GetAttr(u16),
    Open(u16, u8),
    /// node, kind and value of offset, of length
    Read(u16, u8, u64, u8, u32),
    /// directory among the known nodes, buffer size class
    List(u16, u16),
    /// a listing that other requests interrupt: begin, continue, go back
    Begin(u16),
    Step(u8, u16),
    Back(u8, u16),
    Forget(u16),
    Modify(u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    #[serde(default)]
    far: Option<(u16, u8)>,
    #[serde(default)]
    giant: Option<(u16, u8, u32)>,
    offset: u8,
    ops: Vec<Op>,
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        8 => (any::<u16>(), any::<u16>(), any::<u8>(), any::<u64>()).prop_map(|(a, b, c, d)| Op::Lookup(a, b, c, d)),
        4 => any::<u16>().prop_map(Op::GetAttr),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Op::Open(a, b)),
        6 => (any::<u16>(), any::<u8>(), any::<u64>(), any::<u8>(), any::<u32>()).prop_map(|(a, b, c, d, e)| Op::Read(a, b, c, d, e)),
        4 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Op::List(a, b)),
        2 => any::<u16>().prop_map(Op::Begin),
        6 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| Op::Step(a, b)),
        1 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| Op::Back(a, b)),
        1 => any::<u16>().prop_map(Op::Forget),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Op::Modify(a, b)),
    ]
    .boxed()
}

fn case(o: Opts, max: usize) -> BoxedStrategy<Case> {
    (gen::tree(o), gen::layout(), gen::far_file(), 0u8..4, proptest::collection::vec(op(), 1..max)).prop_map(|(tree, lay, far, offset, ops)| Case { tree, lay, far, giant: None, offset, ops }).boxed()
}

/// The model: what the tree says about a path.
struct Model<'a> {
    /// path -> (is directory, length, seed, children)
    nodes: BTreeMap<Path, (bool, u64, u64, Vec<&'a Entry>)>,
}
impl<'a> Model<'a> {
    fn new(t: &'a Tree) -> Self {
        let mut nodes = BTreeMap::new();
        nodes.insert(vec![], (true, 0, 0, t.0.iter().collect()));
        t.walk(&mut |pre, e| {
            let mut p = pre.to_vec();
            p.push(e.name.clone());
            let v = match &e.node {
                Node::Dir(c) => (true, 0, 0, c.iter().collect()),
                Node::File { len, seed } => (false, *len, *seed, vec![]),
            };
            nodes.insert(p, v);
        });
        Model { nodes }
    }
    fn child(&self, dir: &[String], name: &str) -> Option<Path> {
        let e = self.nodes[dir].3.iter().find(|e| upper(&e.name) == upper(name))?;
        let mut p = dir.to_vec();
        p.push(e.name.clone());
        Some(p)
    }
    /// room for the longest record of a listing
    fn room(&self, dir: &[String]) -> u32 {
        let n = self.nodes[dir].3.iter().map(|e| e.name.len()).max().unwrap_or(0).max(2) as u32;
        (24 + n).div_ceil(8) * 8
    }
}

struct Cursor {
    dir: Path,
    /// offset to continue at, names so far with the offset after each
    seen: Vec<(String, u64)>,
    done: bool,
}

struct State<'a> {
    m: Model<'a>,
    fs: Mounted,
    /// known nodes
    known: Vec<Path>,
    ino: HashMap<Path, u64>,
    by_ino: HashMap<u64, Path>,
    cursors: Vec<Cursor>,
    handles: Vec<(u64, u64, bool)>,
}

fn show(p: &[String]) -> String {
    format!("{:?}", format!("/{}", p.join("/")))
}

impl State<'_> {
    fn learn(&mut self, p: &Path, ino: u64, how: &str) -> Outcome {
        ensure!(ino > 1, "{} has inode {ino} in {how}", show(p));
        if let Some(old) = self.ino.get(p) {
            ensure!(*old == ino, "{} has inode {ino} in {how}, {old} before", show(p));
        } else {
            if let Some(q) = self.by_ino.get(&ino) {
                return Err(format!("{} and {} both have inode {ino}", show(p), show(q)));
            }
            self.ino.insert(p.clone(), ino);
            self.by_ino.insert(ino, p.clone());
            self.known.push(p.clone());
        }
        Ok(())
    }
    fn attr(&self, p: &Path, a: &Attr, how: &str) -> Outcome {
        let (dir, len, ..) = self.m.nodes[p];
        ensure!(a.is_dir() == dir && a.is_file() != dir, "{how}: {} has mode {:o}", show(p), a.mode);
        ensure!(dir || a.size == len, "{how}: {} has size {}, not {len}", show(p), a.size);
        ensure!(a.ino == self.ino[p], "{how}: {} has inode {} in its attributes, {} otherwise", show(p), a.ino, self.ino[p]);
        Ok(())
    }
    fn pick(&self, n: u16) -> Path {
        self.known[n as usize * self.known.len() / 65536].clone()
    }
    /// a known directory
    fn pick_dir(&self, n: u16) -> Path {
        let d: Vec<&Path> = self.known.iter().filter(|p| self.m.nodes[*p].0).collect();
        d[n as usize * d.len() / 65536].clone()
    }

    fn lookup(&mut self, p: &Path, name: &str, cx: &mut Cx) -> Outcome {
        let want = if self.m.nodes[p].0 { self.m.child(p, name) } else { None };
        let r = self.fs.lookup(self.ino[p], name.as_bytes())?;
        let t = format!("lookup of {name:?} in {}", show(p));
        match (want, r) {
            (Some(c), Ok((node, a))) => {
                self.learn(&c, node, &t)?;
                self.attr(&c, &a, &t)?;
                cx.label("lookup");
            }
            (Some(_), Err(e)) => return Err(format!("{t} fails with error {e}")),
            (None, Ok((node, _))) => return Err(format!("{t} finds inode {node}")),
            (None, Err(e)) => {
                let dir = self.m.nodes[p].0;
                ensure!(!dir || e == libc::ENOENT, "{t}: error {e} for a missing name");
                cx.label("missing name");
            }
        }
        Ok(())
    }

    /// One step of a listing; true at the end.
    fn step(&mut self, dir: &Path, seen: &mut Vec<(String, u64)>, size: u32, cx: &mut Cx) -> Result<bool, String> {
        let off = seen.last().map_or(0, |s| s.1);
        let t = format!("listing of {} at offset {off} with {size} bytes", show(dir));
        let r = self.fs.readdir(self.ino[dir], 0, off, size)?.map_err(|e| format!("{t} fails with error {e}"))?;
        if r.is_empty() {
            self.complete(dir, seen)?;
            cx.label("listing");
            return Ok(true);
        }
        ensure!(seen.len() <= self.m.nodes[dir].3.len() + 2, "{t}: still going after {} entries: {:?}", seen.len(), r[0].name);
        for e in r {
            if e.name != "." && e.name != ".." {
                let mut p = dir.clone();
                p.push(e.name.clone());
                let Some((d, ..)) = self.m.nodes.get(&p) else { return Err(format!("{t}: unknown entry {:?}", e.name)) };
                let want = if *d { libc::DT_DIR } else { libc::DT_REG };
                ensure!(e.typ == want as u32, "{t}: {:?} has type {}", e.name, e.typ);
                self.learn(&p, e.ino, &t)?;
            } else {
                ensure!(e.typ == libc::DT_DIR as u32, "{t}: {:?} has type {}", e.name, e.typ);
                ensure!(e.name == ".." || e.ino == self.ino[dir], "{t}: inode {} for \".\", not {}", e.ino, self.ino[dir]);
            }
            seen.push((e.name, e.off));
        }
        Ok(false)
    }
    fn complete(&self, dir: &Path, seen: &[(String, u64)]) -> Outcome {
        let mut names = BTreeSet::new();
        for (n, _) in seen {
            ensure!(names.insert(n.clone()), "listing of {}: {n:?} appears twice", show(dir));
        }
        for n in [".", ".."] {
            ensure!(names.contains(n), "listing of {} in pieces misses {n:?}", show(dir));
        }
        for e in &self.m.nodes[dir].3 {
            ensure!(names.contains(&e.name), "listing of {} in pieces ({} entries, {} expected) misses {:?}", show(dir), names.len(), self.m.nodes[dir].3.len(), e.name);
        }
        Ok(())
    }
}

fn spelling(s: &State, p: &Path, child: u16, kind: u8, v: u64) -> String {
    let kids = &s.m.nodes[p].3;
    let base = if kids.is_empty() { "default.xbe".to_string() } else { kids[child as usize * kids.len() / 65536].name.clone() };
    let mut n = match kind % 16 {
        0..=5 => base,
        6..=9 => gen::flip_case(&base, v),
        10 => {
            let mut c: Vec<char> = base.chars().collect();
            c.pop();
            c.into_iter().collect()
        }
        11 => base + ["a", "~", "_", " ", ".", "\u{e9}"][v as usize % 6],
        12 => {
            let mut c: Vec<char> = base.chars().collect();
            let i = v as usize % c.len();
            c[i] = ['a', '~', '!', '\u{e9}', '\u{ff}', '0'][(v >> 20) as usize % 6];
            c.into_iter().collect()
        }
        13 => ["missing", "\u{65e5}\u{672c}", "zzzzzz", " ", "a", "\u{1f600}"][v as usize % 6].to_string(),
        14 => base.chars().rev().collect(),
        _ => base.chars().take(1 + v as usize % 4).collect(),
    };
    // names the kernel would not pass on
    n.retain(|c| c != '/' && c != '\0');
    while n.len() > 255 {
        n.pop();
    }
    if n.is_empty() || n == "." || n == ".." {
        n = "nothing".into();
    }
    n
}

fn mount(k: &Case, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    let (img, far) = build_far(&k.tree, &k.lay, k.far);
    cx.label_if(far.is_some(), "far regions");
    let g = k.giant.and_then(|x| giant(&k.tree, &k.lay, x));
    let (img, far) = match &g {
        Some(g) => {
            cx.label(if g.size >= 1 << 31 { "file of 2 GiB or more" } else { "enlarged file below 2 GiB" });
            (g.img.clone(), Some(g.far))
        }
        None => (img, far),
    };
    let med = Medium { image: Arc::new(img), base: OFFSETS[k.offset as usize], tail: 0, surround: 3, far };
    let f = d.join("x.iso");
    med.to_file(&f).map_err(|e| format!("harness: {e}"))?;
    let fs = Mounted::start(&d, &f)?;
    let mut s = State { m: Model::new(&k.tree), fs, known: vec![vec![]], ino: HashMap::new(), by_ino: HashMap::new(), cursors: vec![], handles: vec![] };
    if let Some(g) = &g {
        s.m.nodes.get_mut(&g.path).unwrap().1 = g.size;
    }
    s.ino.insert(vec![], 1);
    s.by_ino.insert(1, vec![]);
    for op in &k.ops {
        match op {
            Op::Lookup(n, c, kind, v) => {
                // mostly in directories
                let p = if v % 8 == 0 { s.pick(*n) } else { s.pick_dir(*n) };
                let name = spelling(&s, &p, *c, *kind, *v);
                s.lookup(&p, &name, cx)?;
            }
            Op::GetAttr(n) => {
                let p = s.pick(*n);
                let a = s.fs.getattr(s.ino[&p])?.map_err(|e| format!("getattr of {} fails with error {e}", show(&p)))?;
                s.attr(&p, &a, "getattr")?;
                let bogus = 1_000_000 + *n as u64;
                ensure!(s.fs.getattr(bogus)?.is_err(), "getattr of inode {bogus} succeeds");
            }
            Op::Open(n, fl) => {
                let p = s.pick(*n);
                let dir = s.m.nodes[&p].0;
                let flags = [libc::O_RDONLY, libc::O_RDONLY | libc::O_NONBLOCK, libc::O_WRONLY, libc::O_RDWR, libc::O_RDONLY | libc::O_TRUNC, libc::O_WRONLY | libc::O_APPEND, libc::O_RDWR | libc::O_TRUNC][*fl as usize % 7];
                let writes = flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_TRUNC) != 0;
                let t = format!("opening {} with flags {flags:#o}", show(&p));
                match s.fs.open(s.ino[&p], flags, dir)? {
                    Ok(fh) => {
                        ensure!(!writes, "{t} succeeds");
                        s.handles.push((s.ino[&p], fh, dir));
                    }
                    Err(e) => ensure!(writes, "{t} fails with error {e}"),
                }
                cx.label_if(writes, "opening for writing");
                if s.handles.len() > 3 {
                    let (i, fh, dir) = s.handles.remove(0);
                    s.fs.release(i, fh, dir)?.map_err(|e| format!("release fails with error {e}"))?;
                }
            }
            Op::Read(n, ok, o, lk, l) => {
                // prefer files
                let files: Vec<&Path> = s.known.iter().filter(|p| !s.m.nodes[*p].0).collect();
                let Some(p) = files.get(*n as usize * files.len() / 65536).map(|p| (*p).clone()) else {
                    let r = s.fs.read(1, 0, 0, 4096)?;
                    ensure!(r.is_err(), "reading the root directory succeeds");
                    continue;
                };
                let (_, len, seed, _) = s.m.nodes[&p];
                let off = match ok % 8 {
                    0 | 1 => 0,
                    2 => len,
                    3 => len.saturating_sub(1),
                    4 => (o % (len / 4096 + 1)) * 4096,
                    5 => len + o % 5000,
                    6 if o % 4 == 0 => 1 << 40,
                    _ => o % (len + 1),
                };
                let most = s.fs.room.max(131072);
                let size = match lk % 10 {
                    0 => 0,
                    1 => 1,
                    2 => 4096,
                    3 => 131072,
                    4 => len.saturating_sub(off).min(131072) as u32,
                    5 => (len.saturating_sub(off) + 1).min(131072) as u32,
                    6 => 65536,
                    7 => (len.saturating_sub(off) + *l as u64 % 3).min(most as u64) as u32,
                    8 => l % (most + 1),
                    _ => l % 131073,
                };
                let off = match &g {
                    Some(g) if g.path == p && ok % 8 > 4 => {
                        let near = [g.gap.0, g.gap.0 + g.gap.1, 1 << 24, 1 << 31, 1 << 32, 1 << 16][*o as usize % 6];
                        (near + (o >> 8) % 6000).saturating_sub(3000)
                    }
                    _ => off,
                };
                let want = match &g {
                    Some(g) if g.path == p => g.range(seed, off, size as u64),
                    _ => content::range(seed, len, off, size as u64),
                };
                let t = format!("read of {size} bytes at {off} of {} ({len} bytes)", show(&p));
                let got = s.fs.read(s.ino[&p], 0, off, size)?.map_err(|e| format!("{t} fails with error {e}"))?;
                ensure!(got.len() == want.len(), "{t} gives {} bytes", got.len());
                ensure!(got == want, "{t}: byte {:?} differs", got.iter().zip(&want).position(|(a, b)| a != b));
                cx.label_if(!got.is_empty(), "read");
            }
            Op::List(n, size) => {
                let p = s.pick_dir(*n);
                let room = s.m.room(&p);
                let mut seen = vec![];
                let mut i = 0u64;
                loop {
                    i += 1;
                    let size = match size % 4 {
                        0 => 4096.max(room),
                        1 => room,
                        2 => room + (content::mix(*size as u64 ^ i) % 300) as u32,
                        _ => 32768,
                    };
                    if s.step(&p, &mut seen, size, cx)? {
                        break;
                    }
                }
            }
            Op::Begin(n) => {
                if s.cursors.len() < 3 {
                    let dir = s.pick_dir(*n);
                    s.cursors.push(Cursor { dir, seen: vec![], done: false });
                }
            }
            Op::Step(c, size) | Op::Back(c, size) => {
                if s.cursors.is_empty() {
                    continue;
                }
                let c = *c as usize % s.cursors.len();
                let mut cur = s.cursors.remove(c);
                if let Op::Back(..) = op {
                    cur.seen.truncate(*size as usize % (cur.seen.len() + 1));
                    cur.done = false;
                } else {
                    let room = s.m.room(&cur.dir);
                    let size = room + [0, 24, 100, 4096][*size as usize % 4];
                    cur.done = s.step(&cur.dir.clone(), &mut cur.seen, size, cx)?;
                    cx.label("resumed listing");
                }
                if !cur.done {
                    s.cursors.push(cur);
                }
            }
            Op::Forget(n) => {
                let p = s.pick(*n);
                if !p.is_empty() {
                    s.fs.forget(s.ino[&p])?;
                }
            }
            Op::Modify(n, kind) => {
                let p = s.pick(*n);
                let i = s.ino[&p];
                let (op, body): (u32, Vec<u8>) = match kind % 6 {
                    0 => (4, vec![0; 88]),                                                        // setattr
                    1 => (9, [&[0u8; 8][..], b"newdir\0"].concat()),                              // mkdir
                    2 => (10, b"default.xbe\0".to_vec()),                                         // unlink
                    3 => (11, b"dir\0".to_vec()),                                                 // rmdir
                    4 => (12, [&1u64.to_le_bytes()[..], b"a\0b\0"].concat()),                     // rename
                    _ => (8, [&[0xa4, 0x81, 0, 0, 0, 0, 0, 0][..], b"newfile\0"].concat()),        // mknod
                };
                let r = s.fs.raw(op, i, &body)?;
                ensure!(r.is_err(), "request {op} (a modification) of {} succeeds", show(&p));
                cx.label("modification refused");
            }
        }
    }
    // finish what was begun
    while let Some(mut c) = s.cursors.pop() {
        while !s.step(&c.dir.clone(), &mut c.seen, 4096, cx)? {}
    }
    cx.evals(s.fs.requests);
    cx.label(format!("image at {}", med.base));
    cx.nontrivial(s.known.len() >= 3 && k.ops.len() >= 8);
    // the first inodes are still the ones
    for p in s.known.clone().into_iter().skip(1).take(6) {
        let name = p.last().unwrap().clone();
        let parent = p[..p.len() - 1].to_vec();
        if s.ino.contains_key(&parent) && name != "." && name != ".." && name.len() <= 255 {
            s.lookup(&parent, &name, cx)?;
        }
    }
    Ok(())
}

/// Everything, by listings alone, then by lookups: the whole tree.
fn sweep(k: &Case, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    let f = d.join("x.iso");
    std::fs::write(&f, build_far(&k.tree, &k.lay, None).0).map_err(|e| format!("harness: {e}"))?;
    let fs = Mounted::start(&d, &f)?;
    let mut s = State { m: Model::new(&k.tree), fs, known: vec![vec![]], ino: HashMap::new(), by_ino: HashMap::new(), cursors: vec![], handles: vec![] };
    s.ino.insert(vec![], 1);
    s.by_ino.insert(1, vec![]);
    let lookups_first = k.offset & 1 == 1;
    for round in 0..2 {
        let mut st = vec![vec![]];
        while let Some(p) = st.pop() {
            if (round == 0) == lookups_first {
                for e in s.m.nodes[&p].3.clone() {
                    if e.name.len() <= 255 && e.name != "." && e.name != ".." {
                        s.lookup(&p, &gen::flip_case(&e.name, k.lay.seed ^ round), cx)?;
                    }
                }
            } else {
                let mut seen = vec![];
                let size = s.m.room(&p) + [0, 500, 4096, 32768][k.offset as usize / 2 % 4];
                while !s.step(&p, &mut seen, size, cx)? {}
            }
            for e in s.m.nodes[&p].3.clone() {
                let mut c = p.clone();
                c.push(e.name.clone());
                if matches!(e.node, Node::Dir(_)) && s.ino.contains_key(&c) {
                    st.push(c);
                }
            }
        }
    }
    // every file, in pieces
    for p in s.known.clone() {
        let (dir, len, seed, _) = s.m.nodes[&p];
        if dir {
            continue;
        }
        let step = [131072u32, 4096, 65536][len as usize % 3].max(len as u32 / 40);
        let mut off = 0;
        while off < len {
            let t = format!("read of {step} bytes at {off} of {} ({len} bytes)", show(&p));
            let got = s.fs.read(s.ino[&p], 0, off, step)?.map_err(|e| format!("{t} fails with error {e}"))?;
            ensure!(got == content::range(seed, len, off, step as u64), "{t} gives other bytes");
            off += step as u64;
        }
    }
    cx.evals(s.fs.requests);
    cx.nontrivial(s.known.len() >= 3);
    cx.label_if(k.tree.max_dir() > 60, "large directory");
    Ok(())
}

/// Directories with thousands of entries, to be listed with the kernel's buffers.
fn many() -> BoxedStrategy<Case> {
    (proptest::collection::vec((1000u16..3000, 3u8..12, any::<u64>(), 0u8..5), 1..5), gen::layout(), 0u8..2)
        .prop_map(|(dirs, lay, first)| {
            let dir = |(n, len, seed, order): &(u16, u8, u64, u8)| {
                let file = |(i, name): (usize, String)| Entry { name, node: Node::File { len: content::mix(seed ^ i as u64) % 40, seed: seed.wrapping_add(i as u64) & 0xffff_ffff } };
                gen::bulk_names(*n, *len, 3, *seed, *order).into_iter().enumerate().map(file).collect::<Vec<_>>()
            };
            let tree = Tree(dirs.iter().enumerate().map(|(i, d)| Entry { name: format!("d{i}"), node: Node::Dir(dir(d)) }).collect());
            Case { tree, lay: Layout { shape: 0, ..lay }, far: None, giant: None, offset: 6 + first, ops: vec![] }
        })
        .boxed()
}

fn main() {
    fuse::helper();
    let mut c = Check::new("C18", "exploration", "a case is non-trivial when it has at least 8 requests and shows at least 2 entries beside the root");
    c.assume("the kernel's side is a stand-in: requests are those the kernel sends (names without separators and at most 255 bytes, listing buffers with room for a record, listing offsets taken from earlier replies, reads of at most 1 MiB)");
    let o = Opts { bulk_max: 120, ..Opts::default() };
    c.part("histories", 2500, 40000, move || case(o, 60), mount);
    c.part("long histories", 150, 3000, move || case(o, 400), mount);
    c.part("giant", 500, 10000, || (case(Opts { big: false, bulk: false, max_entries: 8, ..Opts::default() }, 60), gen::giant()).prop_map(|(k, g)| Case { far: None, giant: Some(g), ..k }).boxed(), mount);
    // more entries than a daemon would keep in mind
    c.part("many", 8, 200, many, sweep);
    c.part("sweep", 800, 12000, || case(Opts { big: true, bulk_max: 1000, ..Opts::default() }, 2), sweep);
    c.finish()
}
