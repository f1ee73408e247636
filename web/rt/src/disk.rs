//! The file system access API over a tree in memory, loaded from a host directory.
use crate::value::*;
use crate::world;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::{Read, Seek, SeekFrom};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::rc::Rc;

#[derive(Clone)]
pub enum Content {
    Mem(Rc<Vec<u8>>),
    /// too large to be loaded
    Host(Rc<PathBuf>, u64),
}
impl Content {
    pub fn len(&self) -> u64 {
        match self {
            Content::Mem(v) => v.len() as u64,
            Content::Host(_, n) => *n,
        }
    }
    fn read(&self, start: u64, end: u64) -> Vec<u8> {
        match self {
            Content::Mem(v) => v[start as usize..end as usize].to_vec(),
            Content::Host(p, _) => {
                let mut f = std::fs::File::open(&**p).expect("host file");
                f.seek(SeekFrom::Start(start)).expect("host file");
                let mut b = vec![0; (end - start) as usize];
                f.read_exact(&mut b).expect("host file");
                b
            }
        }
    }
}
pub struct FileNode {
    pub content: RefCell<Content>,
    version: Cell<u64>,
}
#[derive(Clone)]
pub enum Node {
    File(Rc<FileNode>),
    Dir(Rc<DirNode>),
}
#[derive(Default)]
pub struct DirNode {
    pub entries: RefCell<BTreeMap<String, Node>>,
}

thread_local! {
    pub static ROOT: RefCell<Rc<DirNode>> = RefCell::default();
    pub static HOST: RefCell<PathBuf> = RefCell::default();
    static ORDER: Cell<u64> = const { Cell::new(0) };
    static LARGE_FILES: Cell<u64> = const { Cell::new(0) };
}
fn load_dir(p: &Path) -> Rc<DirNode> {
    let d = DirNode::default();
    for e in std::fs::read_dir(p).expect("host directory") {
        let e = e.expect("host entry");
        let name = e.file_name().into_string().expect("utf-8 name");
        let m = e.metadata().expect("host metadata");
        let n = if m.is_dir() {
            Node::Dir(load_dir(&e.path()))
        } else {
            let c = if m.len() > 32 << 20 {
                Content::Host(Rc::new(e.path()), m.len())
            } else {
                Content::Mem(Rc::new(std::fs::read(e.path()).expect("host file")))
            };
            Node::File(file(c))
        };
        d.entries.borrow_mut().insert(name, n);
    }
    Rc::new(d)
}
fn file(c: Content) -> Rc<FileNode> {
    Rc::new(FileNode { content: RefCell::new(c), version: Cell::new(0) })
}
pub fn load(p: &Path, order: u64) {
    ROOT.set(load_dir(p));
    HOST.set(p.to_path_buf());
    ORDER.set(order);
}
fn dump_dir(d: &DirNode, p: &Path) {
    std::fs::create_dir(p).expect("dump directory");
    for (n, e) in d.entries.borrow().iter() {
        match e {
            Node::Dir(d) => dump_dir(d, &p.join(n)),
            Node::File(f) => {
                match &*f.content.borrow() {
                    Content::Mem(v) => std::fs::write(p.join(n), &**v).expect("dump file"),
                    // only what has been written
                    Content::Host(h, _) => {
                        if HOST.with_borrow(|d| !h.starts_with(d)) {
                            std::fs::hard_link(&**h, p.join(n)).expect("dump file")
                        }
                    }
                }
            }
        }
    }
}
pub fn dump(p: &Path) {
    dump_dir(&ROOT.with_borrow(|r| r.clone()), p)
}
pub fn lookup(path: &str) -> Option<Node> {
    let mut n = Node::Dir(ROOT.with_borrow(|r| r.clone()));
    for c in path.split('/').filter(|c| !c.is_empty()) {
        let Node::Dir(d) = n else { return None };
        let next = d.entries.borrow().get(c).cloned();
        n = next?;
    }
    Some(n)
}
/// Someone else shortens a file.
pub fn truncate(path: &str, len: u64) {
    if let Some(Node::File(f)) = lookup(path) {
        let c = f.content.borrow().clone();
        let n = c.len().min(len);
        *f.content.borrow_mut() = Content::Mem(Rc::new(c.read(0, n)));
        f.version.set(f.version.get() + 1);
    }
}
/// The handle that a picker hands out.
pub fn pick(kind: &str, path: &str) -> JsValue {
    if kind == "save" && lookup(path).is_none() {
        let (dir, name) = path.rsplit_once('/').unwrap_or(("", path));
        let Some(Node::Dir(d)) = lookup(dir) else { panic!("harness: no directory {dir}") };
        d.entries.borrow_mut().insert(name.into(), Node::File(file(Content::Mem(Rc::default()))));
    }
    let name = path.rsplit('/').next().unwrap().to_string();
    match (kind, lookup(path)) {
        ("directory", Some(Node::Dir(node))) => JsValue::obj(DirHandle { node, name }),
        ("file" | "save", Some(Node::File(node))) => JsValue::obj(FileHandle { node, name }),
        _ => panic!("harness: {path} can't be picked as a {kind}"),
    }
}

// Handles

fn valid(name: &JsValue) -> Result<String, JsValue> {
    let s = name.as_string().ok_or_else(|| err("TypeError", "the name is not a string"))?;
    if s.is_empty() || s == "." || s == ".." || s.contains(['/', '\0']) || s.len() > 255 {
        return Err(err("TypeError", "Name is not allowed."));
    }
    Ok(s)
}
struct DirHandle {
    node: Rc<DirNode>,
    name: String,
}
fn handle(name: &str, n: &Node) -> JsValue {
    match n {
        Node::Dir(d) => JsValue::obj(DirHandle { node: d.clone(), name: name.into() }),
        Node::File(f) => JsValue::obj(FileHandle { node: f.clone(), name: name.into() }),
    }
}
impl DirHandle {
    fn child(&self, args: &[JsValue], dir: bool) -> JsValue {
        let node = self.node.clone();
        let args = args.to_vec();
        start(if dir { "getDirectoryHandle" } else { "getFileHandle" }, move || {
            let name = valid(&args[0])?;
            let create = match args.get(1) {
                Some(o) => get(o, "create")?.is_truthy(),
                None => false,
            };
            let mut e = node.entries.borrow_mut();
            match e.get(&name) {
                Some(n) if matches!(n, Node::Dir(_)) == dir => Ok(handle(&name, n)),
                Some(_) => Err(err("TypeMismatchError", "the entry is of the other kind")),
                None if create => {
                    let n = if dir { Node::Dir(Rc::default()) } else { Node::File(file(Content::Mem(Rc::default()))) };
                    let h = handle(&name, &n);
                    e.insert(name, n);
                    Ok(h)
                }
                None => Err(err("NotFoundError", "no such entry")),
            }
        })
    }
}
impl Host for DirHandle {
    fn class(&self) -> &'static str {
        "FileSystemDirectoryHandle"
    }
    fn get(&self, n: &str) -> Option<JsValue> {
        match n {
            "kind" => Some("directory".into()),
            "name" => Some(self.name.as_str().into()),
            _ => None,
        }
    }
    fn call(&self, n: &str, args: &[JsValue]) -> Result<JsValue, JsValue> {
        match n {
            "getFileHandle" => Ok(self.child(args, false)),
            "getDirectoryHandle" => Ok(self.child(args, true)),
            "removeEntry" => {
                let (node, args) = (self.node.clone(), args.to_vec());
                Ok(start("removeEntry", move || {
                    let name = valid(&args[0])?;
                    let mut e = node.entries.borrow_mut();
                    match e.get(&name) {
                        None => Err(err("NotFoundError", "no such entry")),
                        Some(Node::Dir(d)) if !d.entries.borrow().is_empty() => Err(err("InvalidModificationError", "the directory is not empty")),
                        Some(_) => {
                            e.remove(&name);
                            Ok(JsValue::UNDEFINED)
                        }
                    }
                }))
            }
            "entries" => {
                let mut l: Vec<_> = self.node.entries.borrow().iter().map(|(n, e)| (n.clone(), handle(n, e))).collect();
                // no particular order
                let mut s = ORDER.get() | 1;
                for i in (1..l.len()).rev() {
                    s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    l.swap(i, (s >> 33) as usize % (i + 1));
                }
                Ok(JsValue::obj(Entries(Rc::new(RefCell::new(l)))))
            }
            _ => Err(err("TypeError", &format!("no method {n}"))),
        }
    }
    fn any(&self) -> &dyn Any {
        self
    }
}
struct Entries(Rc<RefCell<Vec<(String, JsValue)>>>);
impl Host for Entries {
    fn class(&self) -> &'static str {
        "AsyncIterator"
    }
    fn call(&self, n: &str, _: &[JsValue]) -> Result<JsValue, JsValue> {
        match n {
            "next" => {
                let l = self.0.clone();
                Ok(start("next", move || {
                    let v = l.borrow_mut().pop();
                    Ok(JsValue::obj(Record(match v {
                        None => vec![("done", true.into()), ("value", JsValue::UNDEFINED)],
                        Some((n, h)) => {
                            vec![("done", false.into()), ("value", JsValue::obj(Array(RefCell::new(vec![n.into(), h]))))]
                        }
                    })))
                }))
            }
            _ => Err(err("TypeError", &format!("no method {n}"))),
        }
    }
    fn any(&self) -> &dyn Any {
        self
    }
}
pub struct Array(pub RefCell<Vec<JsValue>>);
impl Host for Array {
    fn class(&self) -> &'static str {
        "Array"
    }
    fn get(&self, n: &str) -> Option<JsValue> {
        match n {
            "length" => Some((self.0.borrow().len() as f64).into()),
            _ => self.0.borrow().get(n.parse::<usize>().ok()?).cloned(),
        }
    }
    fn any(&self) -> &dyn Any {
        self
    }
}
struct FileHandle {
    node: Rc<FileNode>,
    name: String,
}
impl Host for FileHandle {
    fn class(&self) -> &'static str {
        "FileSystemFileHandle"
    }
    fn get(&self, n: &str) -> Option<JsValue> {
        match n {
            "kind" => Some("file".into()),
            "name" => Some(self.name.as_str().into()),
            _ => None,
        }
    }
    fn call(&self, n: &str, args: &[JsValue]) -> Result<JsValue, JsValue> {
        let (node, name) = (self.node.clone(), self.name.clone());
        match n {
            "getFile" => Ok(start("getFile", move || {
                let content = node.content.borrow().clone();
                let len = content.len();
                Ok(JsValue::obj(Blob { version: node.version.get(), content, node, range: (0, len), name: Some(name) }))
            })),
            "createWritable" => {
                let keep = match args.first() {
                    Some(o) => get(o, "keepExistingData")?.is_truthy(),
                    None => false,
                };
                Ok(start("createWritable", move || {
                    let data = if keep { node.content.borrow().read(0, node.content.borrow().len()) } else { vec![] };
                    Ok(JsValue::obj(Writer(Rc::new(RefCell::new(Stream { node, data, large: None, pos: 0, state: State::Open })))))
                }))
            }
            _ => Err(err("TypeError", &format!("no method {n}"))),
        }
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

// Reading

#[derive(Clone)]
pub struct Blob {
    node: Rc<FileNode>,
    version: u64,
    content: Content,
    range: (u64, u64),
    name: Option<String>,
}
impl Blob {
    fn size(&self) -> u64 {
        self.range.1 - self.range.0
    }
    fn bytes(&self) -> Result<Vec<u8>, JsValue> {
        self.part(0, self.size())
    }
    fn part(&self, start: u64, end: u64) -> Result<Vec<u8>, JsValue> {
        if self.node.version.get() != self.version {
            return Err(err("NotReadableError", "the file has changed since it was opened"));
        }
        Ok(self.content.read(self.range.0 + start, self.range.0 + end))
    }
}
fn clamp(v: f64, size: u64) -> u64 {
    // [Clamp] long long, then negative values count from the end
    let v = if v.is_nan() { 0 } else { v.round_ties_even() as i64 };
    if v < 0 {
        (size as i64).saturating_add(v).max(0) as u64
    } else {
        (v as u64).min(size)
    }
}
impl Host for Blob {
    fn class(&self) -> &'static str {
        "File"
    }
    fn get(&self, n: &str) -> Option<JsValue> {
        match n {
            "size" => Some((self.size() as f64).into()),
            "name" => self.name.as_deref().map(|n| n.into()),
            _ => None,
        }
    }
    fn call(&self, n: &str, args: &[JsValue]) -> Result<JsValue, JsValue> {
        let num = |i: usize, d: u64| match args.get(i) {
            Some(v) if !v.is_undefined() => clamp(v.as_f64().unwrap_or(f64::NAN), self.size()),
            _ => d,
        };
        match n {
            "slice" => {
                let (a, b) = (num(0, 0), num(1, self.size()));
                let range = (self.range.0 + a, self.range.0 + b.max(a));
                Ok(JsValue::obj(Blob { range, name: None, ..self.clone() }))
            }
            "arrayBuffer" => {
                let b = self.clone();
                Ok(start("arrayBuffer", move || Ok(JsValue::obj(Bytes(RefCell::new(b.bytes()?))))))
            }
            _ => Err(err("TypeError", &format!("no method {n}"))),
        }
    }
    fn any(&self) -> &dyn Any {
        self
    }
}
/// An array buffer or a view of one.
pub struct Bytes(pub RefCell<Vec<u8>>);
impl Host for Bytes {
    fn class(&self) -> &'static str {
        "Uint8Array"
    }
    fn get(&self, n: &str) -> Option<JsValue> {
        match n {
            "length" | "byteLength" => Some((self.0.borrow().len() as f64).into()),
            _ => None,
        }
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

// Writing

#[derive(Clone, Copy, PartialEq)]
enum State {
    Open,
    Errored,
    Closed,
}
struct Stream {
    node: Rc<FileNode>,
    data: Vec<u8>,
    /// what is too large for memory: a file of the host
    large: Option<(PathBuf, std::fs::File)>,
    pos: u64,
    state: State,
}
const LARGE: u64 = 1 << 28;
impl Stream {
    fn put(&mut self, d: D) -> Result<(), JsValue> {
        let n = match &d {
            D::Now(v) => v.len() as u64,
            D::Later(b) => b.size(),
        };
        world::spend(n)?;
        let end = self.pos + n;
        if end > LARGE && self.large.is_none() {
            let id = LARGE_FILES.get();
            LARGE_FILES.set(id + 1);
            let p = HOST.with_borrow(|h| h.with_file_name(format!("large-{id}")));
            let f = std::fs::File::options().read(true).write(true).create_new(true).open(&p).expect("large file");
            put_sparse(&f, 0, &std::mem::take(&mut self.data));
            self.large = Some((p, f));
        }
        if let Some((_, f)) = &self.large {
            match d {
                D::Now(v) => put_sparse(f, self.pos, &v),
                D::Later(b) => {
                    let mut o = 0;
                    while o < n {
                        let m = (n - o).min(1 << 20);
                        put_sparse(f, self.pos + o, &b.part(o, o + m)?);
                        o += m;
                    }
                }
            }
        } else {
            let d = match d {
                D::Now(v) => v,
                D::Later(b) => b.bytes()?,
            };
            if self.data.len() < end as usize {
                self.data.resize(end as usize, 0);
            }
            self.data[self.pos as usize..end as usize].copy_from_slice(&d);
        }
        self.pos = end;
        Ok(())
    }
}
/// Zeroes beyond the end of a file leave a hole.
fn put_sparse(f: &std::fs::File, pos: u64, b: &[u8]) {
    static ZERO: [u8; 1 << 16] = [0; 1 << 16];
    let len = f.metadata().expect("large file").len();
    let end = pos + b.len() as u64;
    if len < end {
        f.set_len(end).expect("large file");
    }
    for (i, c) in b.chunks(1 << 16).enumerate() {
        let at = pos + ((i as u64) << 16);
        if at < len || *c != ZERO[..c.len()] {
            f.write_all_at(c, at).expect("large file");
        }
    }
}
/// The data of an array is copied when write is called, that of a file read later.
enum D {
    Now(Vec<u8>),
    Later(Blob),
}
struct Writer(Rc<RefCell<Stream>>);
impl Writer {
    fn op(&self, name: &'static str, f: impl FnOnce(&mut Stream) -> Settled + 'static) -> JsValue {
        let s = self.0.clone();
        // a rejected operation leaves the stream errored
        start_with(name, move |e| {
            let mut s = s.borrow_mut();
            if s.state != State::Open {
                return Err(err("TypeError", "the stream is not open"));
            }
            let r = match e {
                Some(e) => Err(e),
                None => f(&mut s),
            };
            if r.is_err() {
                s.state = State::Errored;
            }
            r
        })
    }
}
impl Host for Writer {
    fn class(&self) -> &'static str {
        "FileSystemWritableFileStream"
    }
    fn call(&self, n: &str, args: &[JsValue]) -> Result<JsValue, JsValue> {
        let arg = args.first().cloned().unwrap_or_default();
        match n {
            "seek" => Ok(self.op("seek", move |s| {
                let p = arg.as_f64().filter(|p| p.is_finite() && *p >= 0.0);
                s.pos = p.ok_or_else(|| err("TypeError", "invalid position"))? as u64;
                Ok(JsValue::UNDEFINED)
            })),
            "truncate" => Ok(self.op("truncate", move |s| {
                let n = arg.as_f64().unwrap_or(0.0) as usize;
                assert!(s.large.is_none() && (n as u64) < LARGE, "harness: the file is too large");
                s.data.resize(n, 0);
                s.pos = s.pos.min(n as u64);
                Ok(JsValue::UNDEFINED)
            })),
            "write" => {
                let d = if let Some(b) = arg.host::<Bytes>() {
                    D::Now(b.0.borrow().clone())
                } else if let Some(b) = arg.host::<Blob>() {
                    D::Later(b.clone())
                } else if let Some(s) = arg.as_string() {
                    D::Now(s.into_bytes())
                } else {
                    return Err(err("TypeError", "invalid data"));
                };
                Ok(self.op("write", move |s| {
                    s.put(d)?;
                    Ok(JsValue::UNDEFINED)
                }))
            }
            "close" => Ok(self.op("close", |s| {
                s.state = State::Closed;
                *s.node.content.borrow_mut() = match s.large.take() {
                    Some((p, f)) => Content::Host(Rc::new(p), f.metadata().expect("large file").len()),
                    None => Content::Mem(Rc::new(std::mem::take(&mut s.data))),
                };
                s.node.version.set(s.node.version.get() + 1);
                Ok(JsValue::UNDEFINED)
            })),
            "abort" => {
                let s = self.0.clone();
                Ok(start("abort", move || {
                    s.borrow_mut().state = State::Errored;
                    Ok(JsValue::UNDEFINED)
                }))
            }
            _ => Err(err("TypeError", &format!("no method {n}"))),
        }
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

/// The desktop program behind the application's scripts: a command is run by the real one.
pub fn command(name: &str, args: &[JsValue]) -> Settled {
    use std::io::BufRead;
    let exe = std::env::var("XV_DESKTOP").expect("harness: no desktop program");
    let (src, dest) = (args[0].as_string().expect("source"), args[1].as_string().expect("destination"));
    let mut c = std::process::Command::new(exe)
        .args([name, &src, &dest])
        .current_dir(HOST.with_borrow(|h| h.clone()))
        .stdout(std::process::Stdio::piped())
        .spawn()
        .expect("desktop program");
    let mut answer = None;
    for l in std::io::BufReader::new(c.stdout.take().unwrap()).lines() {
        let v: serde_json::Value = serde_json::from_str(&l.expect("output")).expect("output");
        if let Some(a) = v.get("answer") {
            answer = Some(match a {
                serde_json::Value::String(s) => JsValue::from(s.as_str()),
                _ => JsValue::NULL,
            });
            continue;
        }
        let p = JsValue::obj(Json(v["payload"].clone()));
        match v["event"].as_str() {
            Some("progress_callback") => args[2].invoke(p),
            Some("compress_callback") => {
                if let Some(f) = args.get(3) {
                    f.invoke(p)
                }
            }
            e => panic!("unknown event {e:?}"),
        }
    }
    let st = c.wait().expect("desktop program");
    if !st.success() {
        return Err(err("Error", "the command died"));
    }
    Ok(answer.expect("harness: no answer"))
}
pub struct Json(pub serde_json::Value);
impl Host for Json {
    fn class(&self) -> &'static str {
        "Object"
    }
    fn any(&self) -> &dyn Any {
        self
    }
}
