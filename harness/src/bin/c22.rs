//! C22: devices behave as plain byte arrays.
use ciso::write::SectorReader;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::fs::File;
use std::io::{BufReader, BufWriter, Cursor, Read, Seek, SeekFrom};
use std::sync::Arc;
use xdvdfs::blockdev::{BlockDeviceRead, BlockDeviceWrite, OffsetWrapper};
use xdvdfs::write::fs::{CisoSectorInput, FilesystemCopier, SectorLinearBlockContents, SectorLinearBlockDevice, SectorLinearBlockFilesystem};
use xv::builder::{build_checked, Layout};
use xv::content;
use xv::devs::{IoSrc, Medium, MemDev, SparseDev};
use xv::memfs::{MemFs, SliceFs};
use xv::ops::*;
use xv::runner::*;
use xv::tree::*;
use xv::{blk, ensure, OFFSETS};

/// The device under test; `None`: it has no such operation.
trait Dev {
    fn rd(&mut self, _o: u64, _b: &mut [u8]) -> Option<Result<(), String>> {
        None
    }
    fn wr(&mut self, _o: u64, _b: &[u8]) -> Option<Result<(), String>> {
        None
    }
    fn ln(&mut self) -> Option<Result<u64, String>> {
        None
    }
    fn empty(&mut self) -> Option<Result<bool, String>> {
        None
    }
    /// bytes at a position after seeking there
    fn seek_read(&mut self, _o: u64, _b: &mut [u8]) -> Option<Result<(), String>> {
        None
    }
}

struct R<T>(T);
impl<T: BlockDeviceRead> Dev for R<T>
where
    T::ReadError: Debug,
{
    fn rd(&mut self, o: u64, b: &mut [u8]) -> Option<Result<(), String>> {
        Some(blk!(BlockDeviceRead::read(&mut self.0, o, b)).map_err(e2s))
    }
}
struct W<T>(T);
impl<T: BlockDeviceWrite> Dev for W<T>
where
    T::WriteError: Debug,
{
    fn wr(&mut self, o: u64, b: &[u8]) -> Option<Result<(), String>> {
        Some(blk!(BlockDeviceWrite::write(&mut self.0, o, b)).map_err(e2s))
    }
    fn ln(&mut self) -> Option<Result<u64, String>> {
        Some(blk!(BlockDeviceWrite::len(&mut self.0)).map_err(e2s))
    }
    fn empty(&mut self) -> Option<Result<bool, String>> {
        Some(blk!(BlockDeviceWrite::is_empty(&mut self.0)).map_err(e2s))
    }
}
struct RW<T>(T);
impl<T: BlockDeviceRead + BlockDeviceWrite> Dev for RW<T>
where
    T::ReadError: Debug,
    T::WriteError: Debug,
{
    fn rd(&mut self, o: u64, b: &mut [u8]) -> Option<Result<(), String>> {
        Some(blk!(BlockDeviceRead::read(&mut self.0, o, b)).map_err(e2s))
    }
    fn wr(&mut self, o: u64, b: &[u8]) -> Option<Result<(), String>> {
        Some(blk!(BlockDeviceWrite::write(&mut self.0, o, b)).map_err(e2s))
    }
    fn ln(&mut self) -> Option<Result<u64, String>> {
        Some(blk!(BlockDeviceWrite::len(&mut self.0)).map_err(e2s))
    }
    fn empty(&mut self) -> Option<Result<bool, String>> {
        Some(blk!(BlockDeviceWrite::is_empty(&mut self.0)).map_err(e2s))
    }
}
/// A slice, used as such.
struct Slice(Box<[u8]>);
impl Dev for Slice {
    fn rd(&mut self, o: u64, b: &mut [u8]) -> Option<Result<(), String>> {
        Some(blk!(<[u8] as BlockDeviceRead>::read(&mut self.0, o, b)).map_err(e2s))
    }
    fn wr(&mut self, o: u64, b: &[u8]) -> Option<Result<(), String>> {
        Some(blk!(<[u8] as BlockDeviceWrite>::write(&mut self.0, o, b)).map_err(e2s))
    }
    fn ln(&mut self) -> Option<Result<u64, String>> {
        Some(blk!(<[u8] as BlockDeviceWrite>::len(&mut self.0)).map_err(e2s))
    }
    fn empty(&mut self) -> Option<Result<bool, String>> {
        Some(blk!(<[u8] as BlockDeviceWrite>::is_empty(&mut self.0)).map_err(e2s))
    }
}
/// A boxed slice: written as a boxed slice, read through its contents.
struct Boxed(Box<[u8]>);
impl Dev for Boxed {
    fn rd(&mut self, o: u64, b: &mut [u8]) -> Option<Result<(), String>> {
        let n = b.iter().count();
        let all: &Vec<u8> = &self.0.to_vec();
        if o.checked_add(n as u64).is_none_or(|e| all.get(..e as usize).is_none()) {
            return Some(Err("out of bounds".into()));
        }
        b.copy_from_slice(&all[o as usize..o as usize + n]);
        Some(Ok(()))
    }
    fn wr(&mut self, o: u64, b: &[u8]) -> Option<Result<(), String>> {
        Some(blk!(<Box<[u8]> as BlockDeviceWrite>::write(&mut self.0, o, b)).map_err(e2s))
    }
    fn ln(&mut self) -> Option<Result<u64, String>> {
        Some(blk!(<Box<[u8]> as BlockDeviceWrite>::len(&mut self.0)).map_err(e2s))
    }
    fn empty(&mut self) -> Option<Result<bool, String>> {
        Some(blk!(<Box<[u8]> as BlockDeviceWrite>::is_empty(&mut self.0)).map_err(e2s))
    }
}
/// A buffered file: written through the buffer, read from the file after asking for the length.
struct Buffered(BufWriter<File>, std::path::PathBuf);
impl Dev for Buffered {
    fn rd(&mut self, o: u64, b: &mut [u8]) -> Option<Result<(), String>> {
        if let Err(e) = blk!(BlockDeviceWrite::len(&mut self.0)) {
            return Some(Err(e2s(e)));
        }
        let mut f = File::open(&self.1).unwrap();
        if f.seek(SeekFrom::Start(o)).is_err() {
            return Some(Err("seek".into()));
        }
        Some(f.read_exact(b).map_err(e2s))
    }
    fn wr(&mut self, o: u64, b: &[u8]) -> Option<Result<(), String>> {
        Some(blk!(BlockDeviceWrite::write(&mut self.0, o, b)).map_err(e2s))
    }
    fn ln(&mut self) -> Option<Result<u64, String>> {
        Some(blk!(BlockDeviceWrite::len(&mut self.0)).map_err(e2s))
    }
    fn empty(&mut self) -> Option<Result<bool, String>> {
        Some(blk!(BlockDeviceWrite::is_empty(&mut self.0)).map_err(e2s))
    }
}
/// An offset wrapper over something seekable.
struct Off<T: BlockDeviceRead>(OffsetWrapper<T>);
impl<T: Read + Seek + Send + Sync> Dev for Off<T> {
    fn rd(&mut self, o: u64, b: &mut [u8]) -> Option<Result<(), String>> {
        Some(blk!(BlockDeviceRead::read(&mut self.0, o, b)).map_err(e2s))
    }
    fn seek_read(&mut self, o: u64, b: &mut [u8]) -> Option<Result<(), String>> {
        Some((|| {
            self.0.seek(SeekFrom::Start(o)).map_err(e2s)?;
            self.0.get_mut().read_exact(b).map_err(e2s)
        })())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// place kind, position, length kind, length, seed
    Write(u8, u64, u8, u16, u64),
    Read(u8, u64, u8, u16),
    SeekRead(u8, u64, u8, u16),
    Len,
    Empty,
}
fn ops() -> BoxedStrategy<Vec<Op>> {
    let place = (any::<u8>(), any::<u64>(), any::<u8>(), any::<u16>());
    proptest::collection::vec(
        prop_oneof![
            5 => (place.clone(), any::<u32>()).prop_map(|((a, b, c, d), s)| Op::Write(a, b, c, d, s as u64)),
            6 => place.clone().prop_map(|(a, b, c, d)| Op::Read(a, b, c, d)),
            1 => place.prop_map(|(a, b, c, d)| Op::SeekRead(a, b, c, d)),
            2 => Just(Op::Len),
            1 => Just(Op::Empty),
        ],
        1..40,
    )
    .boxed()
}

/// Offset and length relative to the current length `n`.
fn span(pk: u8, p: u64, lk: u8, l: u16, n: u64, huge: bool) -> (u64, usize) {
    let o = match pk % 16 {
        0 => 0,
        1 => n,
        2 => n.saturating_sub(1),
        3 => n + 1,
        4 => n + p % 5000,
        5..=8 => p % (n + 1),
        9 | 10 => (p % (n / 2048 + 2)) * 2048,
        11 => n.saturating_sub(p % 300),
        12 => n / 2,
        13 if huge => u64::MAX - p % 4000,
        14 if huge => (1 << 32) - 1 + p % 3,
        15 if huge => 1 << (40 + p % 20),
        _ => p % 100,
    };
    let left = n.saturating_sub(o);
    let len = match lk % 12 {
        0 => 0,
        1 => 1,
        2 => left,
        3 => left + 1,
        4 => left.saturating_sub(1),
        5 => 2048,
        6 => l as u64,
        7 => left + l as u64 % 3000,
        _ => l as u64 % 3000,
    };
    (o, len.min(1 << 20) as usize)
}

struct Spec {
    fixed: bool,
    /// offsets near the ends of the number range
    huge: bool,
    name: &'static str,
}

fn history(dev: &mut dyn Dev, model: &mut Vec<u8>, ops: &[Op], s: &Spec, cx: &mut Cx) -> Outcome {
    let (mut w, mut r, mut refused) = (0, 0, 0);
    for (i, op) in ops.iter().enumerate() {
        let n = model.len() as u64;
        let what = |t: String| format!("{}, step {i} of {}: {t}", s.name, ops.len());
        match op {
            Op::Write(pk, p, lk, l, seed) => {
                let (o, len) = span(*pk, *p, *lk, *l, n, s.huge && s.fixed);
                let data = content::bytes(*seed, len as u64);
                let Some(res) = dev.wr(o, &data) else { continue };
                let end = o.checked_add(len as u64);
                let fits = if s.fixed { end.is_some_and(|e| e <= n) } else { true };
                let t = what(format!("write of {len} bytes at {o} (length {n})"));
                if len == 0 && o >= n {
                    // nothing to write at or beyond the end: either answer will do
                } else {
                    ensure!(res.is_ok() == fits, "{t} gives {res:?}");
                }
                if fits && len > 0 {
                    let e = end.unwrap() as usize;
                    if model.len() < e {
                        model.resize(e, 0);
                    }
                    model[o as usize..e].copy_from_slice(&data);
                    w += 1;
                } else if len > 0 {
                    refused += 1;
                }
            }
            Op::Read(pk, p, lk, l) | Op::SeekRead(pk, p, lk, l) => {
                let (o, len) = span(*pk, *p, *lk, *l, n, s.huge);
                let mut b = vec![0xa5; len];
                let res = match op {
                    Op::Read(..) => dev.rd(o, &mut b),
                    _ => dev.seek_read(o, &mut b),
                };
                let Some(res) = res else { continue };
                let fits = o.checked_add(len as u64).is_some_and(|e| e <= n);
                let t = what(format!("read of {len} bytes at {o} (length {n})"));
                if len == 0 && o >= n {
                    continue;
                }
                ensure!(res.is_ok() == fits, "{t} gives {res:?}");
                if fits {
                    let want = &model[o as usize..o as usize + len];
                    ensure!(b == want, "{t}: byte {:?} differs", b.iter().zip(want).position(|(a, b)| a != b));
                    r += 1;
                } else {
                    refused += 1;
                }
            }
            Op::Len => {
                let Some(res) = dev.ln() else { continue };
                ensure!(res == Ok(n), "{}", what(format!("length is {res:?}, not {n}")));
            }
            Op::Empty => {
                let Some(res) = dev.empty() else { continue };
                ensure!(res == Ok(n == 0), "{}", what(format!("is_empty is {res:?} at length {n}")));
            }
        }
    }
    // everything at the end
    let n = model.len();
    if let Some(l) = dev.ln() {
        ensure!(l == Ok(n as u64), "{}: final length is {l:?}, not {n}", s.name);
    }
    let mut b = vec![0xa5; n];
    if n > 0 {
        if let Some(res) = dev.rd(0, &mut b) {
            ensure!(res.is_ok(), "{}: reading all {n} bytes gives {res:?}", s.name);
            ensure!(b == *model, "{}: at the end byte {:?} of {n} differs", s.name, b.iter().zip(model.iter()).position(|(a, b)| a != b));
        }
    }
    cx.evals(ops.len() as u64);
    cx.label(s.name);
    cx.label_if(refused > 0, "refused operations");
    cx.nontrivial(r >= 2 && (w >= 1 || dev.ln().is_none()));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: u8,
    len: u16,
    seed: u64,
    var: u8,
    ops: Vec<Op>,
}
fn case() -> BoxedStrategy<Case> {
    (any::<u8>(), prop_oneof![1 => Just(0u16), 2 => 1u16..64, 4 => 1u16..20000, 2 => proptest::sample::select(vec![1u16, 2047, 2048, 2049, 4096, 8192])], any::<u32>(), any::<u8>(), ops())
        .prop_map(|(kind, len, seed, var, ops)| Case { kind, len, seed: seed as u64, var, ops })
        .boxed()
}

fn fixed(k: &Case, cx: &mut Cx) -> Outcome {
    let mut m = content::bytes(k.seed, k.len as u64);
    let init = m.clone();
    let go = |d: &mut dyn Dev, m: &mut Vec<u8>, name, cx: &mut Cx| history(d, m, &k.ops, &Spec { fixed: true, huge: true, name }, cx);
    match k.kind % 8 {
        0 => go(&mut Slice(init.into()), &mut m, "slice", cx),
        1 => go(&mut Boxed(init.into()), &mut m, "boxed slice", cx),
        2 => go(&mut W(Box::new(init.into_boxed_slice()) as Box<dyn BlockDeviceWrite<WriteError = _>>), &mut m, "boxed writer of a boxed slice", cx),
        3 => go(&mut R(Cursor::new(init)), &mut m, "cursor over a vector", cx),
        4 => {
            let data: &'static [u8] = init.leak();
            let r = go(&mut R(Cursor::new(data)), &mut m, "cursor over a slice", cx);
            // give the bytes back
            drop(unsafe { Vec::from_raw_parts(data.as_ptr() as *mut u8, data.len(), data.len()) });
            r
        }
        5 => {
            let mut s = IoSrc::new(Medium::bare(init));
            s.short = [0, 1, 7, 1000][k.var as usize % 4];
            s.interrupt = [0, 2, 3, 9][(k.var / 4) as usize % 4];
            go(&mut R(s), &mut m, "stream with short reads", cx)
        }
        6 => {
            let s = IoSrc::new(Medium::bare(init));
            go(&mut R(BufReader::with_capacity([1, 16, 2048, 8192][k.var as usize % 4], s)), &mut m, "buffered reader", cx)
        }
        _ => go(&mut R(Box::new(Cursor::new(init)) as Box<dyn BlockDeviceRead<ReadError = _>>), &mut m, "boxed reader", cx),
    }
}

fn growing(k: &Case, cx: &mut Cx) -> Outcome {
    let s = cx.scratch();
    let p = s.join("f");
    let mut m = content::bytes(k.seed, k.len as u64);
    std::fs::write(&p, &m).map_err(|e| format!("harness: {e}"))?;
    let open = || std::fs::OpenOptions::new().read(true).write(true).open(&p).unwrap();
    let go = |d: &mut dyn Dev, m: &mut Vec<u8>, name, cx: &mut Cx| history(d, m, &k.ops, &Spec { fixed: false, huge: true, name }, cx);
    match k.kind % 6 {
        0 => go(&mut RW(open()), &mut m, "file", cx)?,
        1 | 2 | 3 => {
            let cap = [1, 16, 2048, 8192, 1 << 20][k.var as usize % 5];
            let mut d = Buffered(BufWriter::with_capacity(cap, open()), p.clone());
            if k.kind % 6 == 3 {
                // no reads in between: everything stays buffered as long as possible
                let ops: Vec<Op> = k.ops.iter().filter(|o| matches!(o, Op::Write(..))).cloned().collect();
                history(&mut d, &mut m, &ops, &Spec { fixed: false, huge: false, name: "buffered file, writes only" }, cx)?;
                cx.nontrivial(ops.len() > 2);
            } else {
                go(&mut d, &mut m, "buffered file", cx)?;
            }
            drop(d);
        }
        4 => go(&mut W(Box::new(open()) as Box<dyn BlockDeviceWrite<WriteError = _>>), &mut m, "boxed file", cx)?,
        _ => {
            let f: Box<dyn BlockDeviceRead<ReadError = _>> = Box::new(open());
            go(&mut R(f), &mut m, "boxed file reader", cx)?;
        }
    }
    let got = std::fs::read(&p).map_err(|e| format!("harness: {e}"))?;
    ensure!(got == m, "the file has {} bytes, the model {}; first difference {:?}", got.len(), m.len(), got.iter().zip(&m).position(|(a, b)| a != b));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OffCase {
    kind: u8,
    offset: u8,
    before: u8,
    tail: u16,
    seed: u64,
    ops: Vec<Op>,
}
fn off_case() -> BoxedStrategy<OffCase> {
    (any::<u8>(), 0u8..4, 0u8..4, prop_oneof![2 => Just(0u16), 1 => any::<u16>()], any::<u32>(), ops())
        .prop_map(|(kind, offset, before, tail, seed, ops)| OffCase { kind, offset, before, tail, seed: seed as u64, ops })
        .boxed()
}

fn offsets(k: &OffCase, cx: &mut Cx) -> Outcome {
    let img = build_checked(&Tree(vec![Entry { name: "f".into(), node: Node::File { len: k.seed % 9000, seed: k.seed } }]), &Layout::default());
    let med = Medium { image: Arc::new(img.clone()), base: OFFSETS[k.offset as usize], tail: k.tail as u64, surround: 1 + k.seed, far: None };
    let mut m = vec![0; img.len() + k.tail as usize];
    med.byte_run(med.base, &mut m);
    cx.label(format!("offset {}", med.base));
    let small = k.kind % 5;
    let spec = |fixed, name| Spec { fixed, huge: false, name };
    match small {
        0 => {
            let mut d = SparseDev { strict: true, ..Default::default() };
            blk!(BlockDeviceWrite::write(&mut d, med.base, &m)).unwrap();
            let before = [content::bytes(k.seed ^ 5, 5000), content::bytes(k.seed ^ 6, 5000)];
            let at = [0, med.base.saturating_sub(5000)];
            if med.base > 0 {
                for i in 0..2 {
                    blk!(BlockDeviceWrite::write(&mut d, at[i], &before[i])).unwrap();
                }
            }
            let w = blk!(OffsetWrapper::new(d)).map_err(|e| format!("image at {}: {e:?}", med.base))?;
            ensure!(w.get_offset() == med.base, "image at {} found at {}", med.base, w.get_offset());
            let mut d = RW(w);
            history(&mut d, &mut m, &k.ops, &spec(false, "offset wrapper over a growing device"), cx)?;
            // the bytes before the image are not touched
            if med.base > 0 {
                for i in 0..2 {
                    let mut b = vec![0; 5000];
                    blk!(BlockDeviceRead::read(d.0.get_mut(), at[i], &mut b)).map_err(e2s)?;
                    ensure!(b == before[i], "bytes before the image at {} changed", at[i]);
                }
            }
            let l = blk!(BlockDeviceWrite::len(d.0.get_mut())).map_err(e2s)?;
            ensure!(l == med.base + m.len() as u64, "the device under the wrapper has {l} bytes");
            Ok(())
        }
        1 => {
            let s = cx.scratch();
            let p = s.join("f");
            med.to_file(&p).map_err(|e| format!("harness: {e}"))?;
            // only the neighbourhood of the image is filled in the file
            let mut f = File::open(&p).unwrap();
            f.seek(SeekFrom::Start(med.base)).unwrap();
            m.clear();
            f.read_to_end(&mut m).unwrap();
            let f = std::fs::OpenOptions::new().read(true).write(true).open(&p).unwrap();
            let w = blk!(OffsetWrapper::new(f)).map_err(|e| format!("image at {}: {e:?}", med.base))?;
            ensure!(w.get_offset() == med.base, "image at {} found at {}", med.base, w.get_offset());
            history(&mut RW(w), &mut m, &k.ops, &spec(false, "offset wrapper over a file"), cx)
        }
        2 => {
            let w = blk!(OffsetWrapper::new(BufReader::with_capacity(1 + k.seed as usize % 9000, IoSrc::new(med.clone())))).map_err(|e| format!("image at {}: {e:?}", med.base))?;
            ensure!(w.get_offset() == med.base, "image at {} found at {}", med.base, w.get_offset());
            history(&mut Off(w), &mut m, &k.ops, &spec(true, "offset wrapper over a buffered reader"), cx)
        }
        3 => {
            let inner: Box<dyn BlockDeviceRead<ReadError = _>> = Box::new(med.clone());
            let w = blk!(OffsetWrapper::new(inner)).map_err(|e| format!("image at {}: {e:?}", med.base))?;
            ensure!(w.get_offset() == med.base, "image at {} found at {}", med.base, w.get_offset());
            history(&mut R(w), &mut m, &k.ops, &spec(true, "offset wrapper over a boxed reader"), cx)
        }
        _ => {
            // bare: a memory device through the wrapper at offset 0
            let w = blk!(OffsetWrapper::new(MemDev::new(img.clone()))).map_err(e2s)?;
            ensure!(w.get_offset() == 0, "image at 0 found at {}", w.get_offset());
            m = img;
            history(&mut RW(w), &mut m, &k.ops, &spec(false, "offset wrapper over memory"), cx)
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LinCase {
    files: Vec<(u64, u64)>,
    /// (gap before, kind, length or file)
    steps: Vec<(u8, bool, u16, u8)>,
    shuffle: u64,
    probe: Vec<u16>,
    /// first sector in use
    #[serde(default)]
    base: u64,
}
fn lin_case() -> BoxedStrategy<LinCase> {
    (
        proptest::collection::vec((prop_oneof![1 => Just(0u64), 2 => proptest::sample::select(vec![1u64, 2047, 2048, 2049, 4096]), 3 => 0u64..30000], any::<u32>()), 1..5),
        proptest::collection::vec((prop_oneof![3 => Just(0u8), 1 => 0u8..6], any::<bool>(), prop_oneof![1 => Just(0u16), 2 => proptest::sample::select(vec![1u16, 2047, 2048, 2049, 4096]), 3 => 0u16..20000], any::<u8>()), 0..12),
        any::<u64>(),
        proptest::collection::vec(any::<u16>(), 4),
        prop_oneof![3 => Just(0u64), 1 => (1u64 << 21) - 12..(1 << 21) + 4, 1 => (1u64 << 32) - 12..(1 << 32) + 4, 1 => 0u64..1 << 33],
    )
        .prop_map(|(f, steps, shuffle, probe, base)| LinCase { files: f.into_iter().map(|(l, s)| (l, s as u64)).collect(), steps, shuffle, probe, base })
        .boxed()
}

/// The sector map, then the sector reader the compressor uses.
fn linear(k: &LinCase, cx: &mut Cx) -> Outcome {
    let tree = Tree(k.files.iter().enumerate().map(|(i, (len, seed))| Entry { name: format!("f{i}"), node: Node::File { len: *len, seed: *seed } }).collect());
    let mut fs = SliceFs(MemFs::new(&tree));
    let mut dev = SectorLinearBlockDevice::default();
    // where each step goes, then executed in another order
    let mut at = k.base;
    let mut plan = vec![];
    for (gap, file, len, pick) in &k.steps {
        at += *gap as u64;
        let (data, size, f) = if *file {
            let i = *pick as usize % k.files.len();
            let (l, s) = k.files[i];
            // the copied size need not be the whole file
            let size = match pick % 3 {
                0 => (*len as u64).min(l),
                _ => l,
            };
            (content::range(s, l, 0, size.div_ceil(2048) * 2048), size, Some(i))
        } else {
            (content::bytes(*pick as u64 ^ k.shuffle, *len as u64), *len as u64, None)
        };
        let n = size.div_ceil(2048);
        plan.push((at, data, size, f));
        at += n;
    }
    let mut order: Vec<usize> = (0..plan.len()).collect();
    order.sort_by_key(|i| if k.shuffle % 3 == 0 { *i as u64 } else { content::mix(k.shuffle ^ *i as u64) });
    let mut model: BTreeMap<u64, (Vec<u8>, bool)> = BTreeMap::new();
    {
        let mut lfs = SectorLinearBlockFilesystem::new(&mut fs);
        for i in order {
            let (at, data, size, f) = &plan[i];
            match f {
                Some(f) => {
                    let n = blk!(lfs.copy_file_in(&pathvec(&[format!("f{f}")]), &mut dev, 0, at * 2048, *size)).map_err(e2s)?;
                    ensure!(n == *size, "copying {size} bytes of a file reports {n}");
                }
                None => blk!(BlockDeviceWrite::write(&mut dev, at * 2048, data)).map_err(e2s)?,
            }
            for j in 0..size.div_ceil(2048) {
                let mut b: Vec<u8> = data.iter().skip(j as usize * 2048).take(2048).copied().collect();
                b.resize(2048, 0);
                model.insert(at + j, (b, f.is_some()));
            }
            let want = model.last_key_value().map_or(0, |(k, _)| (k + 1) * 2048);
            let got = blk!(BlockDeviceWrite::len(&mut dev)).map_err(e2s)?;
            ensure!(got == want, "sector map: length {got}, not {want}");
            ensure!(blk!(BlockDeviceWrite::is_empty(&mut dev)).map_err(e2s)? == (want == 0), "sector map: is_empty at length {want}");
            ensure!(dev.num_sectors() == model.len(), "sector map: {} sectors, not {}", dev.num_sectors(), model.len());
        }
    }
    let end = model.last_key_value().map_or(0, |(k, _)| k + 1);
    let low = k.base.min(end);
    let outside = [0, u64::MAX / 2048, 1 << 40, end.saturating_sub(1) ^ 1 << 21, end.saturating_sub(1) ^ 1 << 32];
    for s in (low..end + 2).chain(outside) {
        match (&dev[s], model.get(&s)) {
            (SectorLinearBlockContents::RawData(b), Some((m, false))) => ensure!(b[..] == m[..], "sector {s} of the map has other data"),
            (SectorLinearBlockContents::File(..), Some((_, true))) => {}
            (SectorLinearBlockContents::Empty, None) => {}
            (g, w) => return Err(format!("sector {s} of the map is {g:?}, wanted {:?}", w.map(|w| w.1))),
        }
    }
    let mut input = CisoSectorInput::new(dev, SectorLinearBlockFilesystem::new(&mut fs));
    let size = blk!(input.size()).map_err(e2s)?;
    ensure!(size == end * 2048, "sector reader: size {size}, not {}", end * 2048);
    // in any order, repeatedly
    for s in (low..end).chain(k.probe.iter().map(|p| low + *p as u64 % (end - low + 3))) {
        let got = blk!(input.read_sector(s as usize, 2048)).map_err(e2s)?;
        let zero = vec![0; 2048];
        let want = model.get(&s).map_or(&zero, |m| &m.0);
        ensure!(got == *want, "sector reader: sector {s} of {end}, byte {:?} differs", got.iter().zip(want).position(|(a, b)| a != b));
    }
    cx.evals(end - low + 4);
    cx.label_if(end > 1 << 21, "beyond 4 GiB");
    cx.label_if((model.len() as u64) < end - low, "gaps");
    cx.label_if(model.values().any(|m| m.1), "file sectors");
    cx.nontrivial(model.len() >= 3);
    Ok(())
}

fn main() {
    let mut c = Check::new(
        "C22",
        "exploration",
        "a case is non-trivial when its history has at least two reads that must succeed (after at least one write,
         for writable devices), or the sector map holds at least three sectors",
    );
    c.assume("operations with an empty buffer at or beyond the end may succeed or fail");
    c.assume("the sector map is only given sector-aligned writes that do not overlap, as the image writer does; offsets through the offset wrapper stay below 2^60");
    c.part("fixed", 3000, 60000, case, fixed);
    c.part("growing", 2500, 50000, case, growing);
    c.part("offset", 600, 12000, off_case, offsets);
    c.part("sectors", 2500, 50000, lin_case, linear);
    c.finish()
}
