//! C23: packing sources deliver exactly the requested byte range.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::fs::File;
use std::io::{BufReader, BufWriter, Write};
use std::sync::Arc;
use xdvdfs::blockdev::{BlockDeviceWrite, OffsetWrapper};
use xdvdfs::write::fs::{DefaultCopier, FilesystemCopier, FilesystemHierarchy, FileType, PathVec, RemapOverlayConfig, RemapOverlayFilesystem, StdFilesystem, StdIOCopier, XDVDFSFilesystem};
use xv::builder::{build_far, Layout};
use xv::content;
use xv::devs::{IoMem, IoSrc, Medium, MemDev};
use xv::gen;
use xv::memfs::MemFs;
use xv::ops::*;
use xv::runner::*;
use xv::tree::*;
use xv::{blk, ensure, OFFSETS};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Copy {
    file: u8,
    /// kind and value of input offset, output offset, size
    i: (u8, u64),
    o: (u8, u64),
    s: (u8, u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    files: Vec<(u64, u64)>,
    deep: bool,
    lay: Layout,
    #[serde(default)]
    far: Option<(u16, u8)>,
    offset: u8,
    /// destination: initial length, filling
    dest: u32,
    short: u8,
    interrupt: u8,
    kind: u8,
    copies: Vec<Copy>,
}

fn case(big: bool) -> BoxedStrategy<Case> {
    let len = if big {
        prop_oneof![1 => (1u64 << 20) - 2..(1 << 20) + 3, 1 => (2u64 << 20) - 1..(2 << 20) + 2, 1 => 0u64..3 << 20, 1 => 0u64..5000].boxed()
    } else {
        prop_oneof![1 => Just(0u64), 2 => 1u64..64, 2 => proptest::sample::select(vec![1u64, 2047, 2048, 2049, 4096]), 3 => 0u64..20000].boxed()
    };
    let dest = if big { prop_oneof![1 => 0u32..100, 2 => 0u32..6 << 20].boxed() } else { prop_oneof![1 => 0u32..100, 3 => 0u32..50000].boxed() };
    let v = || (any::<u8>(), any::<u64>());
    let n = if big { 1..5usize } else { 1..12 };
    (
        (proptest::collection::vec((len, gen::seed()), 1..4), any::<bool>(), (gen::layout(), gen::far()), 0u8..4),
        (dest, prop_oneof![2 => Just(0u8), 1 => any::<u8>()], prop_oneof![2 => Just(0u8), 1 => 2u8..9], any::<u8>()),
        proptest::collection::vec((any::<u8>(), v(), v(), v()).prop_map(|(file, i, o, s)| Copy { file, i, o, s }), n),
    )
        .prop_map(|((files, deep, (lay, far), offset), (dest, short, interrupt, kind), copies)| Case { files, deep, lay, far, offset, dest, short, interrupt, kind, copies })
        .boxed()
}

/// input offset and size for a file of `n` bytes, output offset for a destination of `d` bytes
fn resolve(c: &Copy, n: u64, d: u64) -> (u64, u64, u64) {
    let i = match c.i.0 % 10 {
        0..=2 => 0,
        3 => n,
        4 => n.saturating_sub(1),
        5 => n + c.i.1 % 3000,
        6 => (c.i.1 % (n / 2048 + 1)) * 2048,
        7 => 1,
        8 if c.i.1 % 3 == 0 => 1 << 40,
        _ => c.i.1 % (n + 1),
    };
    let o = match c.o.0 % 8 {
        0 => 0,
        1 => d,
        2 => d.saturating_sub(1),
        3 => d + c.o.1 % 3000,
        4 => (c.o.1 % (d / 2048 + 1)) * 2048,
        5 => d.saturating_sub(n.saturating_sub(i)),
        _ => c.o.1 % (d + 1),
    };
    let s = match c.s.0 % 10 {
        0 | 1 => n,
        2 => n.saturating_sub(i),
        3 => n.saturating_sub(i) + 1,
        4 => n.saturating_sub(i).saturating_sub(1),
        5 => 2048,
        6 => 0,
        7 => d.saturating_sub(o),
        8 if c.s.1 % 3 == 0 => 1 << 41,
        _ => c.s.1 % (n + 1),
    };
    (i, o, s)
}

fn paths(k: &Case) -> Vec<Vec<String>> {
    (0..k.files.len())
        .map(|i| {
            let f = format!("f{i}");
            if k.deep && i % 2 == 0 {
                vec!["dir".into(), "Sub".into(), f]
            } else {
                vec![f]
            }
        })
        .collect()
}
fn tree(k: &Case) -> Tree {
    let (mut root, mut sub) = (vec![], vec![]);
    for (p, (len, seed)) in paths(k).into_iter().zip(&k.files) {
        let e = Entry { name: p.last().unwrap().clone(), node: Node::File { len: *len, seed: *seed } };
        if p.len() > 1 {
            sub.push(e)
        } else {
            root.push(e)
        }
    }
    if !sub.is_empty() {
        root.push(Entry { name: "dir".into(), node: Node::Dir(vec![Entry { name: "Sub".into(), node: Node::Dir(sub) }]) });
    }
    root.sort_by(|a, b| a.name.cmp(&b.name));
    Tree(root)
}

/// List everything once, as packing does.
fn prime<F: FilesystemHierarchy + ?Sized>(fs: &mut F) -> Result<(), String>
where
    F::Error: Debug,
{
    let mut st = vec![PathVec::default()];
    while let Some(p) = st.pop() {
        for e in blk!(fs.read_dir(&p)).map_err(e2s)? {
            if let FileType::Directory = e.file_type {
                st.push(PathVec::from_base(&p, &e.name));
            }
        }
    }
    Ok(())
}

#[derive(PartialEq, Clone, Copy)]
enum Room {
    Grows,
    /// fixed; copies that do not fit may be refused or cut
    Fixed,
}

/// Run the copies against the model; `view` shows the destination's bytes.
fn run<W, F>(k: &Case, prefix: &[&str], fs: &mut F, dest: &mut W, view: impl Fn(&mut W) -> Vec<u8>, room: Room, what: &str, cx: &mut Cx) -> Outcome
where
    W: BlockDeviceWrite + ?Sized,
    F: FilesystemCopier<W> + ?Sized,
    F::Error: Debug,
{
    let mut model = view(dest);
    let ps = paths(k);
    let mut moved = 0;
    for (step, c) in k.copies.iter().enumerate() {
        let f = c.file as usize % ps.len();
        let (len, seed) = k.files[f];
        let d = model.len() as u64;
        let (i, o, s) = resolve(c, len, d);
        let mut p: Vec<String> = prefix.iter().map(|s| s.to_string()).collect();
        p.extend(ps[f].iter().cloned());
        let t = format!("{what}, step {step}: copying {s} bytes at {i} of a file of {len} to {o} of a destination of {d}");
        let data = content::range(seed, len, i, s);
        let n = data.len() as u64;
        let r = blk!(fs.copy_file_in(&pathvec(&p), dest, i, o, s));
        let got = view(dest);
        let before = o.min(d) as usize;
        ensure!(got.len() >= before && got[..before] == model[..before], "{t}: bytes before the output offset changed");
        let fits = match room {
            Room::Grows => true,
            Room::Fixed => o <= d && n <= d - o,
        };
        if room == Room::Fixed {
            ensure!(got.len() as u64 == d, "{t}: the fixed destination has {} bytes", got.len());
        }
        match r {
            Ok(c) => {
                let can = if room == Room::Fixed { n.min(d.saturating_sub(o)) } else { n };
                ensure!(c == can, "{t}: reports {c}, {can} bytes can be delivered");
                let e = (o + c) as usize;
                if c > 0 {
                    ensure!(got.len() >= e, "{t}: reports {c} bytes, the destination has {}", got.len());
                    let g = &got[o as usize..e];
                    ensure!(g == &data[..c as usize], "{t}: byte {:?} of {c} differs", g.iter().zip(&data).position(|(a, b)| a != b));
                    moved += 1;
                    if room == Room::Grows {
                        let want = model.len().max(e);
                        ensure!(got.len() == want, "{t}: the destination has {} bytes then, not {want}", got.len());
                        ensure!(got[before..o as usize].iter().all(|b| *b == 0), "{t}: the gap before the output offset is not zero");
                    }
                } else if room == Room::Grows {
                    ensure!(got.len() == model.len(), "{t}: nothing to copy, but the destination has {} bytes", got.len());
                }
                // beyond the delivered bytes: unchanged, or cleared within the requested range of a fixed buffer
                if e < model.len() && (c > 0 || o < d) {
                    let req = o.saturating_add(s).min(d) as usize;
                    let (mid, tail) = (e.max(o as usize)..req.max(e), req.max(e)..model.len());
                    let kept = got[mid.clone()] == model[mid.clone()];
                    let cleared = room == Room::Fixed && got[mid].iter().all(|b| *b == 0);
                    ensure!(kept || cleared, "{t}: bytes after the delivered ones changed");
                    ensure!(got[tail.clone()] == model[tail], "{t}: bytes beyond the requested range changed");
                }
            }
            Err(e) => ensure!(!fits, "{t}: fails with {e:?}"),
        }
        model = got;
        cx.evals(1);
    }
    // names that do not exist deliver nothing
    let r = blk!(fs.copy_file_in(&pathvec(&["missing".into()]), dest, 0, 0, 10));
    ensure!(r.is_err(), "{what}: copying a missing file succeeds");
    ensure!(view(dest) == model, "{what}: copying a missing file changes the destination");
    cx.label(what.to_string());
    cx.nontrivial(moved >= 1);
    Ok(())
}

fn iomem(init: &[u8], k: &Case) -> IoMem {
    IoMem { data: init.to_vec(), short: [0, 0, 1, 100, 4096][k.kind as usize % 5].max(if init.len() > 60000 { 1000 } else { 0 }), ..Default::default() }
}

/// The destinations, one after another from the case.
macro_rules! with_dests {
    ($k:expr, $cx:expr, $prefix:expr, $src:expr, $name:expr, [$($d:ident),*], $make:expr) => {{
        let init = content::bytes($k.kind as u64 * 8 + 1, $k.dest as u64);
        let mut n = 0; $(let _ = stringify!($d); n += 1;)*
        let pick = ($k.kind as usize / 8) % n;
        let mut at = 0;
        $( if at == pick { dest!($d, $k, $cx, $prefix, $name, init, $make); } at += 1; )*
        let _ = (at, $src);
        Ok(())
    }};
}
macro_rules! dest {
    (iomem, $k:expr, $cx:expr, $p:expr, $n:expr, $init:expr, $make:expr) => {{
        let mut d = iomem(&$init, $k);
        run($k, $p, &mut $make()?, &mut d, |d| d.data.clone(), Room::Grows, &format!("{} to a stream", $n), $cx)?
    }};
    (memdev, $k:expr, $cx:expr, $p:expr, $n:expr, $init:expr, $make:expr) => {{
        let mut d = MemDev::new($init.clone());
        run($k, $p, &mut $make()?, &mut d, |d| d.data.clone(), Room::Grows, &format!("{} to a block device", $n), $cx)?
    }};
    (boxed, $k:expr, $cx:expr, $p:expr, $n:expr, $init:expr, $make:expr) => {{
        let mut d: Box<[u8]> = $init.clone().into_boxed_slice();
        run($k, $p, &mut $make()?, &mut d, |d| d.to_vec(), Room::Fixed, &format!("{} to a boxed slice", $n), $cx)?
    }};
    (slice, $k:expr, $cx:expr, $p:expr, $n:expr, $init:expr, $make:expr) => {{
        let mut d = $init.clone();
        run::<[u8], _>($k, $p, &mut $make()?, &mut d[..], |d| d.to_vec(), Room::Fixed, &format!("{} to a slice", $n), $cx)?
    }};
    (file, $k:expr, $cx:expr, $p:expr, $n:expr, $init:expr, $make:expr) => {{
        let p = $cx.scratch().join("dest");
        std::fs::write(&p, &$init).map_err(|e| format!("harness: {e}"))?;
        let mut d = std::fs::OpenOptions::new().read(true).write(true).open(&p).unwrap();
        run($k, $p, &mut $make()?, &mut d, |_: &mut File| std::fs::read(&p).unwrap(), Room::Grows, &format!("{} to a file", $n), $cx)?
    }};
    (buf, $k:expr, $cx:expr, $p:expr, $n:expr, $init:expr, $make:expr) => {{
        let p = $cx.scratch().join("dest");
        std::fs::write(&p, &$init).map_err(|e| format!("harness: {e}"))?;
        let f = std::fs::OpenOptions::new().read(true).write(true).open(&p).unwrap();
        let mut d = BufWriter::with_capacity([16, 2048, 8192, 1 << 20][$k.short as usize % 4], f);
        run(
            $k,
            $p,
            &mut $make()?,
            &mut d,
            |d: &mut BufWriter<File>| {
                d.flush().unwrap();
                std::fs::read(&p).unwrap()
            },
            Room::Grows,
            &format!("{} to a buffered file", $n),
            $cx,
        )?
    }};
}

fn host(k: &Case, cx: &mut Cx) -> Outcome {
    let s = cx.scratch().join("src");
    host_tree(&s, &tree(k));
    with_dests!(k, cx, &[], (), "host directory", [iomem, boxed, slice, file, buf], || Ok::<_, String>(StdFilesystem::create(&s)))
}

fn source(k: &Case) -> (Medium, IoSrc) {
    let (image, far) = build_far(&tree(k), &k.lay, k.far);
    let m = Medium { image: Arc::new(image), base: OFFSETS[k.offset as usize], tail: 3000, surround: 7, far };
    let mut s = IoSrc::new(m.clone());
    s.short = if k.files.iter().any(|f| f.0 > 60000) { (k.short as usize) << 8 } else { k.short as usize };
    s.interrupt = k.interrupt as u64;
    (m, s)
}

fn image_default(k: &Case, cx: &mut Cx) -> Outcome {
    let (m, io) = source(k);
    cx.label(format!("image at {}", m.base));
    macro_rules! make {
        ($src:expr) => {
            || {
                let dev = blk!(OffsetWrapper::new($src)).map_err(e2s)?;
                let mut fs = blk!(XDVDFSFilesystem::<_, _, DefaultCopier<_, _>>::new(dev)).ok_or("not opened")?;
                prime(&mut fs)?;
                Ok::<_, String>(fs)
            }
        };
    }
    if k.kind & 1 == 0 {
        with_dests!(k, cx, &[], (), "image, plain copies", [memdev, boxed, slice, file, buf, iomem], make!(m.clone()))
    } else {
        with_dests!(k, cx, &[], (), "image stream, plain copies", [memdev, boxed, slice, file, buf, iomem], make!(BufReader::with_capacity(1 + k.dest as usize % 5000, io.clone())))
    }
}

fn image_stdio(k: &Case, cx: &mut Cx) -> Outcome {
    let (m, io) = source(k);
    cx.label(format!("image at {}", m.base));
    match k.kind % 3 {
        0 => with_dests!(k, cx, &[], (), "image, stream copies", [iomem, file, buf], || {
            let dev = blk!(OffsetWrapper::new(io.clone())).map_err(e2s)?;
            let mut fs = blk!(XDVDFSFilesystem::<_, _, StdIOCopier<_, _>>::new(dev)).ok_or("not opened")?;
            prime(&mut fs)?;
            Ok::<_, String>(fs)
        }),
        1 => with_dests!(k, cx, &[], (), "image, buffered stream copies", [iomem, file, buf], || {
            let dev = blk!(OffsetWrapper::new(BufReader::with_capacity(1 + k.dest as usize % 5000, io.clone()))).map_err(e2s)?;
            let mut fs = blk!(XDVDFSFilesystem::<_, _, StdIOCopier<_, _>>::new(dev)).ok_or("not opened")?;
            prime(&mut fs)?;
            Ok::<_, String>(fs)
        }),
        _ => {
            let mut bare = io.clone();
            bare.m.base = 0;
            with_dests!(k, cx, &[], (), "bare image, stream copies", [iomem, file, buf], || {
                let mut fs = blk!(XDVDFSFilesystem::<_, _, StdIOCopier<_, _>>::new(bare.clone())).ok_or("not opened")?;
                prime(&mut fs)?;
                Ok::<_, String>(fs)
            })
        }
    }
}

fn overlay(k: &Case, cx: &mut Cx) -> Outcome {
    let cfg = || RemapOverlayConfig { map_rules: vec![("**".into(), "/re/{0}".into())] };
    // the rule matches every entry; directories keep their names below /re
    match k.kind % 3 {
        0 => {
            let s = cx.scratch().join("src");
            host_tree(&s, &tree(k));
            with_dests!(k, cx, &["re"], (), "overlay of a host directory", [boxed, file], || {
                blk!(RemapOverlayFilesystem::new(StdFilesystem::create(&s), cfg())).map_err(|_| "overlay not built".to_string())
            })
        }
        1 => with_dests!(k, cx, &["re"], (), "overlay of a memory source", [memdev, file], || {
            blk!(RemapOverlayFilesystem::new(MemFs::new(&tree(k)), cfg())).map_err(|_| "overlay not built".to_string())
        }),
        _ => {
            let fs: Box<dyn Fn() -> MemFs> = Box::new(|| MemFs::new(&tree(k)));
            with_dests!(k, cx, &[], (), "boxed source", [memdev], || {
                let b: Box<dyn FilesystemCopier<MemDev, Error = xv::memfs::MemFsError>> = Box::new(fs());
                Ok::<_, String>(b)
            })
        }
    }
}

fn main() {
    let mut c = Check::new("C23", "exploration", "a case is non-trivial when at least one of its copies delivers bytes");
    c.assume("a copy that does not fit a fixed destination may be refused or cut at its end; the remainder of the requested range of a fixed destination may be cleared");
    c.part("host", 5000, 100000, || case(false), host);
    c.part("image", 5000, 100000, || case(false), image_default);
    c.part("stream", 5000, 100000, || case(false), image_stdio);
    c.part("overlay", 3000, 60000, || case(false), overlay);
    c.part("big host", 200, 4000, || case(true), host);
    c.part("big image", 200, 4000, || case(true), image_default);
    c.part("big stream", 200, 4000, || case(true), image_stdio);
    c.finish()
}
