//! Operations of the code under test described as data, with everything they show as text:
//! the same job is run by the blocking and by the asynchronous build.
use crate::builder::Layout;
use crate::devs::{DevError, IoMem, IoSrc, Medium, MemDev};
use crate::memfs::{MemFs, SliceFs};
use crate::muts::{image, M};
use crate::ops::*;
use crate::tree::*;
use crate::{blk, OFFSETS};
use maybe_async::maybe_async;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::path::Path;
use std::sync::Arc;
use xdvdfs::blockdev::{self, OffsetWrapper};
use xdvdfs::layout::DirectoryEntryTable;
use xdvdfs::write::fs as wfs;
use xdvdfs::write::img::create_xdvdfs_image;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Job {
    /// pack from memory; failing calls of source and output; copies in pieces
    Pack { tree: Tree, fail_src: Option<u64>, fail_out: Option<u64>, chunk: u16 },
    /// pack a host directory into: 0 memory, 1 memory with short writes, 2 a buffered file, 3 a box
    Host { tree: Tree, how: u8, fail: Option<u64>, cap: u16 },
    Remap { tree: Tree, rules: Vec<(String, String)>, host: bool },
    /// open an image and look at everything
    Open { tree: Tree, lay: Layout, muts: Vec<M>, base: u8, tail: u16, paths: Vec<String>, fail: Option<u64>, range: (u32, u32) },
    /// repack an image: 0 generic copier, 1 std::io copier, 2 std::io copier through a buffered reader, 3 compressed
    Repack { tree: Tree, lay: Layout, muts: Vec<M>, base: u8, how: u8, fail: Option<u64>, fail_out: Option<u64>, short: u16 },
    /// compress from memory (false) or a host directory
    Compress { tree: Tree, host: bool },
    /// calls on one device
    Devices { kind: u8, size: u16, ops: Vec<(u8, u32, u16)> },
}

fn digest(b: &[u8]) -> String {
    use md5::Digest;
    format!("{} bytes {:x}", b.len(), md5::Md5::digest(b))
}

/// Suspends once in the asynchronous build.
#[cfg(not(feature = "sync"))]
pub async fn pause() {
    let mut first = true;
    futures::future::poll_fn(move |cx| {
        if std::mem::take(&mut first) {
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        } else {
            std::task::Poll::Ready(())
        }
    })
    .await
}
#[cfg(feature = "sync")]
pub fn pause() {}

/// Reads of a medium, limited in number, with one failing, suspending now and then.
#[derive(Clone, Debug)]
pub struct Src {
    m: Medium,
    k: u64,
    fail: Option<u64>,
    fuel: u64,
}
#[maybe_async]
impl blockdev::BlockDeviceRead for Src {
    type ReadError = DevError;
    async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), DevError> {
        let k = self.k;
        self.k += 1;
        if k % 3 == 1 {
            pause().await;
        }
        if k >= self.fuel {
            if k > self.fuel + 64 {
                panic!("read budget exhausted and errors ignored");
            }
            return Err(DevError::Fuel);
        }
        if self.fail == Some(k) {
            return Err(DevError::Injected);
        }
        if offset.checked_add(buffer.len() as u64).is_none_or(|e| e > self.m.len()) {
            return Err(DevError::OutOfRange);
        }
        self.m.byte_run(offset, buffer);
        Ok(())
    }
}

/// A memory device that suspends now and then.
#[derive(Default)]
pub struct Dst(MemDev);
#[maybe_async]
impl blockdev::BlockDeviceWrite for Dst {
    type WriteError = DevError;
    async fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), DevError> {
        if self.0.writes % 2 == 0 {
            pause().await;
        }
        self.0.do_write(offset, buffer)
    }
    async fn len(&mut self) -> Result<u64, DevError> {
        pause().await;
        <MemDev as blockdev::BlockDeviceWrite>::len(&mut self.0).await
    }
}

fn res<T, E: Debug>(out: &mut Vec<String>, what: &str, r: Result<T, E>) -> Option<T> {
    match r {
        Ok(v) => {
            out.push(format!("{what}: ok"));
            Some(v)
        }
        Err(e) => {
            out.push(format!("{what}: {e:?}"));
            None
        }
    }
}

fn compress<F>(fs: &mut F, out: &mut Vec<String>)
where
    F: wfs::FilesystemHierarchy + wfs::FilesystemCopier<[u8]>,
    <F as wfs::FilesystemHierarchy>::Error: Debug,
    <F as wfs::FilesystemCopier<[u8]>>::Error: Debug,
{
    let mut dev = wfs::SectorLinearBlockDevice::default();
    let mut sfs = wfs::SectorLinearBlockFilesystem::new(fs);
    let mut ev = vec![];
    let r = blk!(create_xdvdfs_image(&mut sfs, &mut dev, |p| ev.push(format!("{p:?}"))));
    out.append(&mut ev);
    if res(out, "pack", r).is_none() {
        return;
    }
    let mut input = wfs::CisoSectorInput::new(dev, sfs);
    let mut o = std::io::Cursor::new(vec![]);
    let r = blk!(ciso::write::write_ciso_image(&mut input, &mut o, |_| {}));
    res(out, "compress", r);
    out.push(digest(&o.into_inner()));
}

fn node(n: &xdvdfs::layout::DirectoryEntryNode) -> String {
    format!("{:?} left {} right {}", desc_of(n), { n.node.left_entry_offset }, { n.node.right_entry_offset })
}

fn nodes(what: &str, l: &[xdvdfs::layout::DirectoryEntryNode], out: &mut Vec<String>) {
    out.push(format!("{what}: {} entries", l.len()));
    out.extend(l.iter().map(node));
}

fn scan(t: &DirectoryEntryTable, dev: &mut OffsetWrapper<Src>, out: &mut Vec<String>) {
    let mut got = vec![];
    let mut failed = false;
    match blk!(t.scan_dirent_tree(dev)) {
        Err(e) => {
            failed = true;
            out.push(format!("scan: {e:?}"));
        }
        Ok(mut it) => loop {
            match blk!(it.next_entry()) {
                Ok(Some(n)) => got.push(n),
                Ok(None) => break,
                Err(e) => {
                    failed = true;
                    out.push(format!("scan: {e:?}"));
                    break;
                }
            }
        },
    }
    nodes("scan", &got, out);
    let _ = failed;
    // the blocking build has an iterator besides, which ends at errors
    #[cfg(feature = "sync")]
    {
        let k = dev.get_ref().k;
        if !failed && dev.get_ref().fail.is_none_or(|f| f < k) && k + 1000 < dev.get_ref().fuel {
            if let Ok(it) = t.scan_dirent_tree(dev) {
                let l: Vec<_> = it.map(|n| node(&n)).collect();
                let m: Vec<_> = got.iter().map(node).collect();
                if l != m {
                    out.push(format!("the iterator shows {l:?}"));
                }
            }
            dev.get_mut().k = k;
        }
    }
}

fn open(job: &Job, out: &mut Vec<String>) {
    let Job::Open { tree, lay, muts, base, tail, paths, fail, range } = job else { unreachable!() };
    let img = image(tree, lay, muts);
    let m = Medium { image: Arc::new(img), base: OFFSETS[*base as usize % 4], tail: *tail as u64, surround: 5, far: None };
    let src = Src { m, k: 0, fail: *fail, fuel: 20_000 };
    let Some(mut dev) = res(out, "open", blk!(OffsetWrapper::new(src))) else { return };
    let Some(vol) = res(out, "volume", blk!(xdvdfs::read::read_volume(&mut dev))) else { return };
    out.push(format!("{vol:?}"));
    match blk!(vol.root_dirent(&mut dev)) {
        Ok(n) => out.push(format!("root entry {:?}", n.as_ref().map(node))),
        Err(e) => out.push(format!("root entry: {e:?}")),
    }
    let root = vol.root_table;
    if let Some(l) = res(out, "walk", blk!(root.walk_dirent_tree(&mut dev))) {
        nodes("walk", &l, out);
        for n in l.iter().take(10) {
            if let Some(t) = n.node.dirent.dirent_table() {
                scan(&t, &mut dev, out);
            }
        }
    }
    scan(&root, &mut dev, out);
    let mut known = vec![];
    if let Some(l) = res(out, "tree", blk!(root.file_tree(&mut dev))) {
        for (d, n) in &l {
            out.push(format!("{d:?} {}", node(n)));
            if let Ok(s) = n.name_str::<DevError>() {
                known.push(format!("{d}/{s}"));
            }
        }
        for (_, n) in l.iter().take(40) {
            let d = n.node.dirent;
            let size = d.data.size;
            if size > 1 << 22 {
                continue;
            }
            match blk!(d.read_data_all(&mut dev)) {
                Ok(b) => out.push(digest(&b)),
                Err(e) => out.push(format!("data: {e:?}")),
            }
            let mut b = vec![0xa5; (range.1 % 5000) as usize];
            let r = blk!(d.read_data(&mut dev, &mut b));
            out.push(format!("data: {r:?} {}", digest(&b)));
            let at = if size == 0 { range.0 as u64 } else { range.0 as u64 % (size as u64 * 2) };
            match blk!(d.read_data_offset(&mut dev, range.1 as u64 % 5000, at)) {
                Ok(b) => out.push(digest(&b)),
                Err(e) => out.push(format!("data at {at}: {e:?}")),
            }
        }
    }
    for p in paths.iter().cloned().chain(known.into_iter().take(20).enumerate().map(|(i, p)| crate::gen::flip_case(&p, (i as u64) << 7 | i as u64))) {
        match blk!(root.walk_path(&mut dev, &p)) {
            Ok(n) => out.push(format!("{p:?} {}", node(&n))),
            Err(e) => out.push(format!("{p:?}: {e:?}")),
        }
    }
}

fn repack(job: &Job, out: &mut Vec<String>) {
    let Job::Repack { tree, lay, muts, base, how, fail, fail_out, short } = job else { unreachable!() };
    let img = image(tree, lay, muts);
    let m = Medium { image: Arc::new(img), base: OFFSETS[*base as usize % 4], tail: 0, surround: 5, far: None };
    let mut ev = vec![];
    match how {
        0 => {
            let src = Src { m, k: 0, fail: *fail, fuel: 100_000 };
            let Some(dev) = res(out, "open", blk!(OffsetWrapper::new(src))) else { return };
            let Some(mut fs) = blk!(wfs::XDVDFSFilesystem::<_, Dst>::new(dev)) else {
                out.push("no file system".into());
                return;
            };
            let mut d = Dst(MemDev { fail_write_at: *fail_out, ..MemDev::default() });
            let r = blk!(create_xdvdfs_image(&mut fs, &mut d, |p| ev.push(format!("{p:?}"))));
            out.append(&mut ev);
            res(out, "repack", r);
            out.push(digest(&d.0.data));
        }
        1 | 2 => {
            let src = IoSrc { short: *short as usize, interrupt: *short as u64 % 7, fail_at: *fail, fuel: Some(200_000), ..IoSrc::new(m) };
            let mut d = IoMem { fail_at: *fail_out, short: *short as usize / 3, ..IoMem::default() };
            if *how == 1 {
                let Some(dev) = res(out, "open", blk!(OffsetWrapper::new(src))) else { return };
                let Some(mut fs) = blk!(wfs::XDVDFSFilesystem::<_, IoMem, wfs::StdIOCopier<_, _>>::new(dev)) else {
                    out.push("no file system".into());
                    return;
                };
                let r = blk!(create_xdvdfs_image(&mut fs, &mut d, |p| ev.push(format!("{p:?}"))));
                res(out, "repack", r);
            } else {
                let Some(dev) = res(out, "open", blk!(OffsetWrapper::new(std::io::BufReader::with_capacity(700, src)))) else { return };
                let Some(mut fs) = blk!(wfs::XDVDFSFilesystem::<_, IoMem, wfs::StdIOCopier<_, _>>::new(dev)) else {
                    out.push("no file system".into());
                    return;
                };
                let r = blk!(create_xdvdfs_image(&mut fs, &mut d, |p| ev.push(format!("{p:?}"))));
                res(out, "repack", r);
            }
            out.append(&mut ev);
            out.push(digest(&d.data));
        }
        _ => {
            let src = Src { m, k: 0, fail: *fail, fuel: 100_000 };
            let Some(dev) = res(out, "open", blk!(OffsetWrapper::new(src))) else { return };
            let Some(mut fs) = blk!(wfs::XDVDFSFilesystem::<_, [u8]>::new(dev)) else {
                out.push("no file system".into());
                return;
            };
            compress(&mut fs, out);
        }
    }
}

fn remap(job: &Job, dir: &Path, out: &mut Vec<String>) {
    let Job::Remap { tree, rules, host } = job else { unreachable!() };
    let cfg = wfs::RemapOverlayConfig { map_rules: rules.clone() };
    macro_rules! both {
        ($fs:expr) => {{
            let Some(mut fs) = res(out, "rules", blk!(wfs::RemapOverlayFilesystem::new($fs, cfg))) else { return };
            for (h, g) in fs.dump() {
                out.push(format!("{} -> {}", h.as_string(), g.as_string()));
            }
            let mut d: IoMem = IoMem::default();
            let mut ev = vec![];
            let r = blk!(create_xdvdfs_image(&mut fs, &mut d, |p| ev.push(format!("{p:?}"))));
            out.append(&mut ev);
            res(out, "pack", r);
            out.push(digest(&d.data));
        }};
    }
    if *host {
        host_tree(dir, tree);
        both!(wfs::StdFilesystem::create(dir))
    } else {
        both!(MemFs::new(tree))
    }
}

fn devices(job: &Job, dir: &Path, out: &mut Vec<String>) {
    use blockdev::{BlockDeviceRead as Rd, BlockDeviceWrite as Wr};
    let Job::Devices { kind, size, ops } = job else { unreachable!() };
    let size = *size as usize % 9000;
    let fill = crate::content::bytes(11, size as u64);
    macro_rules! drive {
        ($d:expr, $read:tt, $write:tt) => {{
            let d = $d;
            for (op, at, n) in ops {
                let at = if op & 8 == 0 { *at as u64 % (size as u64 + 3000) } else { (*at as u64) << 33 | *at as u64 };
                let n = *n as usize % 5000;
                match op % 4 {
                    0 | 1 => drive!(@r $read d at n),
                    2 => drive!(@w $write d at n),
                    _ => drive!(@l $write d),
                }
            }
        }};
        (@r y $d:ident $at:ident $n:ident) => {{
            let mut b = vec![0x5a; $n];
            let r = blk!(Rd::read(&mut *$d, $at, &mut b));
            out.push(format!("read {} at {}: {:?} {}", $n, $at, r.as_ref().err(), if r.is_ok() { digest(&b) } else { String::new() }));
        }};
        (@w y $d:ident $at:ident $n:ident) => {{
            let at = $at % 20_000;
            let b = crate::content::bytes($n as u64 ^ 3, $n as u64);
            let r = blk!(Wr::write(&mut *$d, at, &b));
            out.push(format!("write {} at {}: {:?}", $n, at, r));
        }};
        (@l y $d:ident) => {{
            let r = blk!(Wr::len(&mut *$d));
            let e = blk!(Wr::is_empty(&mut *$d));
            out.push(format!("len {r:?} empty {e:?}"));
        }};
        (@r n $d:ident $at:ident $n:ident) => {{}};
        (@w n $d:ident $at:ident $n:ident) => {{}};
        (@l n $d:ident) => {{}};
    }
    let path = dir.join("dev");
    let file = || {
        std::fs::create_dir_all(dir).expect("harness: dir");
        std::fs::write(&path, &fill).expect("harness: file");
        std::fs::File::options().read(true).write(true).open(&path).expect("harness: open")
    };
    match kind % 8 {
        0 => {
            let mut b = fill.clone().into_boxed_slice();
            drive!(&mut *b, y, y);
            out.push(digest(&b));
        }
        1 => {
            let mut b = fill.clone().into_boxed_slice();
            drive!(&mut b, n, y);
            out.push(digest(&b));
        }
        2 => drive!(&mut std::io::BufReader::with_capacity(500, file()), y, n),
        3 => {
            let mut f = std::io::BufWriter::with_capacity(900, file());
            drive!(&mut f, n, y);
            drop(f);
            out.push(digest(&std::fs::read(&path).unwrap_or_default()));
        }
        4 => {
            let mut f = file();
            drive!(&mut f, n, y);
            drop(f);
            out.push(digest(&std::fs::read(&path).unwrap_or_default()));
        }
        5 => {
            let img = crate::builder::build(&Tree(vec![]), &Layout::default());
            let m = Medium { image: Arc::new(img), base: OFFSETS[size % 4], tail: size as u64, surround: 1, far: None };
            let Some(mut d) = res(out, "open", blk!(OffsetWrapper::new(Src { m, k: 0, fail: None, fuel: 1 << 40 }))) else { return };
            drive!(&mut d, y, n)
        }
        6 => {
            // not an image
            let m = Medium { image: Arc::new(fill.clone()), base: 0, tail: 0, surround: 0, far: None };
            res(out, "open", blk!(OffsetWrapper::new(Src { m, k: 0, fail: None, fuel: 1 << 40 })));
        }
        _ => {
            let mut d = wfs::SectorLinearBlockDevice::default();
            let d = &mut d;
            for (op, at, n) in ops {
                let at = *at as u64 % 30 * 2048 + if op & 2 == 0 { 0 } else { *at as u64 % 2048 };
                let b = crate::content::bytes(*n as u64, (*n as u64 % 5000).min(if op & 2 == 0 { 5000 } else { 2048 - at % 2048 }));
                if op & 1 == 0 {
                    let r: Result<(), std::convert::Infallible> = match blk!(Wr::write(d, at, &b)) {
                        Ok(()) => Ok(()),
                        Err(e) => {
                            out.push(format!("write: {e:?}"));
                            continue;
                        }
                    };
                    out.push(format!("write {} at {at}: {r:?}", b.len()));
                } else {
                    out.push(format!("len {:?}", blk!(Wr::len(d)).ok()));
                }
            }
        }
    }
}

/// Run a job; `dir` does not exist yet and may be used.
pub fn run(job: &Job, dir: &Path) -> Vec<String> {
    let mut out = vec![];
    let mut ev = vec![];
    match job {
        Job::Pack { tree, fail_src, fail_out, chunk } => {
            let mut fs = MemFs::new(tree);
            fs.fail_at = *fail_src;
            fs.chunk = *chunk as usize;
            let mut d = Dst(MemDev { fail_write_at: *fail_out, ..MemDev::default() });
            let r = blk!(create_xdvdfs_image(&mut fs, &mut d, |p| ev.push(format!("{p:?}"))));
            out.append(&mut ev);
            res(&mut out, "pack", r);
            out.push(format!("{} source calls, {} writes", fs.calls, d.0.writes));
            out.push(digest(&d.0.data));
        }
        Job::Host { tree, how, fail, cap } => {
            let d = dir.join("s");
            host_tree(&d, tree);
            let mut fs = wfs::StdFilesystem::create(&d);
            match how {
                0 | 1 => {
                    let mut o = IoMem { fail_at: *fail, short: if *how == 1 { *cap as usize } else { 0 }, ..IoMem::default() };
                    let r = blk!(create_xdvdfs_image(&mut fs, &mut o, |p| ev.push(format!("{p:?}"))));
                    out.append(&mut ev);
                    res(&mut out, "pack", r);
                    out.push(digest(&o.data));
                }
                2 => {
                    let p = dir.join("o.iso");
                    let f = std::fs::File::create(&p).expect("harness: output");
                    let mut o = std::io::BufWriter::with_capacity(1 + *cap as usize, f);
                    let r = blk!(create_xdvdfs_image(&mut fs, &mut o, |p| ev.push(format!("{p:?}"))));
                    out.append(&mut ev);
                    res(&mut out, "pack", r);
                    drop(o);
                    out.push(digest(&std::fs::read(&p).unwrap_or_default()));
                }
                _ => {
                    let mut o: Box<[u8]> = vec![0; 33 * 2048 + *cap as usize * 64].into_boxed_slice();
                    let r = blk!(create_xdvdfs_image(&mut fs, &mut o, |p| ev.push(format!("{p:?}"))));
                    out.append(&mut ev);
                    res(&mut out, "pack", r);
                    out.push(digest(&o));
                }
            }
        }
        Job::Remap { .. } => remap(job, &dir.join("s"), &mut out),
        Job::Open { .. } => open(job, &mut out),
        Job::Repack { .. } => repack(job, &mut out),
        Job::Compress { tree, host } => {
            if *host {
                let d = dir.join("s");
                host_tree(&d, tree);
                compress(&mut wfs::StdFilesystem::create(&d), &mut out);
            } else {
                compress(&mut SliceFs(MemFs::new(tree)), &mut out);
            }
        }
        Job::Devices { .. } => devices(job, dir, &mut out),
    }
    // host paths differ between runs
    let d = dir.to_string_lossy().into_owned();
    out.iter().map(|l| l.replace(&d, "DIR")).collect()
}
