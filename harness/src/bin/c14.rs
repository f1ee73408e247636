//! C14: read failures and truncation are reported.
use maybe_async::maybe_async;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::os::unix::fs::PermissionsExt;
use std::sync::Arc;
use xdvdfs::blockdev::{self, OffsetWrapper};
use xdvdfs::write::fs::{self as wfs, FileEntry, FilesystemCopier, FilesystemHierarchy, PathVec};
use xdvdfs::write::img::create_xdvdfs_image;
use xv::builder::{build_checked, Layout};
use xv::cli::{self, Run};
use xv::content::mix;
use xv::devs::{IoMem, IoSrc, Medium, MemDev};
use xv::fuse::{self, Mounted};
use xv::gen::{self, Opts};
use xv::memfs::MemFs;
use xv::ops::*;
use xv::runner::*;
use xv::tree::*;
use xv::{blk, ensure, reader, OFFSETS};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    cuts: Vec<(u8, u32)>,
}

fn case(o: Opts) -> BoxedStrategy<Case> {
    (gen::tree(o), gen::layout(), proptest::collection::vec((0u8..5, any::<u32>()), 3..8)).prop_map(|(tree, lay, cuts)| Case { tree, lay, cuts }).boxed()
}

const OPS: [&str; 12] = ["read_volume", "root entry", "lookups", "tree walks", "scans", "recursive listing", "whole reads", "ranged reads", "checksum", "repack, generic copier", "offset probe and listing", "source listings"];
/// operations that need all file contents
const ALL_DATA: [usize; 3] = [6, 8, 9];

fn h(b: &[u8]) -> u64 {
    b.iter().fold(b.len() as u64, |a, x| mix(a ^ *x as u64))
}

/// An operation, its result as text. Errors come back as Err.
fn op<D>(n: usize, mut dev: D, t: &Tree) -> (Result<String, String>, Option<D>)
where
    D: blockdev::BlockDeviceRead + 'static,
    D::ReadError: Debug + Send + Sync,
{
    if n == 9 {
        let r = (|| {
            let mut fs: wfs::XDVDFSFilesystem<D, MemDev> = blk!(wfs::XDVDFSFilesystem::new(dev)).ok_or("not a file system")?;
            let mut d = MemDev::default();
            blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).map_err(|_| "repack failed")?;
            Ok::<_, &str>(format!("{:x}", h(&d.data)))
        })();
        return (r.map_err(|e| e.to_string()), None);
    }
    if n == 10 {
        let r = (|| {
            let mut w = blk!(OffsetWrapper::new(dev)).map_err(e2s)?;
            let vol = blk!(xdvdfs::read::read_volume(&mut w)).map_err(e2s)?;
            let l = blk!(vol.root_table.file_tree(&mut w)).map_err(e2s)?;
            Ok(format!("{} {:?}", w.get_offset(), l.iter().map(|(p, e)| (p.clone(), desc_of(e))).collect::<Vec<_>>()))
        })();
        return (r, None);
    }
    if n == 11 {
        let r = (|| {
            let mut fs: wfs::XDVDFSFilesystem<D, MemDev> = blk!(wfs::XDVDFSFilesystem::new(dev)).ok_or("not a file system")?;
            let mut out = String::new();
            let mut st = vec![PathVec::default()];
            while let Some(p) = st.pop() {
                let l = blk!(fs.read_dir(&p)).map_err(|_| "read_dir failed")?;
                for e in l {
                    if let wfs::FileType::Directory = e.file_type {
                        st.push(PathVec::from_base(&p, &e.name));
                    }
                    out += &format!("{:?}", (e.name, e.len));
                }
            }
            Ok::<_, &str>(out)
        })();
        return (r.map_err(|e| e.to_string()), None);
    }
    let r = (|| {
        let d = &mut dev;
        let vol = blk!(xdvdfs::read::read_volume(d)).map_err(e2s)?;
        let mut out = String::new();
        match n {
            0 => {
                let r = vol.root_table.region;
                out = format!("{:?} {:?}", { r.sector }, { r.size });
            }
            1 => {
                out = match blk!(vol.root_dirent(d)) {
                    Ok(e) => format!("{:?}", e.map(|e| desc_of(&e))),
                    Err(xdvdfs::util::Error::DirectoryEmpty) => "empty".into(),
                    Err(e) => return Err(e2s(e)),
                }
            }
            2 => {
                for (p, ..) in t.list().iter().take(12) {
                    let e = blk!(vol.root_table.walk_path(d, &p.join("/"))).map_err(e2s)?;
                    out += &format!("{:?}", desc_of(&e));
                }
            }
            3 | 4 => {
                let mut tabs = vec![vol.root_table];
                while let Some(tab) = tabs.pop() {
                    let mut l = vec![];
                    if n == 3 {
                        l = blk!(tab.walk_dirent_tree(d)).map_err(e2s)?;
                    } else {
                        let mut it = blk!(tab.scan_dirent_tree(d)).map_err(e2s)?;
                        while let Some(e) = blk!(it.next_entry()).map_err(e2s)? {
                            l.push(e);
                        }
                    }
                    for e in l {
                        tabs.extend(e.node.dirent.dirent_table());
                        out += &format!("{:?}", desc_of(&e));
                    }
                }
            }
            5 | 6 | 7 => {
                for (p, e) in blk!(vol.root_table.file_tree(d)).map_err(e2s)? {
                    out += &format!("{p:?} {:?}", desc_of(&e));
                    let de = e.node.dirent;
                    if n == 6 && !de.is_directory() {
                        out += &format!("{:x}", h(&blk!(de.read_data_all(d)).map_err(e2s)?));
                    }
                    if n == 7 && !de.is_directory() {
                        let s = { de.data }.size as u64;
                        for (o, l) in [(0, 10), (s / 2, s), (s.saturating_sub(3), 3)] {
                            out += &format!("{:x}", h(&blk!(de.read_data_offset(d, l, o)).map_err(e2s)?));
                        }
                        if s < 1 << 20 {
                            let mut b = vec![0; s as usize];
                            blk!(de.read_data(d, &mut b)).map_err(e2s)?;
                            out += &format!("{:x}", h(&b));
                        }
                    }
                }
            }
            _ => out = format!("{:?}", blk!(xdvdfs::checksum::checksum(d, &vol)).map_err(e2s)?),
        }
        Ok(out)
    })();
    (r, Some(dev))
}

fn faults(k: &Case, cx: &mut Cx) -> Outcome {
    let img = build_checked(&k.tree, &k.lay);
    let n = k.cuts[0].1 as usize % OPS.len();
    // a device shared by the operation and the check, for those that consume it
    let want = op(n, Shared::new(&img, None), &k.tree).0.map_err(|e| format!("{} without faults: {e}", OPS[n]))?;
    let probe = Shared::new(&img, None);
    let cnt = probe.0.clone();
    let _ = op(n, probe, &k.tree);
    let reads = cnt.lock().unwrap().reads;
    cx.label(OPS[n]);
    cx.nontrivial(reads > 3);
    let step = (reads / 150).max(1);
    let mut i = 0;
    while i < reads {
        cx.evals(1);
        let dev = Shared::new(&img, Some(i));
        let st = dev.0.clone();
        let (r, _) = op(n, dev, &k.tree);
        ensure!(st.lock().unwrap().faulted, "harness: fault {i} of {reads} not reached");
        if let Ok(got) = r {
            ensure!(got == want, "{}: read {i} of {reads} failed, but the operation reported success with another result", OPS[n]);
        }
        i += if i < 20 || i + 20 > reads { 1 } else { step };
    }
    Ok(())
}

#[derive(Clone)]
struct Shared(Arc<std::sync::Mutex<MemDev>>);
impl Shared {
    fn new(img: &[u8], fail: Option<u64>) -> Self {
        Shared(Arc::new(std::sync::Mutex::new(MemDev { data: img.to_vec(), fail_read_at: fail, ..MemDev::default() })))
    }
}
#[maybe_async]
impl blockdev::BlockDeviceRead for Shared {
    type ReadError = xv::devs::DevError;
    async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), xv::devs::DevError> {
        self.0.lock().unwrap().do_read(offset, buffer)
    }
}

/// Where file data ends, at the latest.
fn data_end(img: &[u8]) -> u64 {
    let p = reader::parse(img).unwrap();
    p.dirs.iter().flat_map(|d| d.entries.iter()).filter(|e| !e.is_dir() && e.size > 0).map(|e| e.sector as u64 * 2048 + e.size as u64).max().unwrap_or(0)
}

fn cut_point(c: &(u8, u32), len: u64, end: u64) -> u64 {
    let r = c.1 as u64;
    match c.0 {
        0 => end.saturating_sub(1 + r % 3),
        1 => end.saturating_sub(1 + r % 4096),
        2 => 65536 + r % (len + 1 - 65536.min(len)),
        3 => r % (len + 1),
        _ => end + r % (len - end.min(len) + 1),
    }
    .min(len)
}

fn truncation(k: &Case, cx: &mut Cx) -> Outcome {
    let img = build_checked(&k.tree, &k.lay);
    let end = data_end(&img);
    cx.nontrivial(end > 0 && k.tree.list().len() > 1);
    let base = OFFSETS[(k.lay.seed % 4) as usize];
    let full: Vec<String> = (0..OPS.len()).map(|n| op(n, Shared::new(&img, None), &k.tree).0.map_err(|e| format!("{}: {e}", OPS[n]))).collect::<Result<_, _>>()?;
    for c in &k.cuts {
        let t = cut_point(c, img.len() as u64, end);
        let short = &img[..t as usize];
        cx.label_if(t < end, "file data missing");
        for n in 0..OPS.len() {
            cx.evals(1);
            if let Ok(got) = op(n, Shared::new(short, None), &k.tree).0 {
                ensure!(t >= end || !ALL_DATA.contains(&n), "{} succeeded on an image cut at {t}, with file data up to {end}", OPS[n]);
                ensure!(got == full[n], "{} succeeded with another result on an image cut at {t} of {} bytes", OPS[n], img.len());
            }
        }
        // the std::io readers
        cx.evals(3);
        let m = Medium { image: Arc::new(short.to_vec()), base, tail: 0, surround: 1, far: None };
        let mut rs = vec![repack_stdio(IoSrc::new(m.clone()), k.cuts.len() % 2 == 0)];
        let bare = Medium::bare(short.to_vec());
        rs.push(repack_stdio_bare(IoSrc::new(bare)));
        let cur = std::io::Cursor::new(short.to_vec());
        rs.push(op(6, cur, &k.tree).0.map(|_| vec![]));
        for r in rs {
            if let Ok(out) = r {
                ensure!(t >= end, "an operation through std::io succeeded on an image cut at {t}, with file data up to {end}");
                if !out.is_empty() {
                    same(&k.tree.flat(), &reader::extract(&out)?, "repacked from an image without its tail")?;
                }
            }
        }
    }
    // read errors of std::io sources
    let m = Medium { image: Arc::new(img), base, tail: 0, surround: 0, far: None };
    for c in &k.cuts {
        cx.evals(1);
        let mut s = IoSrc::new(m.clone());
        s.fail_at = Some(c.1 as u64 % 60);
        if let Ok(out) = repack_stdio(s, c.0 % 2 == 0) {
            same(&k.tree.flat(), &reader::extract(&out)?, "repacked in spite of a read error")?;
        }
    }
    Ok(())
}

/// A source whose listing announces other lengths than the files have.
struct Liar<F>(F, u64, bool, u32);
#[maybe_async]
impl<F: FilesystemHierarchy> FilesystemHierarchy for Liar<F> {
    type Error = F::Error;
    async fn read_dir(&mut self, p: &PathVec) -> Result<Vec<FileEntry>, F::Error> {
        let mut l = self.0.read_dir(p).await?;
        for e in &mut l {
            if let wfs::FileType::File = e.file_type {
                self.3 += 1;
                if self.3 as u64 % self.1 == 0 {
                    e.len += 1 + self.1 * 977;
                    self.2 = true;
                }
            }
        }
        Ok(l)
    }
}
#[maybe_async]
impl<F: FilesystemCopier<W>, W: ?Sized + blockdev::BlockDeviceWrite> FilesystemCopier<W> for Liar<F> {
    type Error = F::Error;
    async fn copy_file_in(&mut self, src: &PathVec, dest: &mut W, i: u64, o: u64, s: u64) -> Result<u64, F::Error> {
        self.0.copy_file_in(src, dest, i, o, s).await
    }
}

fn sources(k: &Case, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    host_tree(&d.join("s"), &k.tree);
    let files = k.tree.list().iter().filter(|e| !e.1).count();
    cx.nontrivial(files > 1);
    for (kind, n) in &k.cuts {
        cx.evals(1);
        let every = 1 + *n as u64 % (files as u64).max(1);
        let (r, lied) = match kind {
            0 | 1 => {
                let mut fs = Liar(wfs::StdFilesystem::create(&d.join("s")), every, false, 0);
                let mut dev = IoMem::default();
                (blk!(create_xdvdfs_image(&mut fs, &mut dev, |_| {})).map_err(e2s), fs.2)
            }
            2 => {
                let mut fs = Liar(MemFs::new(&k.tree), every, false, 0);
                let mut dev = MemDev::default();
                (blk!(create_xdvdfs_image(&mut fs, &mut dev, |_| {})).map_err(e2s), fs.2)
            }
            3 => {
                let m = Medium::bare(build_checked(&k.tree, &k.lay));
                let fs: wfs::XDVDFSFilesystem<_, MemDev> = blk!(wfs::XDVDFSFilesystem::new(m)).ok_or("no file system")?;
                let mut fs = Liar(fs, every, false, 0);
                let mut dev = MemDev::default();
                (blk!(create_xdvdfs_image(&mut fs, &mut dev, |_| {})).map_err(e2s), fs.2)
            }
            _ => {
                // the source itself fails at some call
                let mut fs = MemFs::new(&k.tree);
                fs.fail_at = Some(*n as u64 % (files as u64 + 3));
                let mut dev = MemDev::default();
                let r = blk!(create_xdvdfs_image(&mut fs, &mut dev, |_| {})).map_err(e2s);
                (r, fs.faulted)
            }
        };
        if lied {
            cx.label(if *kind == 4 { "source call fails" } else { "shrunken file" });
            ensure!(r.is_err(), "image creation succeeded although {}", if *kind == 4 { "the source failed" } else { "a file is shorter than announced" });
        } else {
            r.map_err(|e| format!("image creation failed without a fault: {e}"))?;
        }
    }
    Ok(())
}

fn commands(k: &Case, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    let img = build_checked(&k.tree, &k.lay);
    let end = data_end(&img);
    let base = OFFSETS[(k.lay.seed % 4) as usize];
    let t = cut_point(&k.cuts[0], img.len() as u64, end);
    let put = |n: &str, b: &[u8]| {
        Medium { image: Arc::new(b.to_vec()), base, tail: 0, surround: 0, far: None }.to_file(&d.join(n)).unwrap();
    };
    put("full.iso", &img);
    put("cut.iso", &img[..t as usize]);
    let l = k.tree.list();
    cx.nontrivial(end > 0 && l.len() > 1);
    cx.label_if(t < end, "file data missing");
    let p = reader::parse(&img)?;
    let dirs: Vec<String> = l.iter().filter(|e| e.1).map(|e| cli::ipath(&e.0)).collect();
    let dir = dirs.get(k.cuts[2].1 as usize % dirs.len().max(1)).map_or("/", |s| s.as_str());
    let cmds: [&[&str]; 12] = [
        &["pack", "IMG", "out"],
        &["unpack", "IMG", "outd"],
        &["copy-out", "IMG", "/", "outd"],
        &["md5", "IMG"],
        &["checksum", "-s", "IMG"],
        &["compress", "IMG", "out.cso"],
        &["extract-xiso", "-d", "outd", "-x", "IMG"],
        &["tree", "IMG"],
        &["ls", "IMG"],
        &["ls", "--", "IMG", dir],
        &["ls", "--scan", "--", "IMG", dir],
        &["info", "--", "IMG", dir],
    ];
    for (ci, c) in cmds.iter().enumerate() {
        cx.evals(1);
        let run = |f: &str| cli::run(&d, &c.iter().map(|a| if *a == "IMG" { f } else { a }).collect::<Vec<_>>());
        let out = run("cut.iso");
        out.sane().map_err(|e| format!("{c:?} on an image cut at {t}: {e}"))?;
        if out.ok() {
            ensure!(t >= end || ci >= 7, "{c:?} succeeded on an image cut at {t}, with file data up to {end}");
            match ci {
                0 => same(&k.tree.flat(), &reader::extract(&std::fs::read(d.join("out")).unwrap())?, "packed from an image without its tail")?,
                1 | 2 | 6 => same(&k.tree.flat(), &cli::read_tree(&d.join("outd"))?, "extracted from an image without its tail")?,
                3 | 4 | 7.. => {
                    let want = run("full.iso").success("on the whole image")?;
                    let canon = |o: &cli::Out| {
                        let mut v: Vec<String> = o.out().replace("cut.iso", "I").replace("full.iso", "I").lines().map(String::from).collect();
                        v.sort();
                        v
                    };
                    ensure!(canon(&want) == canon(&out), "{c:?} differs on an image cut at {t} of {} bytes", img.len());
                }
                _ => {}
            }
        }
        let _ = std::fs::remove_dir_all(d.join("outd"));
        let _ = std::fs::remove_file(d.join("out"));
    }
    // one file whose data is cut
    if let Some((dir, e)) = p.dirs.iter().flat_map(|d| d.entries.iter().map(move |e| (d, e))).find(|(_, e)| !e.is_dir() && e.size > 0 && e.sector as u64 * 2048 + e.size as u64 > t) {
        let mut path = dir.path.clone();
        path.push(e.name_str());
        cx.evals(2);
        cli::run(&d, &["copy-out", "--", "cut.iso", &cli::ipath(&path), "out"]).failure("copy-out of a file whose data is missing")?;
        cli::run(&d, &["md5", "--", "cut.iso", &cli::ipath(&path)]).failure("md5 of a file whose data is missing")?;
    }
    // a host source with an unreadable entry, for an unprivileged process
    host_tree(&d.join("src"), &k.tree);
    if let Some(e) = l.get(k.cuts[1].1 as usize % l.len().max(1)) {
        let f = d.join("src").join(e.0.iter().collect::<std::path::PathBuf>());
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0)).unwrap();
        std::fs::create_dir(d.join("w")).unwrap();
        std::fs::set_permissions(d.join("w"), std::fs::Permissions::from_mode(0o777)).unwrap();
        for c in [["pack", "src", "w/o"], ["compress", "src", "w/o.cso"], ["extract-xiso", "-c", "src"]] {
            let mut c = c.to_vec();
            if c[0] == "extract-xiso" {
                c.push("w/o2");
            }
            // an empty file need not be opened by the compressor
            if c[0] == "compress" && !e.1 && e.2 == 0 {
                continue;
            }
            cx.evals(1);
            cli::run_with(&d, &c, &Run { uid: Some(65534), ..Run::default() }).failure(&format!("{c:?} with an unreadable entry"))?;
        }
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    Ok(())
}

/// Images that end within the table of a directory, and compressed images without their tail.
fn listings(k: &Case, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    let img = build_checked(&k.tree, &k.lay);
    let p = reader::parse(&img)?;
    std::fs::write(d.join("full.iso"), &img).unwrap();
    let mut tabs: Vec<&reader::PDir> = p.dirs.iter().filter(|t| t.size > 2048).collect();
    let wide = !tabs.is_empty();
    if !wide {
        tabs = p.dirs.iter().filter(|t| t.size > 0).collect();
    }
    cx.nontrivial(wide);
    cx.label_if(wide, "table of several sectors");
    let lines = |o: &cli::Out, f: &str| {
        let mut v: Vec<String> = o.out().replace(f, "I").lines().map(String::from).collect();
        v.sort();
        v
    };
    let compare = |full: &str, cut: &str, cmd: &[&str], what: &str, cx: &mut Cx| -> Outcome {
        cx.evals(1);
        let on = |f: &str| cli::run(&d, &cmd.iter().map(|a| if *a == "IMG" { f } else { a }).collect::<Vec<_>>());
        let out = on(cut);
        out.sane().map_err(|e| format!("{cmd:?} on {what}: {e}"))?;
        if out.ok() {
            let want = on(full).success("on the whole image")?;
            ensure!(lines(&want, full) == lines(&out, cut), "{cmd:?} succeeded on {what} with {} of {} lines", lines(&out, cut).len(), lines(&want, full).len());
        }
        Ok(())
    };
    for c in &k.cuts[..2] {
        if tabs.is_empty() {
            break;
        }
        let tab = tabs[c.0 as usize % tabs.len()];
        // mostly beyond its first sector
        let from = if wide && c.0 != 0 { 2048 } else { 0 };
        let t = tab.sector as u64 * 2048 + from + c.1 as u64 % (tab.size as u64 - from);
        let t = if c.1 % 3 == 0 { t & !2047 } else { t };
        std::fs::write(d.join("cut.iso"), &img[..t.min(img.len() as u64) as usize]).unwrap();
        let dir = cli::ipath(&tab.path);
        let what = format!("an image that ends at {t}, in the table of {dir:?}");
        for cmd in [&["ls", "--", "IMG", &dir][..], &["ls", "--scan", "--", "IMG", &dir], &["tree", "IMG"], &["md5", "--", "IMG", &dir], &["checksum", "-s", "IMG"]] {
            compare("full.iso", "cut.iso", cmd, &what, cx)?;
        }
        let short = &img[..t.min(img.len() as u64) as usize];
        for n in [3, 4, 5, 6, 8, 9, 10, 11] {
            cx.evals(1);
            if let Ok(got) = op(n, Shared::new(short, None), &k.tree).0 {
                let want = op(n, Shared::new(&img, None), &k.tree).0.map_err(|e| format!("{}: {e}", OPS[n]))?;
                ensure!(got == want, "{} succeeded with another result on {what}", OPS[n]);
            }
        }
    }
    // the same for a compressed image that lost its tail
    cli::run(&d, &["compress", "full.iso", "full.cso"]).success("compress")?;
    std::fs::rename(d.join("full.1.cso"), d.join("full.cso")).map_err(|e| format!("no full.1.cso: {e}"))?;
    let z = std::fs::read(d.join("full.cso")).unwrap();
    for c in &k.cuts[2..] {
        let t = match c.0 {
            0 => z.len() - 1,
            1 => z.len() - 1 - c.1 as usize % z.len().min(4096),
            2 => c.1 as usize % z.len().min(4096),
            _ => c.1 as usize % z.len(),
        };
        std::fs::write(d.join("cut.cso"), &z[..t]).unwrap();
        let what = format!("a compressed image cut at {t} of {} bytes", z.len());
        for cmd in [&["ls", "IMG"][..], &["tree", "IMG"], &["md5", "IMG"], &["checksum", "-s", "IMG"], &["info", "IMG"]] {
            compare("full.cso", "cut.cso", cmd, &what, cx)?;
        }
    }
    Ok(())
}

/// A mounted image without its tail: what is shown is right, what is missing is an error.
fn daemon(k: &Case, cx: &mut Cx) -> Outcome {
    let img = build_checked(&k.tree, &k.lay);
    let end = data_end(&img);
    let base = OFFSETS[(k.lay.seed % 4) as usize];
    let t = cut_point(&k.cuts[0], img.len() as u64, end);
    let d = cx.scratch();
    let f = d.join("x.iso");
    let cut = img[..t as usize].to_vec();
    let whole = reader::has_volume(&cut);
    // a file that shrinks while it is mounted loses its tail just the same
    let late = whole && k.cuts[1].1 % 3 == 0;
    let m = Medium { image: Arc::new(if late { img.clone() } else { cut }), base, tail: 0, surround: 0, far: None };
    m.to_file(&f).map_err(|e| format!("harness: {e}"))?;
    let l = k.tree.list();
    cx.nontrivial(end > t && l.len() > 1);
    cx.label_if(t < end, "file data missing");
    let cutoff = t;
    if !whole {
        return Ok(());
    }
    let p = reader::parse(&img)?;
    let mut m = Mounted::start(&d, &f)?;
    if late {
        cx.label("shrinks while mounted");
        std::fs::OpenOptions::new().write(true).open(&f).and_then(|f| f.set_len(base + t)).map_err(|e| format!("harness: {e}"))?;
    }
    let mut nodes: Vec<(Vec<String>, u64)> = vec![(vec![], 1)];
    let mut i = 0;
    while i < nodes.len() && i < 40 {
        let (path, ino) = nodes[i].clone();
        i += 1;
        let dir = p.dirs.iter().find(|d| d.path == path).ok_or("harness: no such directory")?;
        let at = format!("/{} of an image cut at {t} of {} bytes{}", path.join("/"), img.len(), if late { " while mounted" } else { "" });
        // a listing, if there is one, is whole
        let (mut off, mut names) = (0, vec![]);
        let listed = loop {
            match m.readdir(ino, 0, off, 4096)? {
                Err(_) => break false,
                Ok(l) => {
                    let Some(last) = l.last() else { break true };
                    off = last.off;
                    names.extend(l.into_iter().map(|e| e.name).filter(|n| n != "." && n != ".."));
                    ensure!(names.len() <= dir.entries.len(), "{at}: lists {names:?}");
                }
            }
        };
        let mut want: Vec<String> = dir.entries.iter().map(|e| e.name_str()).collect();
        want.sort();
        names.sort();
        ensure!(!listed || names == want, "{at}: lists {names:?}, not {want:?}");
        cx.label_if(!listed, "no listing");
        for e in dir.entries.iter().take(12) {
            let mut path = path.clone();
            path.push(e.name_str());
            let t = format!("{} in {at}", e.name_str());
            let (n, a) = match m.lookup(ino, e.name_str().as_bytes())? {
                Ok(x) => x,
                Err(e) => {
                    ensure!(e != libc::ENOENT, "{t}: said not to exist");
                    continue;
                }
            };
            if e.is_dir() {
                ensure!(a.is_dir(), "{t}: not a directory");
                nodes.push((path, n));
                continue;
            }
            ensure!(a.is_file() && a.size == e.size as u64, "{t}: {a:?}, not {} bytes", e.size);
            let data = e.sector as usize * 2048;
            let data = if e.size == 0 { &[][..] } else { &img[data..data + e.size as usize] };
            let s = e.size as u64;
            let gone = cutoff.saturating_sub(e.sector as u64 * 2048).min(s);
            let mut asks = vec![(0, 4096u32), (0, 131072), (s / 2, 65536), (s.saturating_sub(3), 10), (gone.saturating_sub(5), 10), (gone.saturating_sub(5), 5), (gone, 1), (k.cuts[2].1 as u64 % (s + 1), k.cuts[1].1 % 70000)];
            asks.rotate_left(k.cuts[2].0 as usize);
            for (o, n2) in asks {
                match m.read(n, 0, o, n2)? {
                    Ok(b) => {
                        let o = o.min(s) as usize;
                        let want = &data[o..(o + n2 as usize).min(data.len())];
                        ensure!(b == want, "{t}: reading {n2} bytes at {o} of {s} gives {} bytes, not the {} that belong there", b.len(), want.len());
                    }
                    Err(_) => cx.label("read fails"),
                }
            }
        }
    }
    cx.evals(m.requests);
    Ok(())
}

fn main() {
    fuse::helper();
    let mut c = Check::new(
        "C14",
        "fault_enumeration",
        "Part `faults`: for a random image and read-side operation, the operation is repeated with a failure of each device read in
         turn (up to 190 per case); success is accepted only with the result of the undisturbed operation. Part `truncation`: all
         operations on images cut at several points (just before the end of the data, within the last sectors, anywhere, in unused
         space); operations that need all contents must fail if data is missing, any success must give the full result. Part
         `sources`: packing from sources whose files turn out shorter than listed, or whose calls fail. Part `commands`: the command
         line on cut images and on host sources with unreadable entries. Non-trivial: several reads, or file data.",
    );
    let o = Opts { big: false, bulk_max: 60, max_entries: 10, deep: 50, ..Opts::default() };
    c.part("faults", 3000, 60000, || case(o), faults);
    c.part("truncation", 1200, 20000, || case(o), truncation);
    let oh = Opts { host: true, ..o };
    c.part("sources", 1500, 20000, || case(oh), sources);
    c.part("commands", 400, 8000, || case(oh), commands);
    // files of 16 MiB and more
    let l = |host| (case(Opts { big: false, bulk: false, max_entries: 4, host, ..o }), gen::large_tree(host), 3usize..5).prop_map(|(mut k, tree, n)| {
        k.cuts.truncate(n);
        Case { tree, ..k }
    });
    c.part("large truncation", 16, 400, || l(false).boxed(), truncation);
    c.part("large sources", 60, 1000, || l(true).boxed(), sources);
    c.part("large commands", 8, 200, || l(true).boxed(), commands);
    let w = || (case(o), gen::bulk_tree(200)).prop_map(|(k, tree)| Case { tree, ..k }).boxed();
    c.part("listings", 250, 6000, w, listings);
    c.part("daemon", 5000, 100000, || case(o), daemon);
    xv::desk::part(&mut c, 400, &[0, 1, 2], &[false], 0.9, xv::desk::cut);
    c.finish();
}
