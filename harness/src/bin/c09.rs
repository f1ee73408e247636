//! C09: malformed images are rejected or read, never crash or hang.
use maybe_async::maybe_async;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::time::Duration;
use xdvdfs::blockdev::{self, OffsetWrapper};
use xdvdfs::layout::DirectoryEntryTable;
use xdvdfs::write::fs as wfs;
use xdvdfs::write::img::create_xdvdfs_image;
use xv::builder::Layout;
use xv::fuse::{self, Attr, Mounted};
use xv::devs::{DevError, IoSrc, Medium, MemDev};
use xv::gen::{self, Opts};
use xv::muts::{image, muts, M};
use xv::runner::*;
use xv::tree::*;
use xv::{blk, cli, content, ensure, reader};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    muts: Vec<M>,
    path: String,
    off: u32,
}

fn case(o: Opts) -> BoxedStrategy<Case> {
    (gen::tree(o), gen::layout(), muts(), prop_oneof!["[/a-zA-Z.]{0,10}", "\\PC{0,10}"], any::<u32>())
        .prop_map(|(tree, lay, muts, path, off)| Case { tree, lay, muts, path, off })
        .boxed()
}

/// A destination that forgets.
#[derive(Default)]
struct Null(u64, u64);
#[maybe_async]
impl blockdev::BlockDeviceWrite for Null {
    type WriteError = DevError;
    async fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), DevError> {
        self.0 = self.0.max(offset + buffer.len() as u64);
        Ok(())
    }
    async fn len(&mut self) -> Result<u64, DevError> {
        Ok(self.0)
    }
}
#[derive(Default)]
struct NullIo(u64, u64);
impl std::io::Write for NullIo {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len() as u64;
        self.1 = self.1.max(self.0);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Seek for NullIo {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        if let std::io::SeekFrom::Start(o) = p {
            self.0 = o;
        }
        Ok(self.0)
    }
}
#[maybe_async]
impl blockdev::BlockDeviceWrite for NullIo {
    type WriteError = std::io::Error;
    async fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), std::io::Error> {
        self.1 = self.1.max(offset + buffer.len() as u64);
        Ok(())
    }
    async fn len(&mut self) -> Result<u64, std::io::Error> {
        Ok(self.1)
    }
}

fn fuel(img: &[u8]) -> u64 {
    1000 + 16 * (img.len() as u64 / 14 + 64)
}

fn ops(img: &[u8], k: &Case, cx: &mut Cx) -> Outcome {
    let fu = fuel(img);
    let dev = || MemDev::fueled(img.to_vec(), fu);
    let ended = |d: &MemDev, what: &str| -> Outcome {
        ensure!(!d.out_of_fuel, "{what} does not end after {fu} reads of an image of {} bytes", img.len());
        Ok(())
    };
    let mut d = dev();
    let fresh = |d: &mut MemDev| {
        d.reads = 0;
        d.out_of_fuel = false;
    };
    let vol = blk!(xdvdfs::read::read_volume(&mut d));
    let Ok(vol) = vol else {
        cx.label("not a volume");
        ensure!(blk!(OffsetWrapper::new(dev())).is_err(), "opened although there is no volume");
        // and it is not a packing source either
        let fs: Option<wfs::XDVDFSFilesystem<_, Null>> = blk!(wfs::XDVDFSFilesystem::new(dev()));
        ensure!(fs.is_none(), "opened as a source although there is no volume");
        return Ok(());
    };
    fresh(&mut d);
    let _ = blk!(vol.root_dirent(&mut d)).map(|_| ());
    let tree = {
        fresh(&mut d);
        let r = blk!(vol.root_table.file_tree(&mut d));
        ended(&d, "the recursive listing")?;
        r
    };
    cx.label(if tree.is_ok() { "listed" } else { "listing rejected" });
    // every table that can be reached in at most three steps, however odd
    let mut tabs: Vec<DirectoryEntryTable> = vec![vol.root_table];
    let mut i = 0;
    let mut nodes = vec![];
    while i < tabs.len() && i < 12 {
        let t = tabs[i];
        i += 1;
        fresh(&mut d);
        let w = blk!(t.walk_dirent_tree(&mut d));
        ended(&d, "the tree walk")?;
        fresh(&mut d);
        let mut scanned = 0u64;
        {
            if let Ok(mut it) = blk!(t.scan_dirent_tree(&mut d)) {
                while let Ok(Some(n)) = blk!(it.next_entry()) {
                    scanned += 1;
                    if nodes.len() < 60 {
                        nodes.push(n);
                    }
                    ensure!(scanned <= fu, "the scan does not end");
                }
            }
        }
        ended(&d, "the scan")?;
        for n in w.into_iter().flatten().take(200) {
            if let Some(t) = n.node.dirent.dirent_table() {
                tabs.push(t);
            }
            nodes.push(n);
        }
    }
    let mut paths: Vec<String> = vec![k.path.clone(), "/".into(), "".into()];
    for (p, ..) in k.tree.list().into_iter().take(6) {
        paths.push(p.join("/"));
    }
    for p in &paths {
        fresh(&mut d);
        if let Ok(n) = blk!(vol.root_table.walk_path(&mut d, p)) {
            nodes.push(n);
        }
        ended(&d, "the lookup")?;
    }
    for n in nodes.iter().take(80) {
        fresh(&mut d);
        let _ = n.name_str::<DevError>().map(|c| c.len());
        let de = n.node.dirent;
        let _ = de.is_directory() || de.is_empty();
        let mut b = vec![0u8; 100];
        let _ = blk!(de.read_data(&mut d, &mut b));
        let _ = blk!(de.read_data_offset(&mut d, k.off as u64 % 5000, k.off as u64));
        let _ = blk!(de.read_data_offset(&mut d, 1 << 40, u64::MAX - 5));
        if de.data.size < 1 << 22 {
            let _ = blk!(de.read_data_all(&mut d));
        }
        let mut io = std::io::Cursor::new(vec![]);
        let _ = de.seek_to(&mut io);
        let data = de.data;
        let _ = data.offset::<DevError>(k.off as u64);
        ended(&d, "the read")?;
    }
    // sums of declared sizes bound the work of the operations that read everything
    let total: u64 = tree.as_ref().map(|t| t.iter().map(|(_, n)| n.node.dirent.data.size as u64).sum()).unwrap_or(0);
    cx.label_if(total > 1 << 26, "declares more than 64 MiB");
    if total <= 1 << 26 {
        fresh(&mut d);
        let _ = blk!(xdvdfs::checksum::checksum(&mut d, &vol));
        ended(&d, "the checksum")?;
        let src = dev();
        let fs: Option<wfs::XDVDFSFilesystem<_, Null>> = blk!(wfs::XDVDFSFilesystem::new(src));
        if let Some(mut fs) = fs {
            let r = blk!(create_xdvdfs_image(&mut fs, &mut Null::default(), |_| {}));
            if let Err(e) = &r {
                ensure!(!format!("{e:?}").contains("Fuel"), "repacking does not end after {fu} reads");
            }
            cx.label(if r.is_ok() { "repacked" } else { "repack refused" });
        }
        let mut s = IoSrc::new(Medium::bare(img.to_vec()));
        s.fuel = Some(fu * 4);
        let fs: Option<wfs::XDVDFSFilesystem<_, NullIo, wfs::StdIOCopier<_, _>>> = blk!(wfs::XDVDFSFilesystem::new(s));
        if let Some(mut fs) = fs {
            let r = blk!(create_xdvdfs_image(&mut fs, &mut NullIo::default(), |_| {}));
            if let Err(e) = &r {
                ensure!(!format!("{e:?}").contains("out of fuel"), "repacking (std::io) does not end");
            }
        }
        let fs: Option<wfs::XDVDFSFilesystem<_, [u8]>> = blk!(wfs::XDVDFSFilesystem::new(dev()));
        if let Some(mut fs) = fs {
            let mut sd = wfs::SectorLinearBlockDevice::default();
            let mut sfs = wfs::SectorLinearBlockFilesystem::new(&mut fs);
            if k.off % 16 == 0 && total < 1 << 22 && blk!(create_xdvdfs_image(&mut sfs, &mut sd, |_| {})).is_ok() {
                let mut input = wfs::CisoSectorInput::new(sd, sfs);
                let mut out = NullIo::default();
                let _ = blk!(ciso::write::write_ciso_image(&mut input, &mut out, |_| {})).is_ok();
            }
        }
    }
    cx.evals(20);
    Ok(())
}

fn run(k: &Case, cx: &mut Cx) -> Outcome {
    let img = image(&k.tree, &k.lay, &k.muts);
    cx.nontrivial(!k.muts.is_empty() && k.tree.list().len() >= 2 && reader::has_volume(&img));
    ops(&img, k, cx)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Noise {
    /// sectors after the descriptor, as (kind, seed)
    sectors: Vec<(u8, u32)>,
    root: (u32, u32),
    extra: u16,
}

/// A descriptor followed by sectors of noise, small words and entry-like records.
fn noise_image(k: &Noise) -> Vec<u8> {
    let mut img = vec![0u8; 32 * 2048];
    let mut v = vec![0u8; 2048];
    v[..20].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
    v[2028..].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
    v[20..24].copy_from_slice(&k.root.0.to_le_bytes());
    v[24..28].copy_from_slice(&k.root.1.to_le_bytes());
    img.extend(v);
    for (kind, seed) in &k.sectors {
        let r = |i: u64| content::mix(*seed as u64 ^ content::mix(i));
        let mut s = vec![];
        match kind % 4 {
            0 => s = content::bytes(*seed as u64 / 8 * 8, 2048),
            1 => (0..2048u64).for_each(|i| s.push((r(i) % 6) as u8)),
            2 => {
                // records that look like entries with random links
                let mut i = 0;
                while s.len() + 40 < 2048 {
                    let n = 1 + r(i) % 12;
                    s.extend(((r(i + 1) % 600) as u16).to_le_bytes());
                    s.extend(((r(i + 2) % 600) as u16).to_le_bytes());
                    s.extend((30 + (r(i + 3) % 12) as u32).to_le_bytes());
                    s.extend(((r(i + 4) % 5000) as u32).to_le_bytes());
                    s.push(if r(i + 5) % 2 == 0 { 0x10 } else { 0x20 });
                    s.push(n as u8);
                    (0..n).for_each(|j| s.push(b'a' + (r(i + 6 + j) % 26) as u8));
                    while s.len() % 4 != 0 {
                        s.push(0xff);
                    }
                    i += 50;
                }
            }
            _ => s = vec![0xff; 2048],
        }
        s.resize(2048, 0xff);
        img.extend(s);
    }
    img.extend(std::iter::repeat_n(0u8, k.extra as usize));
    img
}

fn noise() -> BoxedStrategy<Noise> {
    (
        proptest::collection::vec((prop_oneof![4 => Just(2u8), 1 => 0u8..4], any::<u32>()), 0..6),
        prop_oneof![4 => 32u32..40, 1 => any::<u32>()],
        prop_oneof![3 => Just(2048u32), 1 => Just(4096), 1 => 0u32..10000, 1 => any::<u32>()],
        prop_oneof![Just(0u16), any::<u16>()],
    )
        .prop_map(|(sectors, a, b, extra)| Noise { sectors, root: (a, b), extra })
        .boxed()
}

fn cli_case(k: &Case, cx: &mut Cx) -> Outcome {
    let img = image(&k.tree, &k.lay, &k.muts);
    cx.nontrivial(!k.muts.is_empty() && k.tree.list().len() >= 2 && reader::has_volume(&img));
    let d = cx.scratch();
    // extraction runs as nobody, deep enough that an escape stays in the scratch directory
    let w = d.join("a/b/c/d");
    std::fs::create_dir_all(&w).unwrap();
    for p in [d.clone(), d.join("a"), d.join("a/b"), d.join("a/b/c"), w.clone()] {
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
        std::os::unix::fs::chown(&p, Some(65534), Some(65534)).unwrap();
    }
    std::fs::write(w.join("i.iso"), &img).unwrap();
    let total: u64 = {
        // what the commands that read everything may have to handle
        let mut m = MemDev::fueled(img.clone(), fuel(&img));
        match blk!(xdvdfs::read::read_volume(&mut m)) {
            Ok(v) => blk!(v.root_table.file_tree(&mut m)).map(|t| t.iter().map(|(_, n)| n.node.dirent.data.size as u64).sum()).unwrap_or(0),
            Err(_) => 0,
        }
    };
    let p = k.tree.list().first().map(|e| cli::ipath(&e.0)).unwrap_or("/x".into());
    let mut cmds: Vec<Vec<&str>> = vec![vec!["ls", "i.iso"], vec!["ls", "-s", "i.iso"], vec!["tree", "i.iso"], vec!["info", "i.iso"], vec!["info", "i.iso", "/"], vec!["info", "i.iso", &p], vec!["unpack", "i.iso", "u"], vec!["copy-out", "i.iso", &p, "co"], vec!["extract-xiso", "-l", "i.iso"]];
    if total <= 1 << 28 {
        cmds.extend([vec!["md5", "i.iso"], vec!["checksum", "i.iso"], vec!["pack", "i.iso", "p.iso"]]);
    }
    for c in &cmds {
        let o = cli::run_with(&w, c, &cli::Run { uid: Some(65534), fsize: Some(64 << 20), ..Default::default() });
        cx.evals(1);
        o.sane().map_err(|e| format!("{c:?}: {e}"))?;
        ensure!(o.code == Some(0) || o.code == Some(1), "{c:?}: exit code {:?}", o.code);
        if !o.ok() {
            ensure!(!o.stderr.is_empty(), "{c:?} fails without a message");
        }
        if !reader::has_volume(&img) {
            ensure!(!o.ok(), "{c:?} succeeds although there is no volume");
        }
    }
    Ok(())
}

/// Everything the daemon shows of such an image is finite, and asking for it does not end the session.
fn daemon(k: &Case, cx: &mut Cx) -> Outcome {
    let img = image(&k.tree, &k.lay, &k.muts);
    cx.nontrivial(!k.muts.is_empty() && k.tree.list().len() >= 2 && reader::has_volume(&img));
    let d = cx.scratch();
    let f = d.join("x.iso");
    std::fs::write(&f, &img).unwrap();
    std::fs::create_dir(d.join("mnt")).unwrap();
    let args = ["-o".into(), "auto_unmount,nofork".into(), f.into_os_string(), d.join("mnt").into_os_string()];
    let mut m = Mounted::launch(&d, &args, "")?;
    let asked = m.begin();
    if !reader::has_volume(&img) {
        let Some(s) = m.status(Duration::from_secs(60)) else { return Err("the daemon runs although there is no volume".into()) };
        ensure!(s.code().is_some_and(|c| c != 0) && !m.errors().contains("panicked"), "no volume: status {s:?}: {}", m.errors());
        cx.label("not a volume");
        return Ok(());
    }
    asked?;
    m.begun()?;
    let most = img.len() / 14 + 64;
    let mut nodes: Vec<(u64, Option<Attr>)> = vec![(1, None)];
    let mut i = 0;
    let ask = |r: Result<(u64, Attr), i32>, nodes: &mut Vec<(u64, Option<Attr>)>| {
        if let Ok((ino, a)) = r {
            if nodes.len() < 40 {
                nodes.push((ino, Some(a)));
            }
        }
    };
    while i < nodes.len() {
        let (ino, a) = nodes[i].clone();
        i += 1;
        let b = m.getattr(ino)?;
        if let (Some(a), Ok(b)) = (&a, &b) {
            ensure!(a == b, "the attributes of node {ino} change from {a:?} to {b:?}");
        }
        let dir = a.as_ref().is_none_or(|a| a.is_dir());
        let fh = m.open(ino, 0, dir)?.unwrap_or(0);
        // both ways, whatever it is
        let mut names: Vec<String> = k.tree.0.iter().take(3).map(|e| e.name.clone()).collect();
        names.extend([k.path.clone(), ".".into(), "..".into()]);
        let (mut off, mut seen) = (0u64, 0);
        let mut offs = BTreeSet::new();
        loop {
            let l = match m.readdir(ino, fh, off, 4096)? {
                Ok(l) => l,
                Err(_) => {
                    cx.label("listing rejected");
                    break;
                }
            };
            let Some(last) = l.last() else {
                cx.label("listed");
                break;
            };
            off = last.off;
            ensure!(offs.insert(off), "listing node {ino} goes in circles");
            seen += l.len();
            ensure!(seen <= most, "listing node {ino} of an image of {} bytes gives {seen} names and does not end", img.len());
            names.extend(l.into_iter().take(6).map(|e| e.name));
        }
        names.truncate(12);
        for n in &names {
            let n: Vec<u8> = n.bytes().filter(|c| *c != 0).collect();
            let r = m.lookup(ino, &n)?;
            ask(r, &mut nodes);
        }
        for (o, n) in [(0, 4096u32), (k.off as u64, 65536), (k.off as u64 % 5000, 1), (u32::MAX as u64, 131072), (i64::MAX as u64 - 5, 4096), (0, 131072)] {
            if let Ok(b) = m.read(ino, fh, o, n)? {
                ensure!(b.len() <= n as usize, "a read of {n} bytes returns {}", b.len());
                ensure!(b.len() <= img.len(), "an image of {} bytes has {} bytes at {o}", img.len(), b.len());
            }
        }
        let _ = m.release(ino, fh, dir)?;
    }
    // the session goes on
    ensure!(m.getattr(1)?.is_ok(), "the root has no attributes any more");
    cx.evals(m.requests);
    Ok(())
}

fn main() {
    fuse::helper();
    let mut c = Check::new(
        "C09",
        "exploration",
        "A case is a valid image in any layout with up to five structural mutations (entry fields, child offsets to other
         entries, directories pointing at any table, root region, names, filler, truncation, byte flips), or a descriptor with
         noise and entry-like records behind it. Every read-side operation runs on a device with a read budget linear in the
         image's length; it has to return, without panic, before the budget is spent. The command line must exit with 0 or 1.
         Non-trivial: at least one mutation of an image with two or more entries that is still recognised as a volume.",
    );
    c.assume("operations that read all declared data are not run when the entries declare more than 64 MiB (256 MiB on the command line)");
    c.assume("stack overflows and aborts end the check's worker process, which its supervisor reports as a violation");
    c.part("mutants", 60000, 2000000, || case(Opts { big: false, bulk_max: 60, max_entries: 10, ..Opts::default() }), run);
    c.part("noise", 40000, 1500000, noise, |k: &Noise, cx| {
        let img = noise_image(k);
        cx.nontrivial(k.sectors.len() >= 2);
        let k2 = Case { tree: Tree::default(), lay: Layout::default(), muts: vec![], path: "a/b".into(), off: k.sectors.first().map_or(1, |s| s.1) };
        ops(&img, &k2, cx)
    });
    c.part("cli", 500, 5000, || case(Opts { host: true, big: false, bulk_max: 60, max_entries: 10, ..Opts::default() }), cli_case);
    c.part("daemon", 5000, 100000, || case(Opts { big: false, bulk_max: 60, max_entries: 10, ..Opts::default() }), daemon);
    c.finish();
}
