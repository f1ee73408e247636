//! C08: the partition offset is transparent.
use maybe_async::maybe_async;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use xdvdfs::blockdev::{self, OffsetWrapper};
use xv::builder::{build_checked, Layout};
use xv::devs::{DevError, Medium};
use xv::gen::{self, Opts};
use xv::ops::*;
use xv::runner::*;
use xv::tree::*;
use xv::{blk, cli, content, ensure, OFFSETS};

/// Several pieces on one medium; other bytes are a function of `surround`.
#[derive(Clone)]
struct Multi {
    pieces: Vec<(u64, Arc<Vec<u8>>)>,
    len: u64,
    surround: u64,
}
impl Multi {
    fn get(&self, off: u64, buf: &mut [u8]) -> bool {
        let Some(end) = off.checked_add(buf.len() as u64) else { return false };
        if end > self.len {
            return false;
        }
        let m = Medium { image: Arc::new(vec![]), base: 0, tail: u64::MAX / 2, surround: self.surround, far: None };
        m.byte_run(off, buf);
        for (o, p) in &self.pieces {
            let a = off.max(*o);
            let b = end.min(*o + p.len() as u64);
            if a < b {
                buf[(a - off) as usize..(b - off) as usize].copy_from_slice(&p[(a - o) as usize..(b - o) as usize]);
            }
        }
        true
    }
    fn valid_at(&self, off: u64) -> bool {
        let mut s = vec![0u8; 2048];
        const M: &[u8] = b"MICROSOFT*XBOX*MEDIA";
        self.get(off + 65536, &mut s) && &s[..20] == M && &s[2028..] == M
    }
}
#[maybe_async]
impl blockdev::BlockDeviceRead for Multi {
    type ReadError = DevError;
    async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), DevError> {
        if self.get(offset, buffer) {
            Ok(())
        } else {
            Err(DevError::OutOfRange)
        }
    }
}
/// The same through std::io.
struct MultiIo(Multi, u64);
impl std::io::Read for MultiIo {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (b.len() as u64).min(self.0.len.saturating_sub(self.1)) as usize;
        self.0.get(self.1, &mut b[..n]);
        self.1 += n as u64;
        Ok(n)
    }
}
impl std::io::Seek for MultiIo {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let n = match p {
            std::io::SeekFrom::Start(o) => o as i128,
            std::io::SeekFrom::Current(d) => self.1 as i128 + d as i128,
            std::io::SeekFrom::End(d) => self.0.len as i128 + d as i128,
        };
        if n < 0 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.1 = n as u64;
        Ok(self.1)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Slot {
    None,
    Good(u8),
    /// damage: which byte of the two magics, xor value
    Bad(u8, u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Probe {
    trees: Vec<Tree>,
    lay: Layout,
    slots: Vec<Slot>,
    decoys: Vec<(u64, u8)>,
    surround: u32,
    /// cut the medium this many bytes after the end of the last piece (negative: inside)
    cut: i32,
}

fn probe() -> BoxedStrategy<Probe> {
    let slot = prop_oneof![
        3 => Just(Slot::None),
        3 => (0u8..3).prop_map(Slot::Good),
        2 => (0u8..3, 0u8..40, 1u8..=255).prop_map(|(a, b, c)| Slot::Bad(a, b, c)),
    ];
    let decoy = (
        prop_oneof![
            proptest::sample::select(vec![2048u64, 4096, 65536, 32768, 1024, 34078720 - 2048, 34078720 + 2048, 265879552 - 2048, 265879552 + 2048, 405798912 - 2048, 405798912 + 2048, 0x1FB20000, 0x2080000 + 65536, 0xFD90000 + 65536]),
            0u64..500_000_000,
        ],
        0u8..3,
    );
    (
        proptest::collection::vec(gen::tree(Opts { big: false, bulk: false, max_entries: 5, ..Opts::default() }), 3),
        gen::layout(),
        proptest::collection::vec(slot, 4),
        proptest::collection::vec(decoy, 0..3),
        prop_oneof![Just(0u32), any::<u32>()],
        prop_oneof![4 => Just(0i32), 2 => 1i32..5000, 2 => -80000i32..0],
    )
        .prop_map(|(trees, lay, slots, decoys, surround, cut)| Probe { trees, lay, slots, decoys, surround, cut })
        .boxed()
}

fn run_probe(k: &Probe, cx: &mut Cx) -> Outcome {
    let imgs: Vec<Arc<Vec<u8>>> = k.trees.iter().map(|t| Arc::new(build_checked(t, &k.lay))).collect();
    let mut pieces = vec![];
    // decoys first: what lies at a supported offset is laid over them
    for (o, i) in &k.decoys {
        pieces.push((*o, imgs[*i as usize].clone()));
    }
    for (j, s) in k.slots.iter().enumerate() {
        match s {
            Slot::None => {}
            Slot::Good(i) => pieces.push((OFFSETS[j], imgs[*i as usize].clone())),
            Slot::Bad(i, at, x) => {
                let mut b = imgs[*i as usize].to_vec();
                let at = *at as usize;
                let p = if at < 20 { 65536 + at } else { 65536 + 2048 - 20 + at - 20 };
                b[p] ^= x;
                pieces.push((OFFSETS[j], Arc::new(b)));
            }
        }
    }
    let end = pieces.iter().map(|(o, p)| o + p.len() as u64).max().unwrap_or(0);
    let m = Multi { pieces, len: (end as i64 + k.cut as i64).max(0) as u64, surround: k.surround as u64 };
    let want = (0..4).find(|&j| m.valid_at(OFFSETS[j]));
    let valid = (0..4).filter(|&j| m.valid_at(OFFSETS[j])).count();
    cx.label(match want {
        None => "no volume".to_string(),
        Some(j) => format!("volume at {}", OFFSETS[j]),
    });
    cx.label_if(valid > 1, "several volumes");
    cx.label_if(want.is_none() && !k.decoys.is_empty(), "only decoys");
    cx.nontrivial(valid > 1 || !k.decoys.is_empty() || k.slots.iter().any(|s| matches!(s, Slot::Bad(..))));
    let a = blk!(OffsetWrapper::new(m.clone()));
    let b = blk!(OffsetWrapper::new(MultiIo(m.clone(), 0)));
    match want {
        None => {
            for (what, e) in [("", a.err().map(|e| format!("{e:?}"))), (" (std::io)", b.err().map(|e| format!("{e:?}")))] {
                let Some(e) = e else { return Err(format!("a medium without a volume was accepted{what}")) };
                ensure!(e.starts_with("InvalidVolume"), "a medium without a volume was rejected with {e}{what}");
            }
            Ok(())
        }
        Some(j) => {
            let mut a = a.map_err(|e| format!("the volume at {} was not recognised: {e:?}", OFFSETS[j]))?;
            let b = b.map_err(|e| format!("the volume at {} was not recognised (std::io): {e:?}", OFFSETS[j]))?;
            for o in [a.get_offset(), b.get_offset()] {
                ensure!(o == OFFSETS[j], "opened at offset {o}, the first valid volume is at {}", OFFSETS[j]);
            }
            // whole, unless the medium ends early or pieces lie over each other
            let i = match k.slots[j] {
                Slot::Good(i) if k.cut >= 0 => i as usize,
                _ => return Ok(()),
            };
            let clean = m.pieces.iter().enumerate().all(|(x, (o, p))| {
                m.pieces.iter().enumerate().all(|(y, (o2, p2))| x == y || o + p.len() as u64 <= *o2 || o2 + p2.len() as u64 <= *o)
            });
            if !clean {
                return Ok(());
            }
            same(&k.trees[i].flat(), &lib_flat(&mut a)?, "read at the offset")
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Emb {
    tree: Tree,
    lay: Layout,
    offset: u8,
    tail: u16,
    surround: u32,
}
fn emb(o: Opts) -> BoxedStrategy<Emb> {
    (gen::tree(o), gen::layout(), 0u8..4, 0u16..5000, any::<u32>())
        .prop_map(|(tree, lay, offset, tail, surround)| Emb { tree, lay, offset, tail, surround })
        .boxed()
}

/// Everything the read side says about a device.
fn answers<D>(dev: &mut D, k: &Emb) -> Result<Vec<String>, String>
where
    D: blockdev::BlockDeviceRead,
    D::ReadError: std::fmt::Debug,
{
    let vol = blk!(xdvdfs::read::read_volume(dev)).map_err(e2s)?;
    let mut out = vec![];
    let ft = blk!(vol.root_table.file_tree(dev)).map_err(e2s)?;
    for (d, n) in &ft {
        out.push(format!("{d:?} {:?}", desc_of(n)));
    }
    let mut it = blk!(vol.root_table.scan_dirent_tree(dev)).map_err(e2s)?;
    while let Some(n) = blk!(it.next_entry()).map_err(e2s)? {
        out.push(format!("scan {:?}", desc_of(&n)));
    }
    for (p, ..) in k.tree.list() {
        let n = blk!(vol.root_table.walk_path(dev, &p.join("/"))).map_err(e2s)?;
        out.push(format!("{p:?} {:?}", desc_of(&n)));
        if !n.node.dirent.is_directory() {
            let size = n.node.dirent.data.size as u64;
            let all = blk!(n.node.dirent.read_data_all(dev)).map_err(e2s)?;
            let b = blk!(n.node.dirent.read_data_offset(dev, size / 2, size / 3)).map_err(e2s)?;
            out.push(format!("{} {}", h(&all), h(&b)));
        }
    }
    let c = blk!(xdvdfs::checksum::checksum(dev, &vol)).map_err(e2s)?;
    out.push(format!("{c:?}"));
    Ok(out)
}
fn h(b: &[u8]) -> u64 {
    b.iter().fold(1, |a, x| content::mix(a ^ *x as u64))
}

fn run_emb(k: &Emb, cx: &mut Cx) -> Outcome {
    let img = build_checked(&k.tree, &k.lay);
    let m = Medium { image: Arc::new(img.clone()), base: OFFSETS[k.offset as usize], tail: k.tail as u64, surround: k.surround as u64 | 1, far: None };
    cx.nontrivial(k.offset > 0 && k.tree.list().len() >= 3);
    cx.label(format!("offset {}", OFFSETS[k.offset as usize]));
    let a = answers(&mut xv::devs::MemDev::new(img.clone()), k).map_err(|e| format!("bare image: {e}"))?;
    let mut w = blk!(OffsetWrapper::new(m.clone())).map_err(|e| format!("not recognised: {e:?}"))?;
    let b = answers(&mut w, k).map_err(|e| format!("embedded image: {e}"))?;
    let mut w = blk!(OffsetWrapper::new(std::io::BufReader::new(xv::devs::IoSrc::new(m.clone())))).map_err(|e| format!("not recognised: {e:?}"))?;
    let c = answers(&mut w, k).map_err(|e| format!("embedded image, std::io: {e}"))?;
    for (x, y) in [(&a, &b), (&a, &c)] {
        if let Some(i) = (0..x.len().max(y.len())).find(|&i| x.get(i) != y.get(i)) {
            return Err(format!("bare: {:?}; at the offset: {:?}", x.get(i), y.get(i)));
        }
    }
    let r1 = repack_default(&Medium::bare(img)).map_err(|e| format!("bare: {e}"))?;
    let r2 = repack_default(&m).map_err(|e| format!("embedded: {e}"))?;
    ensure!(r1 == r2, "repacking gives different images");
    Ok(())
}

fn run_cli(k: &Emb, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    let img = build_checked(&k.tree, &k.lay);
    let m = Medium { image: Arc::new(img), base: OFFSETS[k.offset as usize], tail: k.tail as u64, surround: k.surround as u64 | 1, far: None };
    cx.nontrivial(k.offset > 0 && k.tree.list().len() >= 3);
    cx.label(format!("offset {}", OFFSETS[k.offset as usize]));
    // two directories, the same file name, the same commands
    for n in ["a", "b"] {
        std::fs::create_dir(d.join(n)).unwrap();
    }
    std::fs::write(d.join("a/i.iso"), &*m.image).unwrap();
    m.to_file(&d.join("b/i.iso")).map_err(|e| format!("harness: {e}"))?;
    let l = k.tree.list();
    let pick = |f: &dyn Fn(&(Path, bool, u64, u64)) -> bool| l.iter().filter(|e| f(e)).nth(k.surround as usize % l.iter().filter(|e| f(e)).count().max(1)).map(|e| cli::ipath(&e.0));
    let mut cmds: Vec<Vec<String>> = vec![
        vec!["ls".into(), "i.iso".into()],
        vec!["ls".into(), "-s".into(), "i.iso".into()],
        vec!["tree".into(), "i.iso".into()],
        vec!["info".into(), "i.iso".into()],
        vec!["info".into(), "i.iso".into(), "/".into()],
        vec!["md5".into(), "i.iso".into()],
        vec!["checksum".into(), "-s".into(), "i.iso".into()],
        vec!["unpack".into(), "i.iso".into(), "u".into()],
        vec!["pack".into(), "i.iso".into(), "p.iso".into()],
        vec!["extract-xiso".into(), "-l".into(), "i.iso".into()],
    ];
    if k.surround % 4 == 0 {
        cmds.push(vec!["compress".into(), "i.iso".into(), "c.cso".into()]);
    }
    if let Some(f) = pick(&|e| !e.1) {
        cmds.push(vec!["copy-out".into(), "i.iso".into(), f.clone(), "f".into()]);
        cmds.push(vec!["info".into(), "i.iso".into(), f.clone()]);
        cmds.push(vec!["md5".into(), "i.iso".into(), f]);
    }
    if let Some(f) = pick(&|e| e.1) {
        cmds.push(vec!["copy-out".into(), "i.iso".into(), f.clone(), "d".into()]);
        cmds.push(vec!["ls".into(), "i.iso".into(), f]);
    }
    for c in &cmds {
        let a = cli::run(&d.join("a"), c);
        let b = cli::run(&d.join("b"), c);
        cx.evals(1);
        b.sane().map_err(|e| format!("{c:?} at the offset: {e}"))?;
        ensure!(a.code == b.code && a.stdout == b.stdout, "{c:?}: bare image: exit {:?}, {:?}; at the offset: exit {:?}, {:?} {:?}", a.code, a.out(), b.code, b.out(), b.err());
    }
    for x in ["a", "b"] {
        std::fs::remove_file(d.join(x).join("i.iso")).unwrap();
    }
    same(&cli::read_tree(&d.join("a"))?, &cli::read_tree(&d.join("b"))?, "files created from the bare image and at the offset")
}

fn main() {
    let mut c = Check::new(
        "C08",
        "exploration",
        "Part `probe`: a case is a medium with, at each supported offset, no volume, a valid one or one with a damaged magic,
         further volumes at unsupported offsets, arbitrary bytes elsewhere and an arbitrary end; opening must choose the first
         valid supported offset or report that there is none. Parts `embedded` and `cli`: an image at one of the offsets with
         arbitrary bytes around it must answer every read operation and command as the bare image does. Non-trivial: a medium
         with several volumes, decoys or damage; an embedded image with at least three entries at a non-zero offset.",
    );
    c.part("probe", 12000, 400000, probe, run_probe);
    c.part("embedded", 4000, 100000, || emb(Opts::default()), run_emb);
    c.part("cli", 160, 1500, || emb(Opts { host: true, bulk_max: 60, ..Opts::default() }), run_cli);
    c.finish();
}
