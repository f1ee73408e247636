//! C17: file reads return exactly the requested bytes.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::io::{BufReader, Read};
use std::sync::Arc;
use xdvdfs::blockdev::{self, OffsetWrapper};
use xdvdfs::layout::DirectoryEntryNode;
use xv::builder::{build_checked, build_far, giant, Layout};
use xv::content;
use xv::devs::{IoSrc, Medium, MemDev};
use xv::gen::{self, Opts};
use xv::ops::*;
use xv::runner::*;
use xv::tree::*;
use xv::{blk, ensure, OFFSETS};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    #[serde(default)]
    far: Option<(u16, u8)>,
    offset: u8,
    short: u8,
    /// (kind of start, kind of length, a, b)
    ranges: Vec<(u8, u8, u64, u64)>,
}

/// A position relative to interesting places of a file of `n` bytes.
fn place(kind: u8, n: u64, v: u64) -> u64 {
    match kind % 12 {
        0 => 0,
        1 => 1,
        2 => n.saturating_sub(1),
        3 => n,
        4 => n + 1,
        5 => v % (n + 1),
        6 => (v % (n / 2048 + 2)) * 2048,
        7 => ((v % (n / 2048 + 2)) * 2048).saturating_sub(1) + (v >> 32) % 3,
        8 => n / 2,
        9 => n + v % 5000,
        10 => u64::MAX - v % 3,
        _ => (1 << 32) + v % 100,
    }
}

fn show(o: u64, l: u64, n: u64) -> String {
    format!("offset {o}, length {l}, of {n} bytes")
}

fn one<D>(dev: &mut D, e: &DirectoryEntryNode, n: u64, seed: u64, k: &Case, cx: &mut Cx, what: &str) -> Outcome
where
    D: blockdev::BlockDeviceRead,
    D::ReadError: Debug + Send + Sync,
{
    let d = e.node.dirent;
    let want = content::bytes(seed, n);
    let got = blk!(d.read_data_all(dev)).map_err(|e| format!("{what}: whole read of {n} bytes failed: {e:?}"))?;
    ensure!(got[..] == want[..], "{what}: whole read of {n} bytes gives {} bytes, first difference {:?}", got.len(), got.iter().zip(&want).position(|(a, b)| a != b));
    cx.evals(1);
    for &(ks, kl, a, b) in &k.ranges {
        let o = place(ks, n, a);
        let l = match kl % 4 {
            // up to an interesting place, or an interesting length
            0 => place(kl / 4, n, b).saturating_sub(o),
            1 => place(kl / 4, n, b),
            2 => b % 5000,
            _ => n.saturating_sub(o) + b % 3,
        };
        let lo = o.min(n) as usize;
        let hi = o.saturating_add(l).min(n) as usize;
        cx.evals(2);
        cx.label(match (lo < hi, (o as u128 + l as u128) > n as u128) {
            (true, true) => "range over the end",
            (true, false) => "range inside",
            _ if o >= n => "range past the end",
            _ => "empty range",
        });
        let got = blk!(d.read_data_offset(dev, l, o)).map_err(|e| format!("{what}: ranged read failed ({}): {e:?}", show(o, l, n)))?;
        ensure!(
            got[..] == want[lo..hi],
            "{what}: ranged read ({}) gives {} bytes instead of {}, first difference {:?}",
            show(o, l, n),
            got.len(),
            hi - lo,
            got.iter().zip(&want[lo..hi]).position(|(a, b)| a != b)
        );
        // into a buffer of the caller: the file's first bytes, nothing after its end
        let len = (l.min(n + 4096)) as usize;
        let mut buf: Vec<u8> = (0..len).map(|i| (i as u8) ^ 0xa5).collect();
        let before = buf.clone();
        blk!(d.read_data(dev, &mut buf)).map_err(|e| format!("{what}: read of {n} bytes into a buffer of {len} failed: {e:?}"))?;
        let m = len.min(n as usize);
        ensure!(buf[..m] == want[..m], "{what}: read into a buffer of {len} bytes: byte {:?} of {n} differs", buf.iter().zip(&want).position(|(a, b)| a != b));
        ensure!(buf[m..] == before[m..], "{what}: read of a file of {n} bytes into a buffer of {len} wrote behind the file's end");
    }
    Ok(())
}

fn all<D>(mut dev: D, k: &Case, cx: &mut Cx, what: &str) -> Result<D, String>
where
    D: blockdev::BlockDeviceRead,
    D::ReadError: Debug + Send + Sync,
{
    let vol = blk!(xdvdfs::read::read_volume(&mut dev)).map_err(e2s)?;
    for (p, dir, n, seed) in k.tree.list().into_iter().filter(|e| !e.1).take(12) {
        let _ = dir;
        let e = blk!(vol.root_table.walk_path(&mut dev, &p.join("/"))).map_err(|e| format!("{what}: {p:?}: {e:?}"))?;
        one(&mut dev, &e, n, seed, k, cx, what).map_err(|e| format!("{p:?}: {e}"))?;
    }
    Ok(dev)
}

fn library(k: &Case, cx: &mut Cx) -> Outcome {
    let (img, far) = build_far(&k.tree, &k.lay, k.far);
    cx.label_if(far.is_some(), "far regions");
    let base = OFFSETS[k.offset as usize % 4];
    let m = Medium { image: Arc::new(img.clone()), base, tail: 0, surround: 3, far };
    cx.nontrivial(k.tree.list().iter().any(|e| !e.1 && e.2 > 1));
    match k.offset / 4 {
        0 => {
            cx.label("memory device");
            all(MemDev { far, ..MemDev::new(img) }, k, cx, "memory device")?;
        }
        1 => {
            cx.label("offset wrapper");
            all(blk!(OffsetWrapper::new(m)).map_err(e2s)?, k, cx, "offset wrapper")?;
        }
        2 => {
            cx.label("boxed device");
            let b: Box<dyn blockdev::BlockDeviceRead<ReadError = std::io::Error>> =
                Box::new(blk!(OffsetWrapper::new(BufReader::new(IoSrc { short: k.short as usize * 37, interrupt: k.short as u64 % 5, ..IoSrc::new(m) }))).map_err(e2s)?);
            all(b, k, cx, "boxed std::io device")?;
        }
        _ => {
            cx.label("file");
            let d = cx.scratch();
            Medium { base: 0, surround: 0, ..m }.to_file(&d.join("i")).map_err(e2s)?;
            let f = BufReader::with_capacity(1 + k.short as usize * 100, std::fs::File::open(d.join("i")).map_err(e2s)?);
            let mut f = all(f, k, cx, "file")?;
            // seeking to a file's data
            let vol = blk!(xdvdfs::read::read_volume(&mut f)).map_err(e2s)?;
            for (p, _, n, seed) in k.tree.list().into_iter().filter(|e| !e.1 && e.2 > 0).take(5) {
                let e = blk!(vol.root_table.walk_path(&mut f, &p.join("/"))).map_err(e2s)?;
                e.node.dirent.seek_to(&mut f).map_err(e2s)?;
                let mut v = vec![0; n as usize];
                f.read_exact(&mut v).map_err(e2s)?;
                ensure!(v == content::bytes(seed, n), "{p:?}: seek_to leads elsewhere");
            }
        }
    }
    Ok(())
}

/// Slices are devices of their own.
fn slices(k: &Case, cx: &mut Cx) -> Outcome {
    let mut img = build_checked(&k.tree, &k.lay);
    cx.nontrivial(k.tree.list().iter().any(|e| !e.1 && e.2 > 1));
    let mut probe = MemDev::new(img.clone());
    let vol = blk!(xdvdfs::read::read_volume(&mut probe)).map_err(e2s)?;
    for (p, _, n, seed) in k.tree.list().into_iter().filter(|e| !e.1).take(12) {
        let e = blk!(vol.root_table.walk_path(&mut probe, &p.join("/"))).map_err(e2s)?;
        let d = e.node.dirent;
        let want = content::bytes(seed, n);
        let dev: &mut [u8] = &mut img;
        let got = blk!(d.read_data_all(dev)).map_err(e2s)?;
        ensure!(got[..] == want[..], "{p:?}: whole read from a slice differs");
        for &(ks, kl, a, b) in &k.ranges {
            let (o, l) = (place(ks, n, a), place(kl, n, b));
            let (lo, hi) = (o.min(n) as usize, o.saturating_add(l).min(n) as usize);
            let got = blk!(d.read_data_offset(dev, l, o)).map_err(|e| format!("{p:?}: ranged read from a slice failed ({}): {e:?}", show(o, l, n)))?;
            cx.evals(1);
            ensure!(got[..] == want[lo..hi], "{p:?}: ranged read from a slice differs ({})", show(o, l, n));
        }
    }
    Ok(())
}

/// Fixed positions on a grid around every boundary of small files.
fn grid(k: &Case, cx: &mut Cx) -> Outcome {
    let img = build_checked(&k.tree, &k.lay);
    let mut dev = MemDev::new(img);
    let vol = blk!(xdvdfs::read::read_volume(&mut dev)).map_err(e2s)?;
    for (p, _, n, seed) in k.tree.list().into_iter().filter(|e| !e.1 && e.2 < 70_000).take(4) {
        let e = blk!(vol.root_table.walk_path(&mut dev, &p.join("/"))).map_err(e2s)?;
        let want = content::bytes(seed, n);
        let mut at: Vec<u64> = vec![0, 1, n, n + 1, n.saturating_sub(1), 2047, 2048, 2049, 4095, 4096, 4097, n / 2, n + 2048];
        at.sort();
        at.dedup();
        for &o in &at {
            for &l in &at {
                let (lo, hi) = (o.min(n) as usize, (o + l).min(n) as usize);
                let got = blk!(e.node.dirent.read_data_offset(&mut dev, l, o)).map_err(|e| format!("{p:?}: {} failed: {e:?}", show(o, l, n)))?;
                cx.evals(1);
                ensure!(got[..] == want[lo..hi], "{p:?}: ranged read differs ({})", show(o, l, n));
            }
        }
        cx.nontrivial(n > 0);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    tree: Tree,
    lay: Layout,
    giant: (u16, u8, u32),
    offset: u8,
    ranges: Vec<(u8, u64, u8, u32)>,
}

/// A file of up to 4 GiB, read in parts.
fn run_giant(k: &Giant, cx: &mut Cx) -> Outcome {
    let Some(g) = giant(&k.tree, &k.lay, k.giant) else {
        cx.label("no file to enlarge");
        return Ok(());
    };
    cx.nontrivial(true);
    cx.label(if g.size >= 1 << 31 { "file of 2 GiB or more" } else { "file below 2 GiB" });
    let Some(Node::File { seed, .. }) = k.tree.find(&g.path) else { return Err("harness: no such file".into()) };
    let m = Medium { image: Arc::new(g.img.clone()), base: OFFSETS[k.offset as usize % 4], tail: 0, surround: 3, far: Some(g.far) };
    fn go<D>(mut dev: D, k: &Giant, g: &xv::builder::Giant, seed: u64, cx: &mut Cx) -> Outcome
    where
        D: blockdev::BlockDeviceRead,
        D::ReadError: Debug + Send + Sync,
    {
        let vol = blk!(xdvdfs::read::read_volume(&mut dev)).map_err(e2s)?;
        let e = blk!(vol.root_table.walk_path(&mut dev, &g.path.join("/"))).map_err(|e| format!("{:?}: {e:?}", g.path))?;
        let d = e.node.dirent;
        let n = g.size;
        for &(ko, v, kl, w) in &k.ranges {
            let near = |x: u64| (x + v % 6000).saturating_sub(3000);
            let o = match ko % 10 {
                0 => near(g.gap.0),
                1 => near(g.gap.0 + g.gap.1),
                2 => near(1 << 24),
                3 => near(1 << 31),
                4 => near(1 << 32),
                5 => near(n),
                6 => near(1 << 16),
                7 => near(0),
                _ => v % (n + 1),
            };
            let l = match kl % 5 {
                0 => 1,
                1 => 2048,
                2 => w as u64 % 10_000,
                3 => n.saturating_sub(o).min(1 << 20),
                _ => w as u64 % (1 << 20),
            };
            let want = g.range(seed, o, l);
            cx.evals(1);
            cx.label_if(o < n && o >= 1 << 31, "range beyond 2 GiB");
            let got = blk!(d.read_data_offset(&mut dev, l, o)).map_err(|e| format!("ranged read failed ({}): {e:?}", show(o, l, n)))?;
            ensure!(got[..] == want[..], "ranged read ({}) gives {} bytes instead of {}, first difference {:?}", show(o, l, n), got.len(), want.len(), got.iter().zip(&want).position(|(a, b)| a != b));
            let mut buf = vec![0xa5; l as usize];
            blk!(d.read_data(&mut dev, &mut buf)).map_err(|e| format!("reading the first {l} bytes of {n} failed: {e:?}"))?;
            let want = g.range(seed, 0, l);
            ensure!(buf[..want.len()] == want[..], "reading the first {l} bytes of {n} gives others");
            ensure!(buf[want.len()..].iter().all(|b| *b == 0xa5), "reading {n} bytes into a buffer of {l} wrote behind the file's end");
        }
        // what is not the giant is where it was
        for (p, _, len, seed) in k.tree.list().into_iter().filter(|e| !e.1 && e.0 != g.path).take(6) {
            let e = blk!(vol.root_table.walk_path(&mut dev, &p.join("/"))).map_err(|e| format!("{p:?}: {e:?}"))?;
            let got = blk!(e.node.dirent.read_data_all(&mut dev)).map_err(|e| format!("{p:?}: {e:?}"))?;
            ensure!(got[..] == content::bytes(seed, len)[..], "{p:?}: whole read differs");
        }
        Ok(())
    }
    match k.offset / 4 {
        0 => go(Medium { base: 0, ..m }, k, &g, *seed, cx),
        1 => go(blk!(OffsetWrapper::new(m)).map_err(e2s)?, k, &g, *seed, cx),
        2 => go(blk!(OffsetWrapper::new(BufReader::new(IoSrc::new(m)))).map_err(e2s)?, k, &g, *seed, cx),
        _ => {
            let d = cx.scratch();
            m.to_file(&d.join("i")).map_err(|e| format!("harness: {e}"))?;
            let f = BufReader::new(std::fs::File::open(d.join("i")).map_err(|e| format!("harness: {e}"))?);
            go(blk!(OffsetWrapper::new(f)).map_err(e2s)?, k, &g, *seed, cx)
        }
    }
}

fn main() {
    let mut c = Check::new(
        "C17",
        "exploration",
        "A case is an image in any layout with up to a dozen files that are read whole, in ranges and into caller buffers. Offsets and
         lengths come from a generator around 0, the end, sector boundaries, beyond the end, 2^32 and 2^64-1, and from a full grid of
         boundary positions for small files. Every result is compared with the file's bytes. Devices: memory, slice, offset wrapper,
         boxed std::io source with short and interrupted reads, file. Non-trivial: a file of at least two bytes.",
    );
    let case = |o: Opts| {
        (
            gen::tree(o),
            (gen::layout(), gen::far_file()),
            0u8..16,
            any::<u8>(),
            proptest::collection::vec((any::<u8>(), any::<u8>(), any::<u64>(), any::<u64>()), 3..10),
        )
            .prop_map(|(tree, (lay, far), offset, short, ranges)| Case { tree, lay, far, offset, short, ranges })
            .boxed()
    };
    let o = Opts { bulk: false, ..Opts::default() };
    c.part("ranges", 4000, 150000, || case(o), library);
    c.part("slices", 1500, 50000, || case(o), slices);
    c.part("grid", 1500, 50000, || case(o), grid);
    c.part("large", 24, 800, || (case(Opts { big: false, ..o }), gen::large_tree(false)).prop_map(|(k, tree)| Case { tree, ..k }).boxed(), library);
    c.part(
        "giant",
        3000,
        80000,
        || {
            (gen::tree(Opts { big: false, bulk: false, max_entries: 8, ..Opts::default() }), gen::layout(), gen::giant(), 0u8..16, proptest::collection::vec(any::<(u8, u64, u8, u32)>(), 3..10))
                .prop_map(|(tree, lay, giant, offset, ranges)| Giant { tree, lay, giant, offset, ranges })
                .boxed()
        },
        run_giant,
    );
    c.finish();
}
