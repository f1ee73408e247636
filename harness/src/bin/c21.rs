//! C21: progress reports match the work done.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;
use std::sync::Arc;
use xdvdfs::blockdev::OffsetWrapper;
use xdvdfs::write::fs::{self as wfs, FilesystemHierarchy};
use xdvdfs::write::img::{create_xdvdfs_image, ProgressInfo};
use xv::builder::{build_checked, Layout};
use xv::cli::{self, Run};
use xv::devs::{IoMem, IoSrc, Medium, MemDev};
use xv::gen::{self, Opts};
use xv::memfs::MemFs;
use xv::ops::*;
use xv::runner::*;
use xv::tree::*;
use xv::events::{complete, show};
use xv::{blk, ensure, reader, OFFSETS};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    /// 0 memory, 1 image with the generic copier, 2 image with the std::io copier, 3 host, 4 remapped memory source
    how: u8,
    /// make one file too large for the format, or duplicate a name
    spoil: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    m: gen::Many,
    lay: Layout,
    how: u8,
}

type Ran = (Result<Vec<u8>, String>, Vec<ProgressInfo>, u64, u64);

fn go(t: &Tree, k: &Case, host: &Path, img: &Arc<Vec<u8>>, at: Option<u64>, src: Option<u64>) -> Result<Ran, String> {
    let m = Medium { image: img.clone(), base: OFFSETS[(k.lay.seed % 4) as usize], tail: 0, surround: 3, far: None };
    let mut ev = vec![];
    let f = |p| ev.push(p);
    let (r, calls, src_calls) = match k.how {
        0 | 1 | 4 => {
            let mut d = MemDev { fail_write_at: at, ..MemDev::default() };
            let mut sc = 0;
            let r = match k.how {
                0 => {
                    let mut fs = MemFs::new(t);
                    fs.fail_at = src;
                    let r = blk!(create_xdvdfs_image(&mut fs, &mut d, f)).map_err(e2s);
                    sc = fs.calls;
                    r
                }
                1 => {
                    let dev = blk!(OffsetWrapper::new(m)).map_err(e2s)?;
                    let mut fs: wfs::XDVDFSFilesystem<_, MemDev> = blk!(wfs::XDVDFSFilesystem::new(dev)).ok_or("no file system")?;
                    blk!(create_xdvdfs_image(&mut fs, &mut d, f)).map_err(e2s)
                }
                _ => {
                    let cfg = wfs::RemapOverlayConfig { map_rules: vec![("**".into(), "/{0}".into())] };
                    let mut fs = blk!(wfs::RemapOverlayFilesystem::new(MemFs::new(t), cfg)).map_err(e2s)?;
                    blk!(create_xdvdfs_image(&mut fs, &mut d, f)).map_err(e2s)
                }
            };
            (r.map(|_| d.data), d.writes + d.lens, sc)
        }
        _ => {
            let mut d = IoMem { fail_at: at, ..IoMem::default() };
            let r = if k.how == 2 {
                let dev = blk!(OffsetWrapper::new(IoSrc::new(m))).map_err(e2s)?;
                let mut fs = blk!(wfs::XDVDFSFilesystem::<_, IoMem, wfs::StdIOCopier<_, _>>::new(dev)).ok_or("no file system")?;
                blk!(create_xdvdfs_image(&mut fs, &mut d, f)).map_err(e2s)
            } else {
                let mut fs = wfs::StdFilesystem::create(host);
                blk!(create_xdvdfs_image(&mut fs, &mut d, f)).map_err(e2s)
            };
            (r.map(|_| d.data), d.calls, 0)
        }
    };
    Ok((r, ev, calls, src_calls))
}

fn library(k: &Case, cx: &mut Cx) -> Outcome {
    let host = if k.how == 3 {
        let d = cx.scratch();
        host_tree(&d.join("s"), &k.tree);
        d.join("s")
    } else {
        Default::default()
    };
    let img = Arc::new(if matches!(k.how, 1 | 2) { build_checked(&k.tree, &k.lay) } else { vec![] });
    let std = wfs::StdFilesystem::create(&host);
    let name = |p: &[String]| -> String {
        if k.how == 3 {
            std.path_to_string(&pathvec(p))
        } else {
            format!("/{}", p.join("/"))
        }
    };
    cx.label(["memory source", "image, generic copier", "image, std::io copier", "host source", "remapped source"][k.how as usize]);
    let (r, full, calls, src) = go(&k.tree, k, &host, &img, None, None)?;
    let out = r?;
    complete(&full, &out, &name)?;
    cx.nontrivial(k.tree.list().len() > 2 && k.tree.list().iter().any(|e| e.1));
    // failures: the same events up to some point, and no completion
    let full: Vec<String> = full.iter().map(show).collect();
    let mut cut = |at: Option<u64>, s: Option<u64>, what: String| -> Outcome {
        let (r, ev, ..) = go(&k.tree, k, &host, &img, at, s)?;
        cx.evals(1);
        let fin = ev.iter().filter(|e| matches!(e, ProgressInfo::FinishedPacking)).count();
        if r.is_ok() {
            ensure!(fin == 1, "{what}: success, but completion was reported {fin} times");
            return Ok(());
        }
        ensure!(fin == 0, "{what}: packing failed, but completion was reported");
        ensure!(ev.len() <= full.len() && ev.iter().zip(&full).all(|(a, b)| show(a) == *b), "{what}: the events differ from those of a complete run: {:?}", ev.last());
        Ok(())
    };
    let step = (calls / 50).max(1);
    let mut i = 0;
    while i < calls {
        cut(Some(i), None, format!("output call {i} of {calls} failed"))?;
        i += if i < 4 || i + 8 > calls { 1 } else { step };
    }
    let step = (src / 30).max(1);
    for i in (0..src).step_by(step as usize) {
        cut(None, Some(i), format!("source call {i} of {src} failed"))?;
    }
    // sources that cannot be represented
    if k.how == 0 && k.spoil < 2 && !k.tree.0.is_empty() {
        let mut t = k.tree.clone();
        let e = t.0[0].clone();
        t.0.push(Entry { name: if k.spoil == 0 { e.name.to_ascii_lowercase() } else { "x".repeat(300) }, node: Node::File { len: 1, seed: 1 } });
        let (r, ev, ..) = go(&t, k, &host, &img, None, None)?;
        if r.is_err() {
            cx.label("unrepresentable source");
            ensure!(!ev.iter().any(|e| matches!(e, ProgressInfo::FinishedPacking)), "packing failed, but completion was reported");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cmd {
    tree: Tree,
    lay: Layout,
    cmd: u8,
    cut: u32,
}

fn command(k: &Cmd, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    if k.tree.list().iter().any(|(p, ..)| p.iter().any(|n| n.contains(['\n', '\r']))) {
        cx.label("name with a line break");
        return Ok(());
    }
    host_tree(&d.join("s"), &k.tree);
    std::fs::write(d.join("in.iso"), build_checked(&k.tree, &k.lay)).map_err(e2s)?;
    let args: Vec<&str> = match k.cmd {
        0 => vec!["pack", "s", "o.iso"],
        1 => vec!["pack", "in.iso", "o.iso"],
        2 => vec!["build-image", "-m", "**:/{0}", "s", "o.iso"],
        3 => vec!["extract-xiso", "-c", "s", "o.iso"],
        _ => vec!["extract-xiso", "-r", "in.iso"],
    };
    cx.label(["pack directory", "pack image", "build-image", "extract-xiso create", "extract-xiso rewrite"][k.cmd as usize]);
    let o = cli::run(&d, &args).success(&format!("{args:?}"))?;
    let img = std::fs::read(d.join(if k.cmd == 4 { "in.iso" } else { "o.iso" })).map_err(e2s)?;
    let p = reader::parse(&img)?;
    // the host source names host paths, as the library's path_to_string of the real directory
    let std = wfs::StdFilesystem::create(&d.join("s").canonicalize().map_err(e2s)?);
    let name = |q: &[String]| if matches!(k.cmd, 0 | 3) { std.path_to_string(&pathvec(q)) } else { format!("/{}", q.join("/")) };
    let mut want: Vec<String> = vec![];
    for x in &p.dirs {
        want.push(format!("Added dir: {} at sector {}", name(&x.path), x.sector));
        for e in &x.entries {
            let mut q = x.path.clone();
            q.push(e.name_str());
            want.push(format!("Added file: {} at sector {}", name(&q), e.sector));
        }
    }
    let text = o.out();
    let mut got = vec![];
    for (i, l) in text.lines().enumerate() {
        let pre = format!("[{}/{}] ", i + 1, want.len());
        let Some(r) = l.strip_prefix(&pre) else { return Err(format!("{args:?}: line {l:?} does not start with {pre:?}")) };
        got.push(r.to_string());
    }
    cx.nontrivial(want.len() > 3);
    got.sort();
    want.sort();
    if got != want {
        let i = (0..got.len().max(want.len())).find(|&i| got.get(i) != want.get(i)).unwrap();
        return Err(format!("{args:?}: expected {:?}, printed {:?}", want.get(i), got.get(i)));
    }
    // a run that fails prints the beginning of this
    if k.cmd != 4 {
        let full = o.stdout;
        let f = k.cut as u64 % img.len() as u64;
        let o = cli::run_with(&d, &args, &Run { fsize: Some(f), ..Run::default() }).failure(&format!("{args:?} with files limited to {f} bytes"))?;
        ensure!(full.starts_with(&o.stdout), "{args:?}: a failing run prints other lines: {:?}", o.out());
        cx.evals(1);
    }
    Ok(())
}

fn main() {
    let mut c = Check::new(
        "C21",
        "fault_enumeration",
        "Part `library`: the events of packing a random tree (memory, image through either copier, host, remapped) are matched with the
         independently parsed image: counts announced first and equal to what is reported, every directory and entry reported once
         with its sector, one completion at the end. Then output and source calls are failed in turn and unrepresentable entries are
         added: the events must be a prefix of the complete sequence, without completion unless the run succeeds. Part `commands`:
         the numbered lines of pack, build-image and extract-xiso against the image, and with a full disk. Non-trivial: several
         entries including a directory.",
    );
    let o = Opts { host: true, big: false, bulk_max: 80, max_entries: 12, deep: 40, ..Opts::default() };
    c.part("library", 2500, 60000, || (gen::tree(o), gen::layout(), 0u8..5, 0u8..4).prop_map(|(tree, lay, how, spoil)| Case { tree, lay, how, spoil }).boxed(), library);
    c.part("commands", 800, 15000, || (gen::tree(o), gen::layout(), 0u8..5, any::<u32>()).prop_map(|(tree, lay, cmd, cut)| Cmd { tree, lay, cmd, cut }).boxed(), command);
    c.part("many", 4, 200, || (gen::many(), gen::layout(), 0u8..2).prop_map(|(m, lay, how)| Big { m, lay, how }).boxed(), |k: &Big, cx| {
        let t = k.m.tree();
        let how = if k.how == 0 { 0 } else { 4 };
        cx.label(["memory source", "remapped source"][k.how as usize]);
        cx.label_if(t.list().len() > 65536, "more than 65536 entries");
        cx.nontrivial(true);
        let c = Case { tree: Tree(vec![]), lay: k.lay.clone(), how, spoil: 0 };
        let (r, full, ..) = go(&t, &c, Path::new(""), &Arc::new(vec![]), None, None)?;
        complete(&full, &r?, &|p: &[String]| format!("/{}", p.join("/")))
    });
    xv::desk::part(&mut c, 250, &[0, 1], &[false, true], 0.0, xv::desk::full);
    c.finish();
}
