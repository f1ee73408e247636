//! C13: write failures are reported.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;
use std::sync::Arc;
use xdvdfs::blockdev::OffsetWrapper;
use xdvdfs::write::fs as wfs;
use xdvdfs::write::img::create_xdvdfs_image;
use xv::builder::{build_checked, Layout};
use xv::cli::{self, Run};
use xv::devs::{IoMem, IoSrc, Medium, MemDev};
use xv::gen::{self, Opts};
use xv::memfs::MemFs;
use xv::ops::*;
use xv::runner::*;
use xv::tree::*;
use xv::{blk, ensure, OFFSETS};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    /// 0 memory source, 1 host source, 2 image with the generic copier, 3 image with the std::io copier, 4 host source to std::io
    how: u8,
    chunk: u16,
    short: u16,
}

/// One run with a fault at an index of the output's call sequence. Returns (result, output, faulted, calls).
type Ran = (Result<(), String>, Vec<u8>, bool, u64);

fn go(k: &Case, host: &Path, img: &Arc<Vec<u8>>, at: Option<u64>) -> Result<Ran, String> {
    let m = Medium { image: img.clone(), base: OFFSETS[(k.lay.seed % 4) as usize], tail: 0, surround: 3, far: None };
    Ok(match k.how {
        0 | 1 | 2 => {
            let mut d = MemDev { fail_write_at: at, ..MemDev::default() };
            let r = match k.how {
                0 => {
                    let mut fs = MemFs::new(&k.tree);
                    fs.chunk = k.chunk as usize;
                    blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).map_err(e2s)
                }
                1 => {
                    let mut fs = MemFs::new(&k.tree);
                    fs.chunk = 1 + k.chunk as usize % 700;
                    blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).map_err(e2s)
                }
                _ => {
                    let dev = blk!(OffsetWrapper::new(m)).map_err(e2s)?;
                    let mut fs: wfs::XDVDFSFilesystem<_, MemDev> = blk!(wfs::XDVDFSFilesystem::new(dev)).ok_or("no file system")?;
                    blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).map_err(e2s)
                }
            };
            (r, d.data, d.faulted, d.writes + d.lens)
        }
        3 => {
            let mut d = IoMem { fail_at: at, short: k.short as usize, ..IoMem::default() };
            let dev = blk!(OffsetWrapper::new(IoSrc::new(m))).map_err(e2s)?;
            let mut fs = blk!(wfs::XDVDFSFilesystem::<_, IoMem, wfs::StdIOCopier<_, _>>::new(dev)).ok_or("no file system")?;
            let r = blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).map_err(e2s);
            (r, d.data, d.faulted, d.calls)
        }
        _ => {
            let mut d = IoMem { fail_at: at, short: k.short as usize, ..IoMem::default() };
            let mut fs = wfs::StdFilesystem::create(host);
            let r = blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).map_err(e2s);
            (r, d.data, d.faulted, d.calls)
        }
    })
}

fn library(k: &Case, cx: &mut Cx) -> Outcome {
    let host = if k.how == 4 {
        let d = cx.scratch();
        host_tree(&d.join("s"), &k.tree);
        d.join("s")
    } else {
        Default::default()
    };
    let img = Arc::new(if matches!(k.how, 2 | 3) { build_checked(&k.tree, &k.lay) } else { vec![] });
    let (r, want, _, calls) = go(k, &host, &img, None)?;
    r.map_err(|e| format!("packing without faults failed: {e}"))?;
    cx.label(["memory source", "memory source in pieces", "image, generic copier", "image, std::io copier", "host source"][k.how as usize]);
    cx.nontrivial(k.tree.list().len() > 2 && calls > 5);
    // every index, or an even sample of 200 with both ends
    let step = (calls / 200).max(1);
    let mut i = 0;
    while i < calls {
        cx.evals(1);
        let (r, got, faulted, _) = go(k, &host, &img, Some(i))?;
        ensure!(faulted, "harness: the fault at call {i} of {calls} was not reached");
        if r.is_ok() {
            ensure!(got == want, "output call {i} of {calls} failed, but image creation reported success (output {} of {} bytes)", got.len(), want.len());
        }
        i += if i < 20 || i + 20 > calls { 1 } else { step };
    }
    // a destination that is too small
    if k.how == 4 {
        for less in [1usize, 2048, 4096, 65536, want.len() / 2, want.len() - 1] {
            if less > 0 && less < want.len() {
                cx.evals(1);
                ensure!(pack_host_box(&host, want.len() - less).is_err(), "packing {} bytes into {} bytes succeeded", want.len(), want.len() - less);
            }
        }
        pack_host_box(&host, want.len())?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lim {
    tree: Tree,
    lay: Layout,
    cmd: u8,
    at: Vec<(u8, u32)>,
}

const CMDS: [&str; 11] = ["pack directory", "pack image", "build-image", "compress directory", "compress image", "unpack", "copy-out directory", "copy-out file", "extract-xiso -c", "extract-xiso -x", "extract-xiso -r"];

fn limits(k: &Lim, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    let image = matches!(k.cmd, 1 | 4 | 5 | 6 | 7 | 9 | 10);
    if image {
        std::fs::write(d.join("in.iso"), build_checked(&k.tree, &k.lay)).unwrap();
    } else {
        host_tree(&d.join("src"), &k.tree);
    }
    let l = k.tree.list();
    let file = l.iter().filter(|e| !e.1).max_by_key(|e| e.2);
    if k.cmd == 7 && file.is_none() {
        return Ok(());
    }
    let fp = file.map(|f| cli::ipath(&f.0)).unwrap_or_default();
    let args: Vec<&str> = match k.cmd {
        0 => vec!["pack", "src", "out"],
        1 => vec!["pack", "in.iso", "out"],
        2 => vec!["build-image", "-m", "**:/{0}", "src", "out"],
        3 => vec!["compress", "src", "out.cso"],
        4 => vec!["compress", "in.iso", "out.cso"],
        5 => vec!["unpack", "in.iso", "out"],
        6 => vec!["copy-out", "in.iso", "/", "out"],
        7 => vec!["copy-out", "--", "in.iso", &fp, "out"],
        8 => vec!["extract-xiso", "-c", "src", "out"],
        9 => vec!["extract-xiso", "-d", "out", "-x", "in.iso"],
        _ => vec!["extract-xiso", "-d", "outd", "-r", "in.iso"],
    };
    let name = match k.cmd {
        3 | 4 => "out.1.cso",
        10 => "outd/in.iso",
        _ => "out",
    };
    let out = d.join(name);
    let clean = || {
        let _ = std::fs::remove_file(&out);
        let _ = std::fs::remove_dir_all(&out);
        if k.cmd == 10 {
            std::fs::create_dir_all(d.join("outd")).unwrap();
            if d.join("in.old").exists() {
                std::fs::rename(d.join("in.old"), d.join("in.iso")).unwrap();
            }
        }
    };
    clean();
    cli::run(&d, &args).success(&format!("{args:?}"))?;
    let read = || -> Result<Flat, String> {
        let m = std::fs::metadata(&out).map_err(|e| format!("{args:?}: no output: {e}"))?;
        if m.is_dir() {
            cli::read_tree(&out)
        } else {
            Ok(Flat::from([(vec![], Item::File(std::fs::read(&out).unwrap()))]))
        }
    };
    let want = read()?;
    let longest = want.values().map(|i| if let Item::File(b) = i { b.len() as u64 } else { 0 }).max().unwrap_or(0);
    cx.label(CMDS[k.cmd as usize]);
    cx.nontrivial(longest > 0 && l.len() > 1);
    for (kind, n) in &k.at {
        let f = match kind {
            0 => longest.saturating_sub(1 + (*n as u64 % 4)),
            1 => longest.saturating_sub(*n as u64 % 9000),
            2 => longest.saturating_sub(*n as u64 % 70000),
            3 => *n as u64 % (longest + 1),
            4 => 0,
            _ => longest + (*n as u64 % 3),
        };
        clean();
        cx.evals(1);
        let o = cli::run_with(&d, &args, &Run { fsize: Some(f), ..Run::default() });
        if f >= longest {
            o.success(&format!("{args:?} with room for the output"))?;
            same(&want, &read()?, &format!("{args:?} again"))?;
        } else {
            cx.label("output cut short");
            o.failure(&format!("{args:?} with files limited to {f} of {longest} bytes"))?;
        }
    }
    if k.cmd == 7 && longest > 0 {
        cx.evals(1);
        cli::run(&d, &["copy-out", "--", "in.iso", &fp, "/dev/full"]).failure("copy-out to a full device")?;
    }
    Ok(())
}

fn main() {
    let mut c = Check::new(
        "C13",
        "fault_enumeration",
        "Part `library`: for a random source (memory, host, image through either copier) the number of write and length calls on the
         output is counted, and the creation is repeated with a failure of each of these calls in turn (up to 240 per case: all of
         the first and last 20); a result of success is accepted only if the output is complete all the same. Part `limits`: each
         command that writes is run with a file size limit around its output size (in the last bytes, the last buffer, the padding,
         anywhere, zero, just enough); it has to fail exactly if its output does not fit. Non-trivial: several entries and calls, or
         a non-empty output.",
    );
    c.assume("failures reported only when a file is closed are out of reach of the code");
    let o = Opts { host: true, big: false, bulk_max: 60, max_entries: 10, deep: 60, ..Opts::default() };
    c.part(
        "library",
        2000,
        40000,
        || {
            (gen::tree(o), gen::layout(), 0u8..5, prop_oneof![Just(0u16), 1u16..5000], prop_oneof![2 => Just(0u16), 1 => 200u16..5000])
                .prop_map(|(tree, lay, how, chunk, short)| Case { tree, lay, how, chunk, short })
                .boxed()
        },
        library,
    );
    c.part(
        "limits",
        2000,
        40000,
        || {
            (gen::tree(o), gen::layout(), 0u8..11, proptest::collection::vec((0u8..6, any::<u32>()), 3..7))
                .prop_map(|(tree, lay, cmd, at)| Lim { tree, lay, cmd, at })
                .boxed()
        },
        limits,
    );
    xv::desk::part(&mut c, 400, &[0, 1, 2], &[false, true], 0.9, xv::desk::full);
    c.finish();
}
