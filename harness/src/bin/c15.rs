//! C15: an interrupted pack never looks like a finished image.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};
use xdvdfs::blockdev::OffsetWrapper;
use xdvdfs::write::fs as wfs;
use xdvdfs::write::img::create_xdvdfs_image;
use xv::builder::{build_checked, Layout};
use xv::cli::{self, Run};
use xv::content::mix;
use xv::devs::{IoMem, IoSrc, Medium, MemDev};
use xv::gen::{self, Opts};
use xv::memfs::MemFs;
use xv::ops::*;
use xv::runner::*;
use xv::tree::*;
use xv::{blk, ensure, reader, OFFSETS};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    /// 0 memory source, 1 memory source in pieces, 2 image with the generic copier, 3 image with the std::io copier, 4 host source, 5 remapped memory source
    how: u8,
    chunk: u16,
    short: u16,
    tear: u64,
}

type Log = Vec<(u64, Vec<u8>)>;

struct Ran {
    ok: bool,
    data: Vec<u8>,
    log: Log,
    calls: u64,
    src_calls: u64,
}

fn go(k: &Case, host: &Path, img: &Arc<Vec<u8>>, at: Option<u64>, src_at: Option<u64>) -> Result<Ran, String> {
    let m = Medium { image: img.clone(), base: OFFSETS[(k.lay.seed % 4) as usize], tail: 0, surround: 3, far: None };
    Ok(match k.how {
        0 | 1 | 2 | 5 => {
            let mut d = MemDev { fail_write_at: at, log: Some(vec![]), ..MemDev::default() };
            let mut src_calls = 0;
            let ok = match k.how {
                0 | 1 => {
                    let mut fs = MemFs::new(&k.tree);
                    fs.fail_at = src_at;
                    fs.chunk = if k.how == 1 { 1 + k.chunk as usize } else { 0 };
                    let ok = blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).is_ok();
                    src_calls = fs.calls;
                    ok
                }
                2 => {
                    let dev = blk!(OffsetWrapper::new(m)).map_err(e2s)?;
                    let mut fs: wfs::XDVDFSFilesystem<_, MemDev> = blk!(wfs::XDVDFSFilesystem::new(dev)).ok_or("no file system")?;
                    blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).is_ok()
                }
                _ => {
                    let cfg = wfs::RemapOverlayConfig { map_rules: vec![("**".into(), "/{0}".into())] };
                    let mut fs = blk!(wfs::RemapOverlayFilesystem::new(MemFs::new(&k.tree), cfg)).map_err(e2s)?;
                    blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).is_ok()
                }
            };
            Ran { ok, data: d.data, log: d.log.unwrap(), calls: d.writes + d.lens, src_calls }
        }
        _ => {
            let mut d = IoMem { fail_at: at, short: k.short as usize, log: Some(vec![]), ..IoMem::default() };
            let ok = if k.how == 3 {
                let dev = blk!(OffsetWrapper::new(IoSrc::new(m))).map_err(e2s)?;
                let mut fs = blk!(wfs::XDVDFSFilesystem::<_, IoMem, wfs::StdIOCopier<_, _>>::new(dev)).ok_or("no file system")?;
                blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).is_ok()
            } else {
                let mut fs = wfs::StdFilesystem::create(host);
                blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).is_ok()
            };
            Ran { ok, data: d.data, log: d.log.unwrap(), calls: d.calls, src_calls: 0 }
        }
    })
}

/// Not recognised, or complete. Returns whether it is recognised.
fn judge(data: &[u8], want: &Flat, when: impl FnOnce() -> String) -> Result<bool, String> {
    if !reader::has_volume(data) {
        return Ok(false);
    }
    let when = when();
    let got = reader::extract(data).map_err(|e| format!("{when}: the output is recognised as a volume, but cannot be read: {e}"))?;
    same(want, &got, &format!("{when}: the output is recognised as a volume, but is incomplete"))?;
    Ok(true)
}

fn put(data: &mut Vec<u8>, off: u64, b: &[u8]) {
    let end = off as usize + b.len();
    if data.len() < end {
        data.resize(end, 0);
    }
    data[off as usize..end].copy_from_slice(b);
}

fn library(k: &Case, cx: &mut Cx) -> Outcome {
    let host = if k.how == 4 {
        let d = cx.scratch();
        host_tree(&d.join("s"), &k.tree);
        d.join("s")
    } else {
        Default::default()
    };
    let img = Arc::new(if matches!(k.how, 2 | 3) { build_checked(&k.tree, &k.lay) } else { vec![] });
    let want = k.tree.flat();
    let full = go(k, &host, &img, None, None)?;
    ensure!(full.ok, "packing without faults failed");
    cx.label(["memory source", "memory source in pieces", "image, generic copier", "image, std::io copier", "host source", "remapped memory source"][k.how as usize]);
    // every prefix of the write sequence, and torn writes
    let mut data = vec![];
    let n = full.log.len();
    let mut seen = false;
    for (i, (off, b)) in full.log.iter().enumerate() {
        let v = judge(&data, &want, || format!("after {i} of {n} writes"))?;
        cx.evals(1);
        seen |= v && i < n;
        let touches = *off < 33 * 2048 && off + b.len() as u64 > 32 * 2048;
        if (v || touches) && b.len() > 1 {
            let mut cuts: Vec<usize> = vec![1, b.len() / 2, b.len() - 1, 20.min(b.len() - 1), (b.len() - 1) / 512 * 512];
            for j in 0..4u64 {
                cuts.push((mix(k.tear ^ i as u64 ^ (j << 32)) % b.len() as u64) as usize);
            }
            for c in cuts {
                let mut t = data.clone();
                put(&mut t, *off, &b[..c]);
                judge(&t, &want, || format!("after {i} of {n} writes and {c} of {} bytes of the next", b.len()))?;
                cx.evals(1);
            }
        }
        put(&mut data, *off, b);
    }
    ensure!(data == full.data, "harness: the write log does not rebuild the output");
    ensure!(judge(&data, &want, || "at the end".into())?, "the finished image is not recognised as a volume");
    cx.label_if(seen, "complete before the last write");
    cx.nontrivial(k.tree.list().len() > 2 && n > 4);
    // what is left when a write fails, or the source does
    let step = (full.calls / 60).max(1);
    let mut i = 0;
    while i < full.calls {
        let r = go(k, &host, &img, Some(i), None)?;
        judge(&r.data, &want, || format!("after output call {i} of {} failed", full.calls))?;
        cx.evals(1);
        i += if i < 5 || i + 5 > full.calls { 1 } else { step };
    }
    let step = (full.src_calls / 40).max(1);
    let mut i = 0;
    while i < full.src_calls {
        let r = go(k, &host, &img, None, Some(i))?;
        judge(&r.data, &want, || format!("after source call {i} of {} failed", full.src_calls))?;
        cx.evals(1);
        i += step;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cmd {
    tree: Tree,
    lay: Layout,
    cmd: u8,
    /// what is at the output path before: 0 nothing, 1 other bytes, 2 a finished image of another tree
    before: u8,
    at: Vec<(u8, u32)>,
}

/// Run a command whose standard output is a pipe that nobody reads, with room for `room` bytes;
/// kill it when it blocks there. Returns the exit code if it ended before.
fn killed(cwd: &Path, args: &[&str], room: usize) -> Result<Option<i32>, String> {
    let mut fds = [0; 2];
    let h = |e: &str| format!("harness: {e}");
    unsafe {
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            return Err(h("pipe"));
        }
    }
    use std::os::fd::{FromRawFd, OwnedFd};
    let (r, w) = unsafe { (OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1])) };
    let size = unsafe { libc::fcntl(w.as_raw_fd(), libc::F_SETPIPE_SZ, 4096) };
    if size != 4096 {
        return Err(h("pipe size"));
    }
    let fill = vec![b'.'; 4096 - room.min(4096)];
    if !fill.is_empty() && unsafe { libc::write(w.as_raw_fd(), fill.as_ptr() as *const _, fill.len()) } != fill.len() as isize {
        return Err(h("pipe fill"));
    }
    let mut c = Command::new(cli::xdvdfs());
    c.args(args).current_dir(cwd).stdin(Stdio::null()).stdout(Stdio::from(w)).stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut ch = c.spawn().map_err(|e| h(&format!("spawn: {e}")))?;
    drop(c);
    let t0 = Instant::now();
    let mut quiet = 0;
    let res = loop {
        if let Ok(Some(s)) = ch.try_wait() {
            break Some(s.code().unwrap_or(-1));
        }
        let st = std::fs::read_to_string(format!("/proc/{}/stat", ch.id())).unwrap_or_default();
        let sleeping = st.rsplit(") ").next().is_some_and(|s| s.starts_with('S'));
        quiet = if sleeping { quiet + 1 } else { 0 };
        if quiet > 3 || t0.elapsed() > Duration::from_secs(20) {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    drop(r);
    Ok(res)
}

fn command(k: &Cmd, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    let want = k.tree.flat();
    let src_img = build_checked(&k.tree, &k.lay);
    host_tree(&d.join("s"), &k.tree);
    std::fs::write(d.join("in.iso"), &src_img).map_err(e2s)?;
    let (args, out): (Vec<&str>, &str) = match k.cmd {
        0 => (vec!["pack", "s", "o.iso"], "o.iso"),
        1 => (vec!["pack", "in.iso", "o.iso"], "o.iso"),
        2 => (vec!["build-image", "-m", "**:/{0}", "s", "o.iso"], "o.iso"),
        3 => (vec!["-c", "s", "o.iso"], "o.iso"),
        _ => (vec!["-r", "in.iso"], "in.iso"),
    };
    let mut args = args;
    if k.cmd >= 3 {
        args.insert(0, "extract-xiso");
    }
    cx.label(["pack directory", "pack image", "build-image", "extract-xiso create", "extract-xiso rewrite"][k.cmd as usize]);
    let other = Tree(vec![Entry { name: "stale".into(), node: Node::File { len: 300_000, seed: 5 } }]);
    let old_img = build_checked(&other, &Layout::default());
    let before: Option<Vec<u8>> = match k.before {
        _ if k.cmd == 4 => None,
        1 => Some(vec![0x5a; 200_000]),
        2 => Some(old_img.clone()),
        _ => None,
    };
    let reset = || -> Result<(), String> {
        let _ = std::fs::remove_file(d.join("o.iso"));
        if k.cmd == 4 {
            let _ = std::fs::remove_file(d.join("in.old"));
            std::fs::write(d.join("in.iso"), &src_img).map_err(e2s)?;
        } else if let Some(b) = &before {
            std::fs::write(d.join(out), b).map_err(e2s)?;
        }
        Ok(())
    };
    let outf = d.join(out);
    let look = |when: String| -> Result<(), String> {
        let Ok(data) = std::fs::read(&outf) else { return Ok(()) };
        // the command may have been stopped before it touched anything
        if Some(&data) == before.as_ref() || (k.cmd == 4 && data == src_img) {
            return Ok(());
        }
        judge(&data, &want, || when).map(|_| ())
    };
    reset()?;
    let o = cli::run(&d, &args).success(&format!("{args:?}"))?;
    let whole = std::fs::read(&outf).map_err(e2s)?;
    ensure!(judge(&whole, &want, || format!("after {args:?}"))?, "{args:?}: the finished image is not recognised as a volume");
    let lines: Vec<usize> = o.stdout.split_inclusive(|b| *b == b'\n').scan(0, |a, l| { *a += l.len(); Some(*a) }).collect();
    cx.nontrivial(k.tree.list().len() > 2);
    for (how, n) in &k.at {
        reset()?;
        cx.evals(1);
        if *how < 3 {
            // the disk is full at some length of the output
            let len = whole.len() as u64;
            let f = match how {
                0 => *n as u64 % (len + 1),
                1 => len.saturating_sub(1 + *n as u64 % 70_000),
                _ => 33 * 2048 + *n as u64 % 8192,
            };
            let o = cli::run_with(&d, &args, &Run { fsize: Some(f), ..Run::default() });
            o.sane()?;
            look(format!("{args:?} with files limited to {f} of {len} bytes"))?;
            cx.label("disk full");
        } else {
            let room = if lines.is_empty() { 0 } else { lines[*n as usize % lines.len()].saturating_sub(1) };
            // the pipe holds 4096 bytes at most, so longer outputs are stopped there
            let r = killed(&d, &args, room)?;
            look(format!("{args:?} killed when it blocked on its output after {room} bytes"))?;
            cx.label(if r.is_none() { "killed" } else { "ended before it could be killed" });
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::new(
        "C15",
        "fault_enumeration",
        "Part `library`: a random source (memory, memory in pieces, image through either copier, host directory, remapped) is packed
         to a device that records its writes. Every prefix of the write sequence is rebuilt, as are torn writes wherever a volume is
         recognised or its descriptor is touched; besides, the creation is repeated with failing output and source calls and what is
         left is taken. Whenever the independent reader recognises a volume, it has to contain the whole tree. Part `commands`: pack,
         build-image and extract-xiso create and rewrite are stopped by file size limits and by killing them while they are blocked on
         their progress output, with nothing, garbage or another finished image at the output path before; the same judgement.
         Non-trivial: at least three entries and five writes.",
    );
    c.assume("writes reach the medium in the order they are issued; reordering by a device cache is out of reach of the code");
    let o = Opts { host: true, big: false, bulk_max: 60, max_entries: 10, deep: 24, ..Opts::default() };
    c.part(
        "library",
        1500,
        40000,
        || {
            (gen::tree(o), gen::layout(), 0u8..6, prop_oneof![1u16..5000, 1u16..300], prop_oneof![2 => Just(0u16), 1 => 200u16..5000], any::<u64>())
                .prop_map(|(tree, lay, how, chunk, short, tear)| Case { tree, lay, how, chunk, short, tear })
                .boxed()
        },
        library,
    );
    c.part(
        "commands",
        500,
        10000,
        || {
            (gen::tree(o), gen::layout(), 0u8..5, 0u8..3, proptest::collection::vec((0u8..6, any::<u32>()), 3..8))
                .prop_map(|(tree, lay, cmd, before, at)| Cmd { tree, lay, cmd, before, at })
                .boxed()
        },
        command,
    );
    c.finish();
}
