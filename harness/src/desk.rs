//! The desktop program's commands (compiled from the repository against a stand-in window), run and judged.
use crate::builder::{build_far, Layout};
use crate::cli::{self, Run};
use crate::devs::Medium;
use crate::events::{complete, show};
use crate::gen::{self, Opts};
use crate::muts::{self, M};
use crate::ops::*;
use crate::runner::*;
use crate::tree::*;
use crate::{cso, ensure, OFFSETS};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::path::{Path as HostPath, PathBuf};
use std::sync::Arc;
use xdvdfs::write::fs::{self as wfs, FilesystemHierarchy};
use xdvdfs::write::img::ProgressInfo;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub tree: Tree,
    pub lay: Layout,
    #[serde(default)]
    pub far: Option<(u16, u8)>,
    pub offset: u8,
    /// pack, unpack, compress
    pub cmd: u8,
    /// directory (not for unpack) or image
    pub dir: bool,
    /// whether something (longer) is at the destination already
    pub stale: bool,
    pub dest: u8,
    pub fault: Option<Fault>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    Missing,
    /// not an image at all
    Junk(u32),
    Cut(u32),
    Damage(Vec<M>),
    /// largest file that can be written
    Full(u32),
    /// the destination's parent does not exist
    NoParent,
    /// the destination is a directory (a file, for unpack)
    WrongKind,
    /// destination equal to the source, or inside of it
    Same,
    Inside,
    /// the same, spelled another way: through a link, or by way of another directory
    SameLink(u8),
    InsideLink(u8),
    /// the image lies where one of its entries is to be extracted
    Onto(u16),
    /// a name in the way (unpack: a directory is expected where a file is)
    InTheWay(u16),
    /// the source is a device, directory or the like
    Special,
}

pub fn exe() -> PathBuf {
    PathBuf::from(std::env::var("XV_ROOT").unwrap_or_else(|_| "/verif".into())).join("target/d/debug/xdvdfs-desktop")
}

pub struct Answer {
    pub error: Option<String>,
    pub progress: Vec<ProgressInfo>,
    pub compress: Vec<Value>,
}

pub fn call(w: &HostPath, cmd: &str, src: &str, dest: &str, r: &Run) -> Result<Answer, String> {
    let what = format!("{cmd} {src:?} {dest:?}");
    let o = cli::run_with(w, &[cmd, src, dest], &Run { exe: Some(exe()), ..r.clone() });
    o.sane().map_err(|e| format!("{what}: {e}"))?;
    ensure!(o.ok(), "harness: {what} exited with {:?}: {}", o.code, o.err());
    let mut a = Answer { error: None, progress: vec![], compress: vec![] };
    let mut answered = false;
    let text = o.out();
    for l in text.lines() {
        ensure!(!answered, "harness: output after the answer");
        let v: Value = serde_json::from_str(l).map_err(|e| format!("harness: line {l:?}: {e}"))?;
        if let Some(ans) = v.get("answer") {
            answered = true;
            a.error = match ans {
                Value::Null => None,
                Value::String(s) => Some(s.clone()),
                o => return Err(format!("{what}: the answer is {o}")),
            };
            continue;
        }
        let p = v["payload"].clone();
        match v["event"].as_str() {
            Some("progress_callback") => a.progress.push(serde_json::from_value(p).map_err(|e| format!("{what}: progress event {l}: {e}"))?),
            Some("compress_callback") => a.compress.push(p),
            o => return Err(format!("{what}: unknown event {o:?}")),
        }
    }
    ensure!(answered, "harness: no answer");
    if let Some(e) = &a.error {
        ensure!(!e.trim().is_empty(), "{what}: the error message is empty");
    }
    Ok(a)
}

pub fn run(k: &Case, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    let w = d.join("w");
    std::fs::create_dir(&w).map_err(e2s)?;
    let cmd = ["pack_image", "unpack_image", "compress_image"][k.cmd as usize];
    let from_dir = k.dir && k.cmd != 1;
    let flat = k.tree.flat();
    cx.nontrivial(k.tree.list().len() >= 3 && k.tree.list().iter().any(|e| e.1));
    cx.label(match (k.cmd, from_dir) {
        (0, true) => "pack a directory",
        (0, false) => "pack an image",
        (1, _) => "unpack",
        (_, true) => "compress a directory",
        (_, false) => "compress an image",
    });

    // the source, and a copy of it out of reach for the reference
    let base = OFFSETS[k.offset as usize % 4];
    let src = w.join("src");
    let good = d.join("good");
    let mut medium = None;
    if from_dir {
        host_tree(&src, &k.tree);
        host_tree(&good, &k.tree);
    } else {
        let (img, far) = build_far(&k.tree, &k.lay, k.far.filter(|_| k.fault.is_none()));
        cx.label_if(far.is_some(), "far regions");
        let m = Medium { image: Arc::new(img), base, tail: 20, surround: 4, far };
        m.to_file(&src).map_err(e2s)?;
        m.to_file(&good).map_err(e2s)?;
        cx.label_if(base > 0, "embedded image");
        medium = Some(m);
    }
    let mut source = "src".to_string();
    let mut dest = match k.dest % 6 {
        // names that begin with the source's
        4 => "src.iso".to_string(),
        5 => w.join("src2").display().to_string(),
        0 => "out".to_string(),
        1 => w.join("out").display().to_string(),
        2 => "./out.v1.x".to_string(),
        3 => "sub/out.cso".to_string(),
        _ => unreachable!(),
    };
    std::fs::create_dir(w.join("sub")).map_err(e2s)?;
    let out = |dest: &str| if k.cmd == 2 { w.join(dest).with_extension("1.cso") } else { w.join(dest) };
    if k.stale {
        if k.cmd == 1 {
            // files in the way are replaced
            std::fs::create_dir(w.join(&dest)).map_err(e2s)?;
            for e in &k.tree.0 {
                if let Node::File { len, .. } = e.node {
                    std::fs::write(w.join(&dest).join(&e.name), vec![9u8; len as usize + 77]).map_err(e2s)?;
                }
            }
        } else {
            std::fs::write(out(&dest), vec![9u8; 3 << 20]).map_err(e2s)?;
        }
        cx.label("stale destination");
    }

    // the fault; some leave no way to succeed
    let mut r = Run::default();
    let mut certain = false;
    let mut damaged = false;
    if let Some(f) = &k.fault {
        match f {
            Fault::Missing => {
                source = "nothing".into();
                certain = true;
            }
            Fault::Special => {
                if k.cmd == 1 {
                    source = "sub".into();
                } else {
                    source = "/dev/null".into();
                }
                certain = true;
            }
            Fault::Junk(n) if !from_dir => {
                std::fs::write(&src, crate::content::bytes(*n as u64, (*n % 200_000) as u64)).map_err(e2s)?;
                certain = true;
                damaged = true;
            }
            Fault::Cut(n) if !from_dir => {
                let f = std::fs::File::options().write(true).open(&src).map_err(e2s)?;
                let l = f.metadata().map_err(e2s)?.len();
                f.set_len(l - (*n as u64 % (l - base + 1))).map_err(e2s)?;
            }
            Fault::Damage(m) if !from_dir => {
                let img = muts::image(&k.tree, &k.lay, m);
                std::fs::write(&src, img).map_err(e2s)?;
                damaged = true;
            }
            Fault::Full(n) => r.fsize = Some(*n as u64 % 200_000),
            Fault::NoParent if k.cmd != 1 => {
                dest = "no/such/dir/out".into();
                certain = true;
            }
            Fault::WrongKind => {
                dest = "kind".into();
                if k.cmd == 1 {
                    std::fs::write(w.join("kind"), b"x").map_err(e2s)?;
                } else {
                    std::fs::create_dir(out("kind")).map_err(e2s)?;
                }
                certain = true;
            }
            Fault::Same => {
                dest = "src".into();
                if k.cmd == 2 && k.lay.seed % 2 == 0 {
                    std::fs::rename(&src, w.join("a.1.cso")).map_err(e2s)?;
                    source = "a.1.cso".into();
                    dest = "a.cso".into();
                }
                certain = true;
            }
            Fault::SameLink(n) => {
                let l = |a: &str, b: &HostPath| std::os::unix::fs::symlink(a, b).map_err(e2s);
                if k.cmd == 2 {
                    // the tool replaces the extension, in the directory of the destination
                    std::fs::rename(&src, w.join("a.1.cso")).map_err(e2s)?;
                    source = "a.1.cso".into();
                }
                let name = if k.cmd == 2 { "a.cso" } else { "src" };
                dest = match n % 3 {
                    0 => format!("sub/../{name}"),
                    1 => {
                        l(".", &w.join("dot"))?;
                        format!("dot/{name}")
                    }
                    _ if k.cmd == 2 => {
                        l("a.1.cso", &w.join("link.1.cso"))?;
                        "link.cso".into()
                    }
                    _ => {
                        l("src", &w.join("link"))?;
                        "link".into()
                    }
                };
                certain = true;
            }
            Fault::InsideLink(n) if from_dir => {
                if n % 2 == 0 {
                    std::os::unix::fs::symlink("src", w.join("link")).map_err(e2s)?;
                    dest = "link/inside".into();
                } else {
                    dest = "sub/../src/inside".into();
                }
                certain = true;
            }
            Fault::Inside if from_dir => {
                dest = "src/inside".into();
                certain = true;
            }
            Fault::Onto(i) if k.cmd == 1 && !k.stale => {
                let l: Vec<&Entry> = k.tree.0.iter().filter(|e| matches!(e.node, Node::File { .. })).collect();
                if let Some(e) = l.get(*i as usize % l.len().max(1)) {
                    std::fs::create_dir_all(w.join(&dest)).map_err(e2s)?;
                    let at = w.join(&dest).join(&e.name);
                    std::fs::rename(&src, &at).map_err(e2s)?;
                    if k.lay.seed % 2 == 0 {
                        std::os::unix::fs::symlink(&at, &src).map_err(e2s)?;
                    } else {
                        source = at.strip_prefix(&w).map_err(e2s)?.to_string_lossy().to_string();
                    }
                    certain = true;
                }
            }
            Fault::InTheWay(i) if k.cmd == 1 && !k.stale => {
                let l = k.tree.list();
                if let Some((p, is_dir, ..)) = l.get(*i as usize % l.len().max(1)) {
                    let at = p.iter().fold(w.join(&dest), |a, c| a.join(c));
                    std::fs::create_dir_all(at.parent().unwrap()).map_err(e2s)?;
                    if *is_dir {
                        std::fs::write(&at, b"x").map_err(e2s)?;
                    } else {
                        std::fs::create_dir(&at).map_err(e2s)?;
                    }
                    certain = true;
                }
            }
            _ => {}
        }
        cx.label(&format!("fault {}", format!("{f:?}").split('(').next().unwrap()));
    }
    let what = format!("{cmd} {source:?} {dest:?}");
    let srcfile = w.join(&source);
    let before = (k.fault.is_some() && !from_dir && srcfile.is_file() && base == 0).then(|| std::fs::read(&srcfile).unwrap());
    let a = call(&w, cmd, &source, &dest, &r)?;
    cx.evals(1);
    if let Some(b) = before {
        ensure!(std::fs::read(&srcfile).is_ok_and(|x| x == b), "{what}: the source has changed");
    }
    if let (Some(m), None) = (&medium, &k.fault) {
        m.check_file(&src).map_err(|e| format!("{what}: {e}"))?;
    }
    if from_dir {
        let at = if src.exists() { &src } else { &srcfile };
        same(&flat, &cli::read_tree(at).map_err(|e| format!("{what}: {e}"))?, &format!("{what}: the source afterwards"))?;
    }
    if certain {
        ensure!(a.error.is_some(), "{what} with {:?} reported success", k.fault);
    }
    if k.fault.is_none() {
        ensure!(a.error.is_none(), "{what} failed: {:?}", a.error);
    }
    let finished = a.progress.iter().filter(|p| matches!(p, ProgressInfo::FinishedPacking)).count();
    if let Some(e) = &a.error {
        cx.label("reported failure");
        // completion must not be claimed by the last step
        if k.cmd == 0 {
            // the image is still buffered when the library finishes
            ensure!(finished <= 1, "{what}: completion was reported {finished} times, then {e:?}");
        }
        ensure!(a.compress.iter().filter(|v| v.as_str() == Some("Finished")).count() <= 1, "{what}: several completions");
        return Ok(());
    }
    if damaged {
        // a damaged image that can be read is the subject of other properties
        cx.label("damage tolerated");
        return Ok(());
    }
    // success: what the library makes of the undamaged source
    let plain = d.join("plain.iso");
    let reference = |m: &mut Cx| -> Result<Vec<u8>, String> {
        m.evals(1);
        cli::run(&d, &["pack", "good", "plain.iso"]).success("pack")?;
        std::fs::read(&plain).map_err(e2s)
    };
    let std = wfs::StdFilesystem::create(HostPath::new(&source));
    let name = |p: &[String]| if from_dir && k.cmd == 0 { std.path_to_string(&pathvec(p)) } else { format!("/{}", p.join("/")) };
    match k.cmd {
        0 => {
            let want = reference(cx)?;
            let got = std::fs::read(out(&dest)).map_err(|e| format!("{what}: no image: {e}"))?;
            same(&flat, &crate::reader::extract(&got).map_err(|e| format!("{what}: {e}"))?, &what)?;
            ensure!(want == got, "{what}: the image is not the one that the library packs");
            complete(&a.progress, &got, &name).map_err(|e| format!("{what}: {e}"))?;
            ensure!(a.compress.is_empty(), "{what}: compression events");
        }
        1 => {
            same(&flat, &cli::read_tree(&w.join(&dest)).map_err(|e| format!("{what}: {e}"))?, &what)?;
            ensure!(a.compress.is_empty(), "{what}: compression events");
            let n = flat.len();
            let Some((ProgressInfo::FileCount(c), rest)) = a.progress.split_first() else {
                return Err(format!("{what}: the first event is {:?}", a.progress.first().map(show)));
            };
            ensure!(*c == n, "{what}: {c} entries announced, there are {n}");
            let mut want: Vec<String> = flat.keys().map(|p| p.iter().fold(PathBuf::from(&dest), |a, c| a.join(c)).display().to_string()).collect();
            let mut got = vec![];
            for e in rest {
                match e {
                    ProgressInfo::FileAdded(p, _) => got.push(HostPath::new(p).components().collect::<PathBuf>().display().to_string()),
                    e => return Err(format!("{what}: unexpected event {}", show(e))),
                }
            }
            for x in &mut want {
                *x = HostPath::new(x).components().collect::<PathBuf>().display().to_string();
            }
            want.sort();
            got.sort();
            ensure!(want == got, "{what}: entries reported: {got:?}, not {want:?}");
        }
        _ => {
            let want = reference(cx)?;
            let b = std::fs::read(out(&dest)).map_err(|e| format!("{what}: no compressed image: {e}"))?;
            let c = cso::decode(&b).map_err(|e| format!("{what}: {e}"))?;
            ensure!(c.image.len() == want.len(), "{what}: {} bytes decompressed, the image has {}", c.image.len(), want.len());
            if let Some(i) = (0..want.len()).find(|&i| want[i] != c.image[i]) {
                return Err(format!("{what}: byte {i} of the decompressed image differs from the packed one"));
            }
            complete(&a.progress, &want, &name).map_err(|e| format!("{what}: {e}"))?;
            // sectors: all announced, all done up to the last report, completion last
            let n = want.len() as u64 / 2048;
            let (mut total, mut done, mut fin) = (None, 0, 0);
            for v in &a.compress {
                ensure!(fin == 0, "{what}: event {v} after completion");
                if v.as_str() == Some("Finished") {
                    fin += 1;
                } else if let Some(x) = v.get("SectorCount").and_then(|x| x.as_u64()) {
                    ensure!(total.replace(x).is_none(), "{what}: sectors announced twice");
                } else if let Some(x) = v.get("SectorsDone").and_then(|x| x.as_u64()) {
                    ensure!(total.is_some(), "{what}: sectors done before their number is announced");
                    done += x;
                } else {
                    return Err(format!("{what}: unknown event {v}"));
                }
            }
            // the compression library counts the index's final entry as a sector
            let Some(t) = total.filter(|t| *t == n || *t == n + 1) else {
                return Err(format!("{what}: {total:?} sectors announced, there are {n}"));
            };
            ensure!(fin == 1, "{what}: {fin} completions");
            ensure!(done <= t && t - done < 739, "{what}: {done} of {t} sectors reported");
            cx.label_if(done > 0, "compression progress");
        }
    }
    Ok(())
}


/// Every kind of fault.
pub fn fault() -> BoxedStrategy<Fault> {
    prop_oneof![
        1 => Just(Fault::Missing),
        1 => Just(Fault::Special),
        1 => any::<u32>().prop_map(Fault::Junk),
        4 => any::<u32>().prop_map(Fault::Cut),
        1 => (0u32..5000).prop_map(Fault::Cut),
        2 => muts::muts().prop_map(Fault::Damage),
        4 => any::<u32>().prop_map(Fault::Full),
        1 => Just(Fault::NoParent),
        1 => Just(Fault::WrongKind),
        1 => Just(Fault::Same),
        1 => Just(Fault::Inside),
        1 => any::<u8>().prop_map(Fault::SameLink),
        1 => any::<u8>().prop_map(Fault::InsideLink),
        1 => any::<u16>().prop_map(Fault::Onto),
        1 => any::<u16>().prop_map(Fault::InTheWay),
    ]
    .boxed()
}
/// Full disks.
pub fn full() -> BoxedStrategy<Fault> {
    any::<u32>().prop_map(Fault::Full).boxed()
}
/// Truncated images.
pub fn cut() -> BoxedStrategy<Fault> {
    prop_oneof![4 => any::<u32>().prop_map(Fault::Cut), 2 => (0u32..5000).prop_map(Fault::Cut)].boxed()
}
/// Destinations that would destroy the source.
pub fn destructive() -> BoxedStrategy<Fault> {
    prop_oneof![
        1 => Just(Fault::Same),
        1 => Just(Fault::Inside),
        2 => any::<u8>().prop_map(Fault::SameLink),
        2 => any::<u8>().prop_map(Fault::InsideLink),
        2 => any::<u16>().prop_map(Fault::Onto),
        2 => any::<u32>().prop_map(Fault::Full),
        1 => any::<u16>().prop_map(Fault::InTheWay),
    ]
    .boxed()
}

/// One of the commands (0 pack, 1 unpack, 2 compress), from a directory or an image, with a fault as often as given.
pub fn case(o: Opts, cmds: &[u8], dirs: &[bool], often: f64, fault: BoxedStrategy<Fault>) -> BoxedStrategy<Case> {
    let (cmds, dirs) = (proptest::sample::select(cmds.to_vec()), proptest::sample::select(dirs.to_vec()));
    let fault = if often > 0.0 { proptest::option::weighted(often, fault).boxed() } else { Just(None).boxed() };
    (gen::tree(o), (gen::layout(), gen::far_file()), 0u8..4, cmds, dirs, any::<bool>(), 0u8..6, fault)
        .prop_map(|(tree, (lay, far), offset, cmd, dir, stale, dest, fault)| {
            // damaged tables are read by a process with limits elsewhere; offsets of faulty files stay small
            let offset = if fault.is_some() { 0 } else { offset };
            Case { tree, lay, far, offset, cmd, dir, stale, dest, fault }
        })
        .boxed()
}

/// A part with the desktop program, for the check of a property that it shares with the command line.
pub fn part(c: &mut Check, cases: u64, cmds: &'static [u8], dirs: &'static [bool], often: f64, fault: fn() -> BoxedStrategy<Fault>) {
    let o = Opts { host: true, bulk_max: 80, max_entries: 10, ..Opts::default() };
    c.part("desktop", cases, cases * 20, move || case(o, cmds, dirs, often, fault()), run);
}
