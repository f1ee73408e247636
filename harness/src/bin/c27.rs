//! C27: the browser application packs, unpacks and compresses faithfully.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::path::{Path as HostPath, PathBuf};
use std::sync::Arc;
use xv::builder::{build_far, enlarge_host, giant, HostFile, Layout};
use xv::cli::{self, Run};
use xv::devs::Medium;
use xv::gen::{self, Opts};
use xv::muts::{self, M};
use xv::ops::*;
use xv::runner::*;
use xv::tree::*;
use xv::validate::validate;
use xv::{cso, ensure, OFFSETS};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    #[serde(default)]
    far: Option<(u16, u8)>,
    offset: u8,
    jobs: Vec<Job>,
    order: u64,
    stale: bool,
    fault: Option<Fault>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Job {
    /// pack, unpack, compress
    cmd: u8,
    /// directory (not for unpack) or image
    dir: bool,
    out: u8,
    /// the user changes his mind, cancels a dialog
    detour: u8,
    /// operations of the browser until the next job is started; None: all
    overlap: Option<u16>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    /// an operation of the browser is rejected, with all later ones or alone; its place is relative to the whole
    Reject(u16, bool),
    /// so many bytes can be written
    Quota(u16),
    /// a file of the source is shortened meanwhile
    Change(u16, u16, u16),
    Junk(u32),
    Cut(u32),
    Damage(Vec<M>),
    /// the image contains itself
    Cycle(u16),
    /// something else has the name of an entry
    InTheWay(u16),
}

const TABS: [&str; 3] = ["Pack", "Unpack", "Compress"];

fn exe(tauri: bool) -> PathBuf {
    let r = PathBuf::from(std::env::var("XV_ROOT").unwrap_or_else(|_| "/verif".into()));
    r.join(if tauri { "target/wt/debug/xdvdfs-web" } else { "target/w/debug/xdvdfs-web" })
}

/// What the page showed in the end of one tab.
#[derive(Clone, Debug, Default)]
struct Panel {
    buttons: Vec<String>,
    /// kind and texts of the notice with the bar
    kind: Option<String>,
    texts: Vec<String>,
    bar: i64,
}
#[derive(Debug, Default)]
struct Session {
    last: Panel,
    /// the panels after which the bar turned to success
    dumps: Vec<Panel>,
    suggested: Vec<Option<String>>,
    failed: Vec<String>,
    ops: u64,
    /// operations that were still to be completed when success was shown
    pending: u64,
}

fn panel(v: &Value, p: &mut Panel) {
    for i in v.as_array().into_iter().flatten() {
        if let Some(b) = i["button"].as_str() {
            p.buttons.push(b.to_string());
        }
        if i.get("items").is_some() {
            let l = i["items"].as_array().unwrap();
            if let Some(n) = l.iter().find_map(|x| x["progress"].as_i64()) {
                p.kind = Some(i["callout"].as_str().unwrap_or("").to_string());
                p.bar = n;
                p.texts = l.iter().filter_map(|x| x.as_str()).map(|s| s.to_string()).collect();
            } else {
                panel(&i["items"], p);
            }
        }
    }
}
/// "… N of M …" or "… N / M …"
fn counts(texts: &[String]) -> Option<(u64, u64)> {
    texts.iter().find_map(|t| {
        let n: Vec<u64> = t.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).filter_map(|s| s.parse().ok()).collect();
        let counting = t.starts_with("Packing ") || t.starts_with("Unpacked ") || t.starts_with("Compressing ");
        let word = t.contains(" of ") || t.contains(" / ");
        (counting && word && n.len() == 2).then(|| (n[0], n[1]))
    })
}

fn session(d: &HostPath, tauri: bool, script: &Value, what: &str) -> Result<Session, String> {
    let mut r = Run { exe: Some(exe(tauri)), stdin: Some(script.to_string().into_bytes()), ..Run::default() };
    r.env.push(("XV_DESKTOP".into(), exe(false).parent().unwrap().join("../../d/debug/xdvdfs-desktop").display().to_string()));
    let o = cli::run_with::<&str>(d, &[], &r);
    ensure!(!o.err().contains("harness:"), "harness: {what}: {}", o.err());
    o.sane().map_err(|e| format!("{what}: {e}; the last lines were {:?}", o.err().lines().take(3).collect::<Vec<_>>()))?;
    ensure!(o.ok(), "harness: {what} exited with {:?}: {}", o.code, o.err());
    let mut s = Session::default();
    let mut ended = false;
    for l in o.out().lines() {
        let v: Value = serde_json::from_str(l).map_err(|e| format!("harness: line {l:?}: {e}"))?;
        if let Some(x) = v.get("screen") {
            let mut p = Panel::default();
            panel(x, &mut p);
            if let Some((a, b)) = counts(&p.texts) {
                ensure!(p.bar >= 0 && p.bar as u64 == (a * 100).checked_div(b).unwrap_or(0), "{what}: the bar stands at {} for {a} of {b}", p.bar);
            }
            s.last = p;
        } else if v.get("picker").is_some() {
            s.suggested.push(v["suggested"].as_str().map(|s| s.to_string()));
        } else if v.get("dump").is_some() {
            s.pending = s.pending.max(v["pending"].as_u64().unwrap());
            s.dumps.push(s.last.clone());
        } else if let Some(e) = v.get("end") {
            ended = true;
            ensure!(e["stop"].get("endless").is_none(), "{what}: the work never ends");
            ensure!(e["stop"].is_null(), "{what}: the user can't go on: {}", e["stop"]);
            ensure!(e["tasks"] == 0 && e["pending"] == 0, "{what}: the work got stuck");
            s.ops = e["ops"].as_u64().unwrap();
            s.failed = e["failed"].as_array().unwrap().iter().map(|f| f.as_str().unwrap().to_string()).collect();
        } else {
            return Err(format!("harness: line {l:?}"));
        }
    }
    ensure!(ended, "harness: no end");
    Ok(s)
}

/// The clicks for one job.
fn steps(j: &Job, dest: &str, tauri: bool) -> Vec<Value> {
    let mut s = vec![json!({"click": TABS[j.cmd as usize]})];
    let src = if j.dir { "src" } else { "src.iso" };
    let kind = |dir: bool| json!({"click": if dir { "Folder" } else { "ISO Image" }});
    let select = |dir: bool| json!({"click": if dir { "Select folder" } else { "Select ISO image" }});
    let pick = |p: &str| json!({"pick": p, "name": tauri});
    let save = ["Save image", "Select output folder", "Select output directory"][j.cmd as usize];
    if j.cmd == 1 {
        if j.detour == 1 {
            s.extend([json!({"click": "Select file"}), json!({"cancel": true})]);
        }
        s.extend([json!({"click": "Select file"}), pick(src)]);
    } else {
        match j.detour {
            1 => s.extend([kind(!j.dir), select(!j.dir), pick(if j.dir { "src.iso" } else { "src" })]),
            2 => s.extend([kind(!j.dir), select(!j.dir), json!({"cancel": true})]),
            _ => {}
        }
        s.extend([kind(j.dir), select(j.dir)]);
        if j.detour == 3 {
            s.extend([json!({"cancel": true}), select(j.dir)]);
        }
        s.push(pick(src));
    }
    s.push(json!({"click": save}));
    if j.detour == 4 {
        s.extend([json!({"cancel": true}), json!({"click": save})]);
    }
    s.push(pick(dest));
    s
}

/// The only file of a directory.
fn only(dir: &HostPath) -> Result<PathBuf, String> {
    let l: Vec<_> = std::fs::read_dir(dir).map_err(e2s)?.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    ensure!(l.len() == 1, "{} files were written, not one: {l:?}", l.len());
    Ok(l[0].clone())
}

fn run(k: &Case, cx: &mut Cx) -> Outcome {
    go(k, cx, false)
}
fn run_tauri(k: &Case, cx: &mut Cx) -> Outcome {
    go(k, cx, true)
}
fn go(k: &Case, cx: &mut Cx, tauri: bool) -> Outcome {
    let d = cx.scratch();
    let w = d.join("w");
    std::fs::create_dir(&w).map_err(e2s)?;
    let flat = k.tree.flat();
    let list = k.tree.list();
    cx.nontrivial(list.len() >= 3 && list.iter().any(|e| e.1));
    let base = OFFSETS[k.offset as usize % 4];
    let src = w.join("src");
    let iso = w.join("src.iso");
    host_tree(&src, &k.tree);
    let (img, far) = build_far(&k.tree, &k.lay, k.far.filter(|_| k.fault.is_none()));
    cx.label_if(far.is_some(), "far regions");
    let m = Medium { image: Arc::new(img), base, tail: 20, surround: 4, far };
    m.to_file(&iso).map_err(e2s)?;
    cx.label_if(base > 0, "embedded image");

    let dest = |i: usize, j: &Job| match j.cmd {
        0 => format!("o{i}/{}", ["x.iso", "a b.v1"][j.out as usize % 2]),
        _ => format!("o{i}"),
    };
    for (i, j) in k.jobs.iter().enumerate() {
        let o = w.join(format!("o{i}"));
        std::fs::create_dir(&o).map_err(e2s)?;
        cx.label(match (j.cmd, j.dir) {
            (0, true) => "pack a directory",
            (0, false) => "pack an image",
            (1, _) => "unpack",
            (_, true) => "compress a directory",
            (_, false) => "compress an image",
        });
        if k.stale {
            cx.label("stale destination");
            let old = vec![9u8; 1 << 20];
            match j.cmd {
                0 => std::fs::write(w.join(dest(i, j)), old).map_err(e2s)?,
                1 => {
                    for e in &k.tree.0 {
                        if let Node::File { len, .. } = e.node {
                            std::fs::write(o.join(&e.name), &old[..(len as usize + 77).min(old.len())]).map_err(e2s)?;
                        }
                    }
                }
                _ => std::fs::write(o.join("src.1.cso"), old).map_err(e2s)?,
            }
        }
    }

    // faults of the source and the destination
    let mut certain = false;
    let mut damaged = false;
    let image = |j: &Job| !j.dir;
    match &k.fault {
        Some(Fault::Junk(n)) => {
            std::fs::write(&iso, xv::content::bytes(*n as u64, (*n % 200_000) as u64)).map_err(e2s)?;
            certain = k.jobs.iter().all(image);
            damaged = true;
        }
        Some(Fault::Cut(n)) => {
            let f = std::fs::File::options().write(true).open(&iso).map_err(e2s)?;
            let l = f.metadata().map_err(e2s)?.len();
            f.set_len(l - (*n as u64 % (l + 1))).map_err(e2s)?;
        }
        Some(Fault::Damage(m)) => {
            std::fs::write(&iso, muts::image(&k.tree, &k.lay, m)).map_err(e2s)?;
            damaged = true;
        }
        Some(Fault::Cycle(i)) => {
            // a directory that is listed by itself or from below
            let dirs = list.iter().filter(|e| e.1).count();
            let m = [if *i % 2 == 0 { M::Loop(*i, 0) } else { M::Own(*i / 2) }];
            std::fs::write(&iso, muts::image(&k.tree, &k.lay, &m)).map_err(e2s)?;
            cx.label_if(dirs > 0, "cycle");
            damaged = true;
        }
        Some(Fault::InTheWay(n)) if !k.stale => {
            if let Some((p, is_dir, ..)) = list.get(*n as usize % list.len().max(1)) {
                for (i, j) in k.jobs.iter().enumerate().filter(|j| j.1.cmd == 1) {
                    let at = p.iter().fold(w.join(dest(i, j)), |a, c| a.join(c));
                    std::fs::create_dir_all(at.parent().unwrap()).map_err(e2s)?;
                    if *is_dir {
                        std::fs::write(&at, b"x").map_err(e2s)?;
                    } else {
                        std::fs::create_dir(&at).map_err(e2s)?;
                    }
                    certain = true;
                }
            }
        }
        _ => {}
    }
    if let Some(f) = &k.fault {
        cx.label(format!("fault {}", format!("{f:?}").split(['(', ',']).next().unwrap()));
    }

    let mut script = vec![];
    let mut running = vec![];
    for (i, j) in k.jobs.iter().enumerate() {
        script.extend(steps(j, &dest(i, j), tauri));
        running.push(j.cmd);
        match j.overlap {
            // the next job has to use another tab
            Some(n) if k.jobs.get(i + 1).is_some_and(|x| !running.contains(&x.cmd)) => {
                script.push(json!({"ops": n}));
                cx.label("overlapping jobs");
            }
            _ => {
                script.push(json!({"wait": true}));
                running.clear();
            }
        }
    }
    script.push(json!({"wait": true}));
    // look at every tab again
    let mut s = json!({"disk": w.display().to_string(), "order": k.order, "steps": script});
    let what = k.jobs.iter().map(|j| format!("{} {}", TABS[j.cmd as usize].to_lowercase(), if j.dir { "a folder" } else { "an image" })).collect::<Vec<_>>().join(", ");
    let mut change = None;
    if !tauri {
        if let Some(Fault::Reject(..) | Fault::Quota(_) | Fault::Change(..)) = &k.fault {
            // how many operations there are without the fault
            let dd = d.join("d0");
            std::fs::create_dir(&dd).map_err(e2s)?;
            s["dump"] = json!(dd.display().to_string());
            let plain = session(&d, tauri, &s, &what)?;
            cx.evals(1);
            let at = |x: u16| x as u64 * plain.ops / 65536;
            match &k.fault {
                Some(Fault::Reject(n, sticky)) => s["fail"] = json!({"at": at(*n), "sticky": sticky}),
                Some(Fault::Quota(n)) => {
                    // bytes written in all
                    let mut total = 0;
                    for (i, j) in k.jobs.iter().enumerate() {
                        let o = dd.join("end").join(format!("o{i}"));
                        total += if j.cmd == 1 {
                            list.iter().map(|e| e.2).sum()
                        } else {
                            std::fs::read_dir(&o).map_err(e2s)?.filter_map(|e| Some(e.ok()?.metadata().ok()?.len())).sum::<u64>()
                        };
                    }
                    s["quota"] = json!(*n as u64 * total / 65536);
                }
                Some(Fault::Change(n, f, len)) => {
                    let files: Vec<_> = list.iter().filter(|e| !e.1 && e.2 > 0).collect();
                    let from_dir = k.jobs[0].dir;
                    if from_dir && !files.is_empty() {
                        let (p, _, l, _) = files[*f as usize % files.len()];
                        let n2 = *len as u64 * *l / 65536;
                        s["change"] = json!({"at": at(*n), "path": format!("src/{}", p.join("/")), "len": n2});
                        change = Some((p.clone(), n2));
                    } else if !from_dir {
                        let l = std::fs::metadata(&iso).map_err(e2s)?.len();
                        s["change"] = json!({"at": at(*n), "path": "src.iso", "len": *len as u64 * l / 65536});
                    }
                }
                _ => {}
            }
        }
    }
    let dump = d.join("d1");
    std::fs::create_dir(&dump).map_err(e2s)?;
    s["dump"] = json!(dump.display().to_string());
    let r = session(&d, tauri, &s, &what)?;
    cx.evals(1);
    // where the results are
    let end = if tauri { w.clone() } else { dump.join("end") };
    let kind = r.last.kind.clone().unwrap_or_default();
    ensure!(kind == "Success" || kind == "Danger", "{what}: in the end, the page shows {:?}", r.last);
    let single = k.jobs.len() == 1;
    let in_turn = k.jobs.iter().all(|j| j.overlap.is_none());
    let failing = matches!(k.fault, Some(Fault::Reject(..) | Fault::Quota(_))) && !r.failed.is_empty();
    if kind == "Danger" {
        let least = if k.jobs.last().unwrap().cmd == 1 { 2 } else { 3 };
        ensure!(k.fault.is_some(), "{what} failed: {:?}", r.last.texts);
        ensure!(r.last.texts.iter().filter(|t| !t.trim().is_empty()).count() >= least, "{what}: the failure is shown without a reason: {:?}", r.last.texts);
        cx.label("reported failure");
    }
    if certain || (failing && (single || (in_turn && matches!(k.fault, Some(Fault::Reject(_, true)))))) {
        ensure!(kind == "Danger", "{what} with {:?} ({:?}) reported success", k.fault, r.failed);
    }
    if in_turn {
        ensure!(r.pending == 0, "{what}: success is shown while {} operations are still to be completed", r.pending);
    }
    if single {
        ensure!(r.dumps.len() == (kind == "Success") as usize, "{what}: success is shown {} times, in the end {kind}", r.dumps.len());
    }
    // the sources are as before
    if change.is_none() {
        same(&flat, &cli::read_tree(&end.join("src")).map_err(|e| format!("{what}: {e}"))?, &format!("{what}: the source afterwards"))?;
    }
    if tauri && k.fault.is_none() {
        m.check_file(&iso).map_err(|e| format!("{what}: {e}"))?;
    }
    if base == 0 && far.is_none() && !matches!(k.fault, Some(Fault::Change(..))) {
        ensure!(std::fs::read(&iso).ok() == std::fs::read(end.join("src.iso")).ok(), "{what}: the source image has changed");
    }
    if damaged || (k.fault.is_some() && kind == "Danger") {
        cx.label_if(damaged && kind == "Success", "damage tolerated");
        return Ok(());
    }

    // success: every result is that of the library
    if !failing && k.fault.is_none() {
        for p in &r.dumps {
            if let Some((a, b)) = counts(&p.texts) {
                ensure!(a == b, "{what}: success is shown at {a} of {b}: {:?}", p.texts);
            }
        }
        // the last job's own counts
        let j = k.jobs.last().unwrap();
        if j.cmd == 1 {
            ensure!(r.last.texts.iter().any(|t| *t == format!("Unpacked {0} / {0} files", list.len())), "{what}: {} entries, but {:?}", list.len(), r.last.texts);
        }
        for (n, _) in r.suggested.iter().zip(0..).filter(|(n, _)| n.is_some()) {
            let n = n.as_deref().unwrap();
            ensure!(n == "src.xiso.iso" || tauri, "{what}: the suggested name is {n:?}");
        }
        ensure!(single || !in_turn || r.dumps.len() == k.jobs.len(), "{what}: success is shown {} times for {} jobs", r.dumps.len(), k.jobs.len());
    }
    if !single && kind == "Danger" {
        return Ok(());
    }
    let count = k.jobs.len();
    for (i, j) in k.jobs.iter().enumerate() {
        // with several jobs, only the last one's answer is still on the page
        if k.fault.is_some() && i + 1 < count {
            continue;
        }
        let what = format!("{what}: job {i}");
        let o = end.join(format!("o{i}"));
        let mut want = flat.clone();
        if let (Some((p, n)), true) = (&change, j.dir) {
            // read before or after the change, but not in part
            let b = if j.cmd == 0 { std::fs::read(end.join(dest(i, j))).map_err(e2s)? } else { cso::decode(&std::fs::read(only(&o)?).map_err(e2s)?).map_err(|e| format!("{what}: {e}"))?.image };
            let mut got = xv::reader::extract(&b).map_err(|e| format!("{what}: {e}"))?;
            if j.cmd != 0 {
                // compressing reads sectors on demand, and what has gone is filled up
                got.remove(p);
                want.remove(p);
            }
            if got != want {
                if let Some(Item::File(c)) = want.get_mut(p) {
                    c.truncate(*n as usize);
                }
                same(&want, &got, &format!("{what}, a file of which was shortened"))?;
            }
            cx.label("succeeded despite the change");
            continue;
        }
        match j.cmd {
            0 => {
                let got = std::fs::read(end.join(dest(i, j))).map_err(|e| format!("{what}: no image: {e}"))?;
                same(&want, &xv::reader::extract(&got).map_err(|e| format!("{what}: {e}"))?, &what)?;
                validate(&got).map_err(|e| format!("{what}: {e}"))?;
            }
            1 => {
                let mut got = cli::read_tree(&o).map_err(|e| format!("{what}: {e}"))?;
                if k.fault.is_some() {
                    got.retain(|p, _| want.contains_key(p));
                }
                same(&want, &got, &what)?
            }
            _ => {
                let f = if tauri { o.with_extension("1.cso") } else { only(&o).map_err(|e| format!("{what}: {e}"))? };
                let b = std::fs::read(&f).map_err(|e| format!("{what}: {f:?}: {e}"))?;
                ensure!(f.to_string_lossy().ends_with(".1.cso"), "{what}: the image is written to {f:?}");
                let c = cso::decode(&b).map_err(|e| format!("{what}: {e}"))?;
                same(&want, &xv::reader::extract(&c.image).map_err(|e| format!("{what}: {e}"))?, &what)?;
                validate(&c.image).map_err(|e| format!("{what}: {e}"))?;
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    tree: Tree,
    lay: Layout,
    offset: u8,
    dir: bool,
    order: u64,
    giant: (u16, u8, u32),
}

/// A file of 2 GiB or more, of which all but a few sectors are zeroes.
fn run_giant(k: &Giant, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    cx.nontrivial(true);
    cx.evals(1);
    cx.label(if k.dir { "folder of 2 GiB" } else { "image of 2 GiB" });
    let w = d.join("w");
    std::fs::create_dir(&w).map_err(e2s)?;
    std::fs::create_dir(w.join("o")).map_err(e2s)?;
    let g = if k.dir {
        host_tree(&w.join("src"), &k.tree);
        enlarge_host(&w.join("src"), &k.tree, k.giant.0, k.giant.2 as u64, 1 + k.giant.2 as u64 % 6000)?.map(|g| g.0)
    } else {
        let g = giant(&k.tree, &k.lay, k.giant);
        if let Some(g) = &g {
            let m = Medium { image: Arc::new(g.img.clone()), base: OFFSETS[k.offset as usize % 4], tail: 0, surround: 3, far: Some(g.far) };
            m.to_file(&w.join("src.iso")).map_err(e2s)?;
        }
        g
    };
    let Some(g) = g else {
        cx.label("no file to enlarge");
        return Ok(());
    };
    let j = Job { cmd: 0, dir: k.dir, out: 0, detour: 0, overlap: None };
    let mut script = steps(&j, "o/x.iso", false);
    script.push(json!({"wait": true}));
    let dump = d.join("d1");
    std::fs::create_dir(&dump).map_err(e2s)?;
    let what = format!("pack of a file of {} bytes", g.size);
    let s = json!({"disk": w.display().to_string(), "order": k.order, "steps": script, "dump": dump.display().to_string()});
    let r = session(&d, false, &s, &what)?;
    ensure!(r.last.kind.as_deref() == Some("Success"), "{what}: in the end, the page shows {:?}", r.last);
    let o = HostFile::open(&dump.join("end/o/x.iso"))?;
    g.check(&k.tree, &|p, b| o.get(p, b), &|a, b| o.zero(a, b)).map_err(|e| format!("{what}: {e}"))
}

fn main() {
    let mut c = Check::new(
        "C27",
        "fault_enumeration",
        "A case runs the browser application, compiled from the repository against stand-ins for the browser (values, promises, an
         event loop, the file system access API over a disk in memory) and for the user interface, and drives it by clicks and choices:
         one to three jobs (pack or compress a folder or image, unpack an image), one after the other or at the same time, with
         cancelled dialogs and changed minds, fresh or occupied destinations. Faults: any operation of the browser rejected, storage
         exhausted, a source file shortened meanwhile, a malformed, truncated, damaged or cyclic image, names in the way. The moment
         that success is shown the disk has to hold the files of the source, as a tree or in a valid image (independent decoders); a failed operation has to be shown. The
         second part does the same for the desktop build of the page, with the real desktop program behind it.
         Non-trivial: at least three entries, one of them a directory.",
    );
    c.assume("the browser's file system access API behaves as specified; the stand-in replaces it, and wasm-bindgen's glue");
    let job = |cmds: std::ops::Range<u8>| {
        (cmds, any::<bool>(), 0u8..2, 0u8..8, proptest::option::of(0u16..60))
            .prop_map(|(cmd, dir, out, detour, overlap)| Job { cmd, dir: dir && cmd != 1, out, detour, overlap })
    };
    let fault = |tauri: bool| {
        let s = prop_oneof![
            1 => any::<u32>().prop_map(Fault::Junk),
            3 => any::<u32>().prop_map(Fault::Cut),
            2 => (0u32..5000).prop_map(Fault::Cut),
            2 => muts::muts().prop_map(Fault::Damage),
            1 => any::<u16>().prop_map(Fault::Cycle),
            1 => any::<u16>().prop_map(Fault::InTheWay),
        ];
        if tauri {
            return s.boxed();
        }
        prop_oneof![
            4 => s,
            4 => (any::<u16>(), any::<bool>()).prop_map(|(a, b)| Fault::Reject(a, b)),
            2 => ((60000u16..=u16::MAX), any::<bool>()).prop_map(|(a, b)| Fault::Reject(a, b)),
            2 => any::<u16>().prop_map(Fault::Quota),
            3 => (any::<u16>(), any::<u16>(), any::<u16>()).prop_map(|(a, b, c)| Fault::Change(a, b, c)),
        ]
        .boxed()
    };
    let case = move |o: Opts, tauri: bool| {
        (
            gen::tree(o),
            (gen::layout(), gen::far_file()),
            0u8..4,
            prop_oneof![3 => proptest::collection::vec(job(0..3), 1..2), 1 => proptest::collection::vec(job(0..3), 2..4)],
            any::<u64>(),
            any::<bool>(),
            proptest::option::weighted(0.5, fault(tauri)),
        )
            .prop_map(move |(tree, (lay, far), offset, mut jobs, order, stale, fault)| {
                let offset = if fault.is_some() { 0 } else { offset };
                if matches!(fault, Some(Fault::Change(..))) {
                    jobs.truncate(1);
                }
                if tauri || matches!(fault, Some(Fault::InTheWay(_))) {
                    jobs.truncate(1);
                }
                Case { tree, lay, far, offset, jobs, order, stale, fault }
            })
            .boxed()
    };
    let opts = || Opts { host: true, bulk_max: 60, max_entries: 10, ..Opts::default() };
    c.part("browser", 1500, 30000, move || case(opts(), false), run);
    c.part("desktop", 250, 5000, move || case(opts(), true), run_tauri);
    c.part(
        "giant",
        3,
        30,
        || {
            (gen::tree(Opts { host: true, big: false, bulk: false, max_entries: 8, ..Opts::default() }).prop_filter("no file", |t| t.total_bytes() > 0), gen::layout(), 0u8..4, any::<bool>(), any::<u64>(), gen::giant_2g())
                .prop_map(|(tree, lay, offset, dir, order, giant)| Giant { tree, lay, offset, dir, order, giant })
                .boxed()
        },
        run_giant,
    );
    c.finish();
}
