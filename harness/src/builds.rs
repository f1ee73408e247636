//! The same operations and commands in two builds of the code under test.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use crate::builder::{build_checked, Layout};
use crate::cli::{self, Run};
use crate::gen::{self, Opts};
use crate::jobs::Job;
use crate::muts::{image, muts, M};
use crate::ops::*;
use crate::runner::*;
use crate::rules::{g, rule};
use crate::tree::*;
use crate::{content, ensure};


fn root() -> PathBuf {
    std::env::var("XV_ROOT").unwrap_or_else(|_| "/verif".into()).into()
}

/// The build the asynchronous debug build is compared with.
pub struct Other {
    pub name: &'static str,
    /// below the root of the machinery
    pub worker: &'static str,
    pub tool: &'static str,
    pub env: &'static [(&'static str, &'static str)],
    /// messages may carry log lines besides
    pub logs: bool,
    /// compressed images with damaged indices too
    pub damaged_cso: bool,
}

struct Worker {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Worker {
    fn start(other: Option<&Other>) -> Worker {
        let exe = root().join(other.map_or("target/h/debug/worker", |o| o.worker));
        let env = other.map_or(&[][..], |o| o.env);
        let mut child = Command::new(&exe).env_remove("RUST_LOG").envs(env.iter().copied()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| panic!("harness: {exe:?}: {e}"));
        Worker { to: child.stdin.take().unwrap(), from: BufReader::new(child.stdout.take().unwrap()), child }
    }
    /// None: the worker died.
    fn ask(&mut self, job: &Job, dir: &Path) -> Option<Vec<String>> {
        let l = serde_json::to_string(&(job, dir)).unwrap();
        writeln!(self.to, "{l}").ok()?;
        self.to.flush().ok()?;
        let mut r = String::new();
        if self.from.read_line(&mut r).ok()? == 0 {
            return None;
        }
        serde_json::from_str(&r).ok()
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static WORKERS: RefCell<[Option<Worker>; 2]> = const { RefCell::new([None, None]) };
}

fn ask(other: Option<&Other>, job: &Job, dir: &Path) -> Vec<String> {
    WORKERS.with(|w| {
        let w = &mut w.borrow_mut()[other.is_some() as usize];
        let r = w.get_or_insert_with(|| Worker::start(other)).ask(job, dir);
        let _ = std::fs::remove_dir_all(dir);
        match r {
            Some(r) => r,
            None => {
                *w = None;
                vec!["the process died".into()]
            }
        }
    })
}

pub fn job(other: &Other, k: &Job, cx: &mut Cx) -> Outcome {
    // the same path for both, so that nothing depends on it
    let d = cx.scratch().join("j");
    let a = ask(None, k, &d);
    let b = ask(Some(other), k, &d);
    for r in [&a, &b] {
        if let Some(l) = r.iter().find(|l| l.starts_with("panic: harness:")) {
            return Err(l[7..].to_string());
        }
    }
    cx.label(match k {
        Job::Pack { .. } => "pack memory",
        Job::Host { .. } => "pack host directory",
        Job::Remap { .. } => "remap",
        Job::Open { .. } => "open",
        Job::Repack { .. } => "repack",
        Job::Compress { .. } => "compress",
        Job::Devices { .. } => "devices",
    });
    let failed = a.iter().any(|l| l.contains("Err") || l.contains("Injected") || l.contains("Invalid") || l.starts_with("panic"));
    cx.label(if failed { "with errors" } else { "without errors" });
    cx.nontrivial(a.len() > 4);
    cx.evals(1);
    let n = a.iter().zip(&b).position(|(x, y)| x != y).or((a.len() != b.len()).then_some(a.len().min(b.len())));
    if let Some(i) = n {
        return Err(format!(
            "asynchronous and {} build differ in line {i} of what the operation shows: {:?} against {:?} (after {:?})",
            other.name,
            a.get(i),
            b.get(i),
            i.checked_sub(1).and_then(|i| a.get(i))
        ));
    }
    Ok(())
}

pub fn jobs() -> BoxedStrategy<Job> {
    let o = Opts { host: false, big: false, bulk_max: 80, max_entries: 12, ..Opts::default() };
    let h = Opts { host: true, ..o };
    let fail = |n: u64| prop_oneof![2 => Just(None), 1 => (0..n).prop_map(Some)];
    let paths = || proptest::collection::vec(prop_oneof!["[/a-zA-Z.]{0,10}", "\\PC{0,10}", Just("/".to_string()), Just(String::new()), Just("//".to_string())], 0..6);
    let damage = || prop_oneof![1 => Just(vec![]), 2 => muts()];
    prop_oneof![
        3 => (gen::tree(o), fail(60), fail(120), prop_oneof![Just(0u16), 1u16..4000]).prop_map(|(tree, fail_src, fail_out, chunk)| Job::Pack { tree, fail_src, fail_out, chunk }),
        2 => (gen::tree(h), 0u8..4, fail(120), 1u16..5000).prop_map(|(tree, how, fail, cap)| Job::Host { tree, how, fail, cap }),
        2 => (any::<bool>(), proptest::collection::vec(g(), 1..5)).prop_flat_map(|(host, gs)| (crate::rules::tree(host), Just(gs), Just(host))).prop_map(|(tree, gs, host)| {
            let rules = gs.iter().map(|g| rule(&tree, g)).collect();
            Job::Remap { tree, rules, host }
        }),
        6 => (gen::tree(o), gen::layout(), damage(), 0u8..4, any::<u16>(), paths(), fail(200), (any::<u32>(), any::<u32>()))
            .prop_map(|(tree, lay, muts, base, tail, paths, fail, range)| Job::Open { tree, lay, muts, base, tail, paths, fail, range }),
        4 => (gen::tree(o), gen::layout(), damage(), 0u8..4, 0u8..4, fail(200), fail(100), prop_oneof![Just(0u16), 1u16..5000])
            .prop_map(|(tree, lay, muts, base, how, fail, fail_out, short)| Job::Repack { tree, lay, muts, base, how, fail, fail_out, short }),
        1 => (gen::tree(h), any::<bool>()).prop_map(|(tree, host)| Job::Compress { tree, host }),
        2 => (0u8..8, any::<u16>(), proptest::collection::vec((any::<u8>(), any::<u32>(), any::<u16>()), 1..20)).prop_map(|(kind, size, ops)| Job::Devices { kind, size, ops }),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cmd {
    tree: Tree,
    lay: Layout,
    muts: Vec<M>,
    cmd: u8,
    pick: u16,
    arg: u8,
    rules: Vec<(String, String)>,
    fsize: Option<u32>,
}

#[derive(Debug, PartialEq)]
enum Thing {
    Dir,
    File(usize, u64),
    Link,
}

fn snap(dir: &Path) -> Result<BTreeMap<String, Thing>, String> {
    let mut out = BTreeMap::new();
    for n in cli::names(dir)? {
        let p = dir.join(&n);
        let m = std::fs::symlink_metadata(&p).map_err(e2s)?;
        let t = if m.is_dir() {
            Thing::Dir
        } else if m.is_file() {
            let b = std::fs::read(&p).map_err(e2s)?;
            Thing::File(b.len(), b.chunks(8).fold(7, |h, c| content::mix(h ^ c.iter().fold(0u64, |a, x| a << 8 | *x as u64))))
        } else {
            Thing::Link
        };
        out.insert(n, t);
    }
    Ok(out)
}

pub fn command(other: &Other, k: &Cmd, cx: &mut Cx) -> Outcome {
    // sources for map rules may have names that cannot share an image
    let img = if !k.rules.is_empty() { vec![0; 5000] } else if k.muts.is_empty() { build_checked(&k.tree, &k.lay) } else { image(&k.tree, &k.lay, &k.muts) };
    let l = k.tree.list();
    let mut path = if l.is_empty() { "/".to_string() } else { cli::ipath(&l[k.pick as usize % l.len()].0) };
    match k.arg % 8 {
        0 => path = "/".into(),
        1 => path += "/none",
        2 => path = gen::flip_case(&path, k.pick as u64),
        3 => path = format!("/{path}/"),
        _ => {}
    }
    let host: Vec<String> = k.rules.iter().flat_map(|(h, g)| ["-m".to_string(), format!("{}:{g}", h.replace(':', "_"))]).collect();
    let s = |l: &[&str]| l.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let (name, args): (&str, Vec<String>) = match k.cmd {
        0 => ("pack directory", s(&["pack", "s", "o.iso"])),
        1 => ("pack image", s(&["pack", "i.iso", ["o.iso", "i.iso", "none/o.iso"][k.arg as usize % 3]])),
        2 => ("unpack", s(&["unpack", "i.iso", "u"])),
        3 => ("copy-out", s(&["copy-out", "i.iso", &path, "u"])),
        4 => ("compress directory", s(&["compress", "s", "o.cso"])),
        5 => ("compress image", s(&["compress", "i.iso", "o.cso"])),
        6 => ("build-image", [s(&["build-image"]), host, s(&["s", "o.iso"])].concat()),
        7 => ("build-image dry run", [s(&["build-image", "-D"]), host, s(&["s"])].concat()),
        8 => ("image-spec", [s(&["image-spec", "from"]), host, s(&["x.toml"])].concat()),
        9 => ("ls", s(&["ls", "i.iso", &path])),
        10 => ("ls --scan", s(&["ls", "--scan", "i.iso", &path])),
        11 => ("tree", s(&["tree", "i.iso"])),
        12 => ("info", s(&["info", "i.iso", &path])),
        13 => ("md5", s(&["md5", "i.iso", &path])),
        14 => ("checksum", s(&["checksum", "i.iso"])),
        15 => ("extract-xiso -c", s(&["extract-xiso", "-c", "s", "-c", "s", "p.iso"])),
        16 => ("extract-xiso -l", s(&["extract-xiso", "-l", "i.iso", "t.iso"])),
        17 => ("extract-xiso -x", s(&["extract-xiso", "-d", "u", "-x", "i.iso"])),
        18 => ("extract-xiso -r", s(&["extract-xiso", "-r", "i.iso", "t.iso"])),
        19 => ("extract-xiso -D -r", s(&["extract-xiso", "-D", "-d", "e", "-r", "i.iso"])),
        20 => ("ls compressed", s(&["ls", "c.1.cso", &path])),
        21 => ("md5 compressed", s(&["md5", "c.1.cso"])),
        22 => ("checksum compressed", s(&["checksum", "c.1.cso", "i.iso"])),
        _ => ("usage error", s(&[["bogus", "pack", "ls", "--help", "--version"][k.arg as usize % 5]])),
    };
    cx.label(name);
    cx.nontrivial(l.len() > 2);
    let d = cx.scratch().join("w");
    let run = Run { fsize: k.fsize.map(|f| f as u64 % (img.len() as u64 + 50_000)), ..Run::default() };
    let tool = root().join(other.tool);
    let env: Vec<(String, String)> = other.env.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    let mut got = vec![];
    // the compressed image has to be the same file for both
    let cso = if (20..23).contains(&k.cmd) {
        std::fs::create_dir_all(&d).map_err(e2s)?;
        std::fs::write(d.join("i.iso"), build_checked(&k.tree, &k.lay)).map_err(e2s)?;
        cli::run(&d, &["compress", "i.iso", "c.cso"]).success("compress")?;
        let mut c = std::fs::read(d.join("c.1.cso")).map_err(e2s)?;
        if other.damaged_cso && k.arg % 4 == 3 {
            let at = k.pick as usize % (c.len() - 24);
            c[24 + at] ^= 1 << (k.arg / 4 % 8);
        }
        Some(c)
    } else {
        None
    };
    // a damaged index may make the dependency allocate without bound
    for which in 0..2 {
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("e")).map_err(e2s)?;
        host_tree(&d.join("s"), &k.tree);
        std::fs::write(d.join("i.iso"), &img).map_err(e2s)?;
        std::fs::write(d.join("t.iso"), build_checked(&Tree(vec![Entry { name: "t".into(), node: Node::File { len: 3000, seed: 2 } }]), &Layout::default())).map_err(e2s)?;
        if let Some(c) = &cso {
            std::fs::write(d.join("c.1.cso"), c).map_err(e2s)?;
        }
        let o = cli::run_with(&d, &args, &Run { exe: (which == 1).then(|| tool.clone()), env: if which == 1 { env.clone() } else { vec![] }, ..run.clone() });
        got.push((o, snap(&d)?));
    }
    let (b, sb) = got.pop().unwrap();
    let (a, sa) = got.pop().unwrap();
    cx.label(if a.ok() { "exit 0" } else { "exit with an error" });
    ensure!((a.code, a.signal) == (b.code, b.signal), "{args:?}: the asynchronous tool exits with {:?} {:?}, the {} one with {:?} {:?}: {:?} against {:?}", a.code, a.signal, other.name, b.code, b.signal, a.err(), b.err());
    if a.stdout != b.stdout {
        let (x, y) = (a.out(), b.out());
        let i = x.lines().zip(y.lines()).position(|(p, q)| p != q).unwrap_or(x.lines().count().min(y.lines().count()));
        return Err(format!("{args:?}: the outputs differ in line {i}: {:?} asynchronous, {:?} {}", x.lines().nth(i), y.lines().nth(i), other.name));
    }
    let plain = |o: &cli::Out| -> String {
        // a panic message carries the thread's number
        let e = o.err();
        if o.code == Some(101) {
            "panic".into()
        } else {
            e.trim_end_matches('\n').into()
        }
    };
    // log lines come between those of the message
    let same = if other.logs && a.code != Some(101) {
        let (a, b) = (plain(&a), plain(&b));
        let mut it = b.lines();
        a.lines().all(|l| it.any(|m| m.ends_with(l)))
    } else {
        plain(&a) == plain(&b)
    };
    ensure!(same, "{args:?}: the messages differ: {:?} asynchronous, {:?} {}", a.err(), b.err(), other.name);
    for n in sa.keys().chain(sb.keys()) {
        ensure!(sa.get(n) == sb.get(n), "{args:?}: {n} is {:?} after the asynchronous tool, {:?} after the {} one", sa.get(n), sb.get(n), other.name);
    }
    Ok(())
}

pub fn cmds() -> BoxedStrategy<Cmd> {
    let o = Opts { host: true, bulk_max: 40, max_entries: 10, ..Opts::default() };
    let map = crate::rules::tree(true).prop_flat_map(|tree| (Just(tree), proptest::collection::vec(g(), 1..4))).prop_map(|(tree, gs)| {
        let rules = gs.iter().map(|g| rule(&tree, g)).collect::<Vec<_>>();
        (tree, rules)
    });
    (prop_oneof![2 => gen::tree(o).prop_map(|t| (t, vec![])), 1 => map], gen::layout(), prop_oneof![2 => Just(vec![]), 1 => muts()], 0u8..24, any::<u16>(), any::<u8>(), prop_oneof![4 => Just(None), 1 => any::<u32>().prop_map(Some)])
        .prop_map(|((tree, rules), lay, muts, cmd, pick, arg, fsize)| {
            let cmd = if !rules.is_empty() && !(6..9).contains(&cmd) { 6 + cmd % 3 } else { cmd };
            Cmd { tree, lay, muts, cmd, pick, arg, rules, fsize }
        })
        .boxed()
}
