//! C28: the daemon starts exactly when it can serve the image, and says so.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::ffi::OsString;
use std::sync::Arc;
use std::time::Duration;
use xv::builder::{build, Layout};
use xv::devs::Medium;
use xv::fuse::{self, Mounted};
use xv::gen::{self, Opts};
use xv::runner::*;
use xv::tree::*;
use xv::{ensure, OFFSETS};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Opt {
    Flag(u8),
    FsName(u8),
    Subtype(u8),
    Fork(bool),
    Bad(u8),
}
const FLAGS: [&str; 12] = ["auto_unmount", "allow_other", "allow_root", "default_permissions", "suid", "nosuid", "ro", "rw", "exec", "noexec", "dev", "nodev"];
const VALUES: [&str; 7] = ["game", "", "a b", "x=y", "/dev/sr0", "fork", "\u{e9}"];
const BAD: [&str; 12] = ["", "RO", "ro ", " ro", "readonly", "fsname", "subtype", "fork=1", "Fork", "nofsname=x", "x-allow", "no_fork"];
const CONFLICTS: [(&str, &str); 5] = [("allow_other", "allow_root"), ("suid", "nosuid"), ("ro", "rw"), ("exec", "noexec"), ("dev", "nodev")];

impl Opt {
    fn text(&self) -> String {
        match self {
            Opt::Flag(f) => FLAGS[*f as usize % 12].into(),
            Opt::FsName(v) => format!("fsname={}", VALUES[*v as usize % 7]),
            Opt::Subtype(v) => format!("subtype={}", VALUES[*v as usize % 7]),
            Opt::Fork(true) => "fork".into(),
            Opt::Fork(false) => "nofork".into(),
            Opt::Bad(b) => BAD[*b as usize % 12].into(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    offset: u8,
    /// 0..=5 an image under some name, others something else
    src: u8,
    name: u8,
    spell: u8,
    mnt: u8,
    opts: Vec<Vec<Opt>>,
    /// where the option that keeps the mount in the hands of the stand-in goes
    auto: (u8, u8),
    helper: u8,
}

fn opt(bad: bool) -> BoxedStrategy<Opt> {
    prop_oneof![
        8 => (0u8..12).prop_map(Opt::Flag),
        2 => any::<u8>().prop_map(Opt::FsName),
        1 => any::<u8>().prop_map(Opt::Subtype),
        2 => any::<bool>().prop_map(Opt::Fork),
        (if bad { 3 } else { 0 }) => any::<u8>().prop_map(Opt::Bad),
    ]
    .boxed()
}
fn opts() -> BoxedStrategy<Vec<Vec<Opt>>> {
    let v = |b| proptest::collection::vec(proptest::collection::vec(opt(b), 1..4), 0..4);
    // without conflicts, mostly
    let tidy = |mut v: Vec<Vec<Opt>>| {
        let mut seen = BTreeSet::new();
        for g in &mut v {
            g.retain(|o| {
                let t = o.text();
                let clash = CONFLICTS.iter().any(|(a, b)| (*a == t && seen.contains(*b)) || (*b == t && seen.contains(*a)));
                if !clash {
                    seen.insert(t);
                }
                !clash
            });
        }
        v.retain(|g| !g.is_empty());
        v
    };
    prop_oneof![6 => v(false).prop_map(tidy), 1 => v(false), 2 => v(true)].boxed()
}

fn case() -> BoxedStrategy<Case> {
    let o = Opts { bulk: false, max_entries: 8, ..Opts::default() };
    (
        (gen::tree(o), gen::layout(), 0u8..4),
        (prop_oneof![4 => 0u8..6, 1 => 6u8..16], any::<u8>(), any::<u8>(), prop_oneof![6 => 0u8..4, 1 => 4u8..8]),
        (opts(), any::<(u8, u8)>(), prop_oneof![5 => 0u8..2, 2 => 2u8..6]),
    )
        .prop_map(|((tree, lay, offset), (src, name, spell, mnt), (opts, auto, helper))| Case { tree, lay, offset, src, name, spell, mnt, opts, auto, helper })
        .boxed()
}

fn start(k: &Case, cx: &mut Cx) -> Outcome {
    let io = |e: std::io::Error| format!("harness: {e}");
    let d = cx.scratch();
    let d = d.canonicalize().map_err(io)?;
    // the source
    let name = ["x.iso", "a game (USA).iso", "\u{fc}n\u{ef}.iso", "no extension", "a=b.xiso.iso", "ISO"][k.name as usize % 6];
    std::fs::create_dir(d.join("src")).map_err(io)?;
    let f = d.join("src").join(name);
    let img = build(&k.tree, &k.lay);
    let base = OFFSETS[k.offset as usize];
    let mut good = k.src < 6;
    match k.src {
        0..=5 => Medium { image: Arc::new(img), base, tail: 0, surround: 3, far: None }.to_file(&f).map_err(io)?,
        6 => std::fs::write(&f, b"").map_err(io)?,
        7 => std::fs::write(&f, vec![k.name; 70_000]).map_err(io)?,
        8 => std::fs::write(&f, &img[..65536 + k.spell as usize * 8]).map_err(io)?,
        9 | 10 => {
            // one byte of either signature is off
            let mut b = img;
            let at = 65536 + if k.src == 9 { 0 } else { 2028 } + k.name as usize % 20;
            b[at] ^= 1 << (k.spell % 8);
            std::fs::write(&f, b).map_err(io)?
        }
        11 => std::fs::create_dir(&f).map_err(io)?,
        12 => {
            // at no supported offset
            Medium { image: Arc::new(img), base: 2048 * (1 + k.spell as u64), tail: 0, surround: 0, far: None }.to_file(&f).map_err(io)?
        }
        13 => std::os::unix::fs::symlink("nothing", &f).map_err(io)?,
        14 => std::os::unix::fs::symlink("/dev/null", &f).map_err(io)?,
        _ => (),
    }
    let src: OsString = match k.spell % 6 {
        0 | 1 => f.clone().into(),
        2 => format!("src/{name}").into(),
        3 => format!("./src/../src//{name}").into(),
        4 => {
            std::os::unix::fs::symlink(format!("src/{name}"), d.join("link")).map_err(io)?;
            "link".into()
        }
        _ => {
            std::os::unix::fs::symlink("src", d.join("other")).map_err(io)?;
            d.join("other").join(name).into()
        }
    };
    // the mount point
    let m = d.join("mnt here");
    std::fs::create_dir(&m).map_err(io)?;
    let mnt: OsString = match k.mnt {
        0 => m.clone().into(),
        1 => "mnt here".into(),
        2 => "./mnt here/".into(),
        3 => {
            std::os::unix::fs::symlink("mnt here", d.join("mlink")).map_err(io)?;
            "mlink".into()
        }
        4 => "nowhere".into(),
        5 => {
            std::fs::write(d.join("file"), b"x").map_err(io)?;
            "file".into()
        }
        6 => {
            std::os::unix::fs::symlink("nowhere", d.join("mlink")).map_err(io)?;
            "mlink".into()
        }
        _ => f.clone().into(),
    };
    // a directory as source and mount point at once is still a directory
    let mount_ok = k.mnt < 4 || (k.mnt == 7 && k.src == 11);
    if k.src == 11 {
        good = false;
    }
    // the options
    let mut groups = k.opts.clone();
    let at = k.auto.0 as usize % (groups.len() + 1);
    if at == groups.len() {
        groups.push(vec![]);
    }
    let pos = k.auto.1 as usize % (groups[at].len() + 1);
    groups[at].insert(pos, Opt::Flag(0));
    let all: Vec<Opt> = groups.iter().flatten().cloned().collect();
    let texts: Vec<String> = all.iter().map(|o| o.text()).collect();
    let unknown = all.iter().any(|o| matches!(o, Opt::Bad(_)));
    let conflict = CONFLICTS.iter().any(|(a, b)| texts.iter().any(|t| t == a) && texts.iter().any(|t| t == b));
    let fork = all.iter().rev().find_map(|o| if let Opt::Fork(b) = o { Some(*b) } else { None }).unwrap_or(true);
    let helper = ["", "slow", "fail", "slow fail", "quiet fail", "slow quiet fail"][k.helper as usize];
    let mut want: BTreeSet<String> = BTreeSet::new();
    for o in &all {
        match o {
            Opt::Fork(_) => (),
            Opt::Flag(2) => {
                // fuser lets everyone in, and checks for itself
                want.insert("allow_other".into());
            }
            o => {
                want.insert(o.text());
            }
        }
    }
    want.insert("allow_other".into()); // what unmounting automatically needs
    if !all.iter().any(|o| matches!(o, Opt::FsName(_))) {
        want.insert(format!("fsname={}", f.display()));
    }
    if !all.iter().any(|o| matches!(o, Opt::Subtype(_))) {
        want.insert("subtype=xdvdfs".into());
    }
    let may_mount = good && mount_ok && !unknown && !conflict;
    let works = may_mount && !helper.contains("fail");

    let mut args: Vec<OsString> = vec![];
    let front = k.auto.0 & 64 == 0;
    if !front {
        args.extend([src.clone(), mnt.clone()]);
    }
    for (i, g) in groups.iter().enumerate() {
        let t = g.iter().map(|o| o.text()).collect::<Vec<_>>().join(",");
        if (i + k.auto.1 as usize) % 3 == 0 {
            args.push(format!("-o{t}").into());
            // an empty value would take the next argument
            if t.is_empty() {
                args.pop();
                args.extend(["-o".into(), "".into()]);
            }
        } else {
            args.extend(["-o".into(), t.into()]);
        }
    }
    if front {
        args.extend([src, mnt]);
    }
    let t = format!("xdvdfsd {}", args.iter().map(|a| format!("{:?}", a.to_string_lossy())).collect::<Vec<_>>().join(" "));
    let mut p = Mounted::launch(&d, &args, helper)?;
    // a daemon that ends at once does not read it
    let asked = p.begin();
    let long = Duration::from_secs(60);
    if works {
        asked.map_err(|e| format!("{t}: {e}"))?;
        if fork {
            let Some(s) = p.status(long) else { return Err(format!("{t}: the command does not return")) };
            ensure!(s.code() == Some(0), "{t}: status {s:?}: {}", p.errors());
            cx.label("mounted in the background");
        } else {
            cx.label("mounted in the foreground");
        }
        p.begun().map_err(|e| format!("{t}: {e}"))?;
        let log = std::fs::read_to_string(d.join("requests")).unwrap_or_default();
        let reqs: Vec<Vec<String>> = log.lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
        ensure!(reqs.len() == 1, "{t}: {} mount requests", reqs.len());
        let mut got = BTreeSet::new();
        let mut rest = vec![];
        let mut it = reqs[0].iter();
        while let Some(a) = it.next() {
            match a.as_str() {
                "-o" => got.extend(it.next().iter().flat_map(|o| o.split(',')).map(String::from)),
                "--" => (),
                a => rest.push(a.to_string()),
            }
        }
        ensure!(got == want, "{t}: mounts with {got:?}, not {want:?}");
        ensure!(rest.len() == 1 && d.join(&rest[0]).canonicalize().ok().as_ref() == Some(&m), "{t}: mounts at {rest:?}");
        // it serves the image
        let a = p.getattr(1)?.map_err(|e| format!("{t}: the root has no attributes: error {e}"))?;
        ensure!(a.is_dir(), "{t}: the root has mode {:o}", a.mode);
        let mut names = BTreeSet::new();
        let mut off = 0;
        loop {
            let l = p.readdir(1, 0, off, 8192)?.map_err(|e| format!("{t}: the root cannot be listed: error {e}"))?;
            let Some(last) = l.last() else { break };
            ensure!(last.off > off, "{t}: the listing does not advance");
            off = last.off;
            names.extend(l.into_iter().map(|e| e.name).filter(|n| n != "." && n != ".."));
        }
        let tree: BTreeSet<String> = k.tree.0.iter().map(|e| e.name.clone()).filter(|n| n != "." && n != "..").collect();
        ensure!(names == tree, "{t}: serves {names:?}, not {tree:?}");
        if !fork {
            ensure!(p.status(Duration::ZERO).is_none(), "{t}: does not stay in the foreground");
        }
        cx.label_if(helper == "slow", "slow mount");
    } else {
        let why = if !mount_ok {
            "bad mount point"
        } else if !good {
            "no image"
        } else if unknown {
            "unknown option"
        } else if conflict {
            "conflicting options"
        } else {
            "mount fails"
        };
        let Some(s) = p.status(long) else { return Err(format!("{t} ({why}): the command does not return")) };
        ensure!(p.all_ended(long), "{t} ({why}): a process is left behind");
        let e = p.errors();
        ensure!(s.code().is_some_and(|c| c != 0), "{t} ({why}): status {s:?}: {e}");
        // packing a directory while it is mounted is not implemented, and says so in a panic
        ensure!(k.src == 11 || !e.contains("panicked"), "{t} ({why}): {e}");
        ensure!(!e.is_empty(), "{t} ({why}): fails without a message");
        let asked = d.join("requests").exists();
        ensure!(may_mount || !asked, "{t} ({why}): mounts all the same");
        cx.label(why);
        cx.label_if(fork, "failure in the background");
    }
    cx.nontrivial(all.len() > 1 || !works);
    Ok(())
}

fn main() {
    fuse::helper();
    let mut c = Check::new("C28", "exploration", "a case is non-trivial when it has an option of its own or a reason to fail");
    c.assume("mounts go through a stand-in for fusermount3 (every case asks for auto_unmount); the kernel's side of the session is a stand-in");
    c.assume("paths and values contain neither commas nor backslashes");
    c.part("starts", 5000, 80000, case, start);
    c.finish()
}
