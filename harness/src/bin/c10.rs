//! C10: extraction never writes outside its destination.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::unix::fs::{chown, MetadataExt};
use std::path::{Path, PathBuf};
use xv::builder::{build, Layout};
use xv::cli::{self, Run};
use xv::gen::{self, Opts};
use xv::ops::same;
use xv::runner::*;
use xv::tree::*;
use xv::ensure;

const UID: u32 = 65534;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    /// (entry index, name); "{S}" stands for the scratch directory
    hostile: Vec<(u16, String)>,
    /// 0 unpack, 1 copy-out /, 2 copy-out of a directory, 3 extract-xiso -x, 4 unpack to the default destination,
    /// 5 the desktop program
    cmd: u8,
    /// the destination exists already
    exists: bool,
    absolute: bool,
}

fn hostile() -> BoxedStrategy<String> {
    let leaf = prop_oneof![Just("canary"), Just("new"), Just("cdir"), Just("dest"), Just("a")];
    prop_oneof![
        4 => Just("..".to_string()),
        1 => Just(".".to_string()),
        5 => (proptest::sample::select(vec!["../", "../../", "./", "x/", "x/../../", ".././", "..//", "a/../"]), leaf.clone()).prop_map(|(a, b)| format!("{a}{b}")),
        3 => leaf.clone().prop_map(|l| format!("{{S}}/{l}")),
        2 => leaf.clone().prop_map(|l| format!("{{S}}/cdir/{l}")),
        2 => leaf.clone().prop_map(|l| format!("{l}/")),
        1 => leaf.clone().prop_map(|l| format!("{l}/.")),
        1 => leaf.clone().prop_map(|l| format!("{l}/..")),
        1 => leaf.prop_map(|l| format!("//{l}")),
        1 => Just("/".to_string()),
        1 => Just("../".to_string()),
        1 => Just("../..".to_string()),
        1 => Just("a\0b".to_string()),
        1 => Just("..\\canary".to_string()),
        1 => Just("...".to_string()),
        1 => Just("C:\\x".to_string()),
        1 => Just(String::new()),
    ]
    .boxed()
}

fn case() -> BoxedStrategy<Case> {
    (
        gen::tree(Opts { host: true, big: false, bulk_max: 20, max_entries: 9, ..Opts::default() }),
        gen::layout(),
        prop_oneof![1 => Just(vec![]), 6 => proptest::collection::vec((any::<u16>(), hostile()), 1..4)],
        0u8..6,
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(tree, lay, hostile, cmd, exists, absolute)| Case { tree, lay, hostile, cmd, exists, absolute })
        .boxed()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Plain,
    Empty,
    Bad,
}
/// On this host: what a name is as a single path component.
fn kind(n: &str) -> Kind {
    if n.is_empty() {
        Kind::Empty
    } else if n == "." || n == ".." || n.contains('/') || n.contains('\0') {
        Kind::Bad
    } else {
        Kind::Plain
    }
}

fn rename(l: &mut [Entry], at: &mut usize, want: usize, name: &str) {
    for e in l.iter_mut() {
        if *at == want {
            e.name = name.to_string();
            *at += 1;
            return;
        }
        *at += 1;
        if let Node::Dir(c) = &mut e.node {
            rename(c, at, want, name);
        }
        if *at > want {
            return;
        }
    }
}

/// Everything below `root` except `skip`: path, kind, owner, mode and contents.
fn snapshot(root: &Path, skip: &Path) -> Vec<(PathBuf, String)> {
    fn rec(d: &Path, skip: &Path, out: &mut Vec<(PathBuf, String)>) {
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            if p == skip {
                continue;
            }
            let m = std::fs::symlink_metadata(&p).unwrap();
            if m.is_dir() {
                out.push((p.clone(), format!("dir {:o}", m.mode())));
                rec(&p, skip, out);
            } else {
                let c = std::fs::read(&p).unwrap();
                out.push((p, format!("file {:o} {} {} {:x}", m.mode(), m.len(), m.mtime_nsec(), c.iter().fold(7u64, |h, b| xv::content::mix(h ^ *b as u64)))));
            }
        }
    }
    let mut v = vec![];
    rec(root, skip, &mut v);
    v.sort();
    v
}

fn desktop() -> PathBuf {
    PathBuf::from(std::env::var("XV_ROOT").unwrap_or_else(|_| "/verif".into())).join("target/d/debug/xdvdfs-desktop")
}

fn own(p: &Path) {
    chown(p, Some(UID), Some(UID)).unwrap_or_else(|e| panic!("harness: chown: {e}"));
}

fn run(k: &Case, cx: &mut Cx) -> Outcome {
    // the destination lies seven levels below the scratch directory: at most three hostile names of at most two
    // levels up cannot leave it, even if all of them are followed
    let top = cx.scratch();
    let s = top.join("s");
    let cwd = s.join("a/b/c/d/e/f");
    std::fs::create_dir_all(&cwd).unwrap();
    let mut d = cwd.clone();
    let mut level = 0;
    loop {
        own(&d);
        std::fs::write(d.join("canary"), format!("canary {level}")).unwrap();
        own(&d.join("canary"));
        std::fs::create_dir(d.join("cdir")).unwrap();
        own(&d.join("cdir"));
        std::fs::write(d.join("cdir/a"), "kept").unwrap();
        own(&d.join("cdir/a"));
        level += 1;
        if d == s {
            break;
        }
        d.pop();
    }
    let sdir = s.to_str().unwrap().to_string();
    let mut tree = k.tree.clone();
    let n = tree.list().len();
    for (i, name) in &k.hostile {
        if n > 0 {
            let name = name.replace("{S}", &sdir);
            rename(&mut tree.0, &mut 0, *i as usize % n, &name);
        }
    }
    std::fs::write(cwd.join("img.iso"), build(&tree, &k.lay)).unwrap();
    own(&cwd.join("img.iso"));
    // the part of the tree that is extracted
    let dirs: Vec<Vec<String>> = tree.list().into_iter().filter(|e| e.1).map(|e| e.0).collect();
    let mut sub: Vec<String> = vec![];
    let mut cmd = k.cmd;
    if cmd == 2 {
        // directories reachable by a path
        let ok: Vec<_> = dirs.iter().filter(|p| p.iter().all(|c| !c.is_empty() && !c.contains('/') && !c.contains('\0'))).collect();
        let mut seen = std::collections::HashSet::new();
        let unique = tree.list().iter().all(|e| seen.insert(upper(&e.0.join("/"))));
        if ok.is_empty() || !unique {
            cmd = 1;
        } else {
            sub = ok[k.lay.seed as usize % ok.len()].clone();
        }
    }
    let name = if cmd == 4 { "img" } else { "dest" };
    let dest = cwd.join(name);
    if k.exists {
        std::fs::create_dir(&dest).unwrap();
        own(&dest);
    }
    let arg = if k.absolute { dest.to_str().unwrap().to_string() } else { "dest".to_string() };
    let src = cli::ipath(&sub);
    let args: Vec<&str> = match cmd {
        0 => vec!["unpack", "img.iso", &arg],
        1 | 2 => vec!["copy-out", "img.iso", &src, &arg],
        3 => vec!["extract-xiso", "-d", &arg, "-x", "img.iso"],
        5 => vec!["unpack_image", "img.iso", &arg],
        _ => vec!["unpack", "img.iso"],
    };
    let before = snapshot(&s, &dest);
    let out = cli::run_with(&cwd, &args, &Run { uid: Some(UID), exe: (cmd == 5).then(desktop), ..Run::default() });
    let after = snapshot(&s, &dest);
    cx.label(["unpack", "copy-out /", "copy-out dir", "extract-xiso -x", "unpack, default destination", "desktop program"][cmd as usize]);
    for x in &after {
        ensure!(before.contains(x), "{args:?} created or changed {:?} outside of the destination", x.0);
    }
    for x in &before {
        ensure!(after.contains(x), "{args:?} changed or removed {:?} outside of the destination", x.0);
    }
    out.sane().map_err(|e| format!("{args:?}: {e}"))?;
    // the desktop program answers with nothing or a message
    let answer = if cmd == 5 {
        let v: serde_json::Value = serde_json::from_str(out.out().lines().last().unwrap_or("")).map_err(|e| format!("harness: no answer: {e}: {}", out.err()))?;
        let a = v.get("answer").ok_or("harness: no answer")?;
        a.as_str().map(str::to_string)
    } else {
        None
    };
    let failed = !out.ok() || answer.is_some();
    // what has to become of the subtree
    let sub_tree = Tree(tree.dir(&sub).cloned().unwrap_or_default());
    let kinds: Vec<Kind> = sub_tree.list().iter().map(|e| kind(e.0.last().unwrap())).collect();
    let bad = kinds.contains(&Kind::Bad);
    let empty = kinds.contains(&Kind::Empty);
    cx.label_if(bad, "refusable name in the extracted part");
    cx.label_if(empty, "empty name");
    if bad {
        cx.nontrivial(true);
        ensure!(failed, "{args:?} succeeded on an image with names that are not plain file names");
    } else if !empty {
        // names made equal by the substitution are not well-formed
        let mut seen = std::collections::HashSet::new();
        if sub_tree.list().iter().all(|e| seen.insert(upper(&e.0.join("/")))) {
            cx.label_if(!k.hostile.is_empty(), "unusual but plain names");
            let out = out.success(&format!("{args:?}"))?;
            let _ = out;
            ensure!(answer.is_none(), "{args:?} failed: {answer:?}");
            same(&sub_tree.flat(), &cli::read_tree(&dest)?, "the destination")?;
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::new(
        "C10",
        "exploration",
        "A case is an image in any layout with up to three entries (files or directories, at any depth) renamed to hostile names:
         parent and current directory, paths with separators, absolute paths into the scratch directory, trailing separators, NUL,
         backslashes, empty. An unprivileged process extracts it (unpack with and without destination, copy-out, extract-xiso -x,
         the desktop program)
         seven levels below a scratch directory with a canary file and directory at every level that it may write. Everything
         outside the destination is compared before and after, an image with a name that is no plain file name has to be refused,
         and one without has to be extracted exactly. Non-trivial: the extracted part contains a refusable name.",
    );
    c.assume("the destination contains no symbolic links; for empty names only containment is checked");
    c.part("extract", 6000, 100000, case, run);
    c.finish();
}
