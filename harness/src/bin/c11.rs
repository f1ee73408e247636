//! C11: extraction reproduces the image exactly.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use xv::builder::{build_far, giant, Layout};
use xv::devs::Medium;
use xv::gen::{self, Opts};
use xv::ops::same;
use xv::runner::*;
use xv::tree::*;
use xv::{cli, content, ensure, OFFSETS};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    #[serde(default)]
    far: Option<(u16, u8)>,
    offset: u8,
    tail: u16,
    /// 0 unpack, 1 unpack default, 2 copy-out /, 3.. copy-out of an entry, 7 extract-xiso -x
    cmd: u8,
    pick: u16,
    flip: u64,
    slashes: u8,
    /// 0 absent, 1 exists and empty, 2 exists with unrelated files, 3 with stale versions of files of the image
    pre: u8,
    stale: Vec<(u16, u16)>,
    dest: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    k: Case,
    m: gen::Many,
}

fn case(o: Opts) -> BoxedStrategy<Case> {
    (
        (gen::tree(o), gen::layout(), prop_oneof![3 => Just(0u8), 1 => 1u8..4], 0u16..5000, gen::far_file()),
        0u8..8,
        any::<u16>(),
        prop_oneof![Just(0u64), any::<u64>()],
        0u8..4,
        0u8..4,
        proptest::collection::vec((any::<u16>(), prop_oneof![Just(0u16), any::<u16>()]), 1..4),
        0u8..4,
    )
        .prop_map(|((tree, lay, offset, tail, far), cmd, pick, flip, slashes, pre, stale, dest)| Case { tree, lay, far, offset, tail, cmd, pick, flip, slashes, pre, stale, dest })
        .boxed()
}

fn run(k: &Case, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    let (image, far) = build_far(&k.tree, &k.lay, k.far);
    cx.label_if(far.is_some(), "far regions");
    let m = Medium {
        image: Arc::new(image),
        base: OFFSETS[k.offset as usize],
        tail: k.tail as u64,
        surround: k.lay.seed | 1, far
    };
    let img = d.join("im.g.iso");
    m.to_file(&img).map_err(|e| format!("harness: {e}"))?;
    let l = k.tree.list();
    let (mut cmd, mut path) = (k.cmd, vec![]);
    if (3..7).contains(&cmd) {
        // every second case copies a directory if there is one
        let want_dir = cmd % 2 == 0;
        let c: Vec<_> = l.iter().filter(|e| e.1 == want_dir).collect();
        match c.get(k.pick as usize % c.len().max(1)) {
            Some(e) => path = e.0.clone(),
            None => cmd = 2,
        }
    }
    let node = k.tree.find(&path);
    let is_file = matches!(node, Some(Node::File { .. }));
    let sub = Tree(k.tree.dir(&path).cloned().unwrap_or_default());
    // the path as the user spells it
    let mut src = path.iter().map(|c| gen::flip_case(c, k.flip)).collect::<Vec<_>>().join("/");
    if cmd == 2 || path.is_empty() {
        src = "/".into();
    } else {
        match k.slashes {
            0 => src.insert(0, '/'),
            1 => src.insert_str(0, "//"),
            2 => {
                src.insert(0, '/');
                src.push('/')
            }
            _ if src.starts_with('-') => src.insert(0, '/'),
            _ => {}
        }
    }
    let name = match (cmd, k.dest) {
        (1, _) => "im.g",
        (_, 0) => "out",
        (_, 1) => "o u.t",
        (_, 2) if !is_file => "deep/er/out",
        (_, _) => "./out",
    };
    let dest = d.join(name);
    // what is there before
    let mut keep = Flat::new();
    if is_file {
        let Some(Node::File { len, .. }) = node else { unreachable!() };
        match k.pre {
            2 => std::fs::write(&dest, content::bytes(5, k.stale[0].1 as u64)).unwrap(),
            3 => std::fs::write(&dest, content::bytes(5, len + 1 + k.stale[0].1 as u64)).unwrap(),
            _ => {}
        }
        cx.label_if(k.pre == 3, "stale longer file");
    } else if k.pre > 0 {
        std::fs::create_dir_all(&dest).unwrap();
        if k.pre == 2 {
            let n = "unrelated~~~".to_string();
            if !sub.0.iter().any(|e| e.name == n) {
                std::fs::write(dest.join(&n), "keep").unwrap();
                keep.insert(vec![n], Item::File(b"keep".to_vec()));
            }
        }
        if k.pre == 3 {
            // only files directly in the destination: existing subdirectories are refused
            let files: Vec<&Entry> = sub.0.iter().filter(|e| matches!(e.node, Node::File { .. })).collect();
            for (i, extra) in &k.stale {
                if let Some(e) = files.get(*i as usize % files.len().max(1)) {
                    let Node::File { len, .. } = &e.node else { unreachable!() };
                    let n = if extra % 5 == 0 { *extra as u64 } else { len + *extra as u64 };
                    std::fs::write(dest.join(&e.name), content::bytes(7 + *extra as u64, n)).unwrap();
                    cx.label_if(n > *len, "stale longer file");
                }
            }
        }
    }
    let args: Vec<&str> = match cmd {
        0 => vec!["unpack", "im.g.iso", name],
        1 => vec!["unpack", "im.g.iso"],
        7 => vec!["extract-xiso", "-d", name, "-x", "im.g.iso"],
        _ => vec!["copy-out", "--", "im.g.iso", &src, name],
    };
    cx.label(match cmd {
        0 => "unpack",
        1 => "unpack to the default destination",
        7 => "extract-xiso -x",
        2 => "copy-out /",
        _ if is_file => "copy-out of a file",
        _ => "copy-out of a directory",
    });
    cx.label_if(k.offset > 0, "at an offset");
    let files = l.iter().filter(|e| !e.1 && e.2 > 0).count();
    cx.nontrivial(if is_file { l.len() > 2 && k.tree.total_bytes() > 0 } else { files > 1 && sub.0.len() > 1 });
    cli::run(&d, &args).success(&format!("{args:?}"))?;
    m.check_file(&img).map_err(|e| format!("{args:?}: {e}"))?;
    if is_file {
        let Some(Node::File { len, seed }) = node else { unreachable!() };
        let got = std::fs::read(&dest).map_err(|e| format!("{args:?}: no file: {e}"))?;
        let want = content::bytes(*seed, *len);
        ensure!(got == want, "{args:?}: the copy has {} bytes, the file {} bytes, first difference at {:?}", got.len(), want.len(), got.iter().zip(&want).position(|(a, b)| a != b));
    } else {
        ensure!(dest.is_dir(), "{args:?}: no directory at the destination");
        let mut want = sub.flat();
        want.extend(keep);
        same(&want, &cli::read_tree(&dest)?, &format!("{args:?}"))?;
    }
    // and nothing beside it
    let top: Vec<String> = cli::names(&d)?.into_iter().filter(|n| !n.contains('/')).collect();
    let first = name.trim_start_matches("./").split('/').next().unwrap();
    ensure!(top.iter().all(|n| n == "im.g.iso" || n == first), "{args:?}: unexpected files {top:?}");
    // a path that names nothing, or leads through a file
    cx.evals(2);
    let missing = format!("{}/no~such", if is_file { "" } else { src.trim_end_matches('/') });
    cli::run(&d, &["copy-out", "--", "im.g.iso", &missing, "none"]).failure("copy-out of a missing path")?;
    if let Some(f) = l.iter().find(|e| !e.1) {
        cli::run(&d, &["copy-out", "--", "im.g.iso", &format!("{}/x", cli::ipath(&f.0)), "none2"]).failure("copy-out of a path through a file")?;
        ensure!(!d.join("none2").exists(), "a failed copy-out created its destination");
    }
    ensure!(!d.join("none").exists(), "a failed copy-out created its destination");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    tree: Tree,
    lay: Layout,
    giant: (u16, u8, u32),
    offset: u8,
}

/// A file of 2 GiB or more, of which all but a few sectors are zeroes.
fn run_giant(k: &Giant, cx: &mut Cx) -> Outcome {
    let Some(g) = giant(&k.tree, &k.lay, k.giant) else {
        cx.label("no file to enlarge");
        return Ok(());
    };
    cx.nontrivial(true);
    cx.evals(1);
    cx.label_if(g.size >= 1 << 31, "file of 2 GiB or more");
    let d = cx.scratch();
    let m = Medium { image: Arc::new(g.img.clone()), base: OFFSETS[k.offset as usize], tail: 0, surround: 3, far: Some(g.far) };
    m.to_file(&d.join("in.iso")).map_err(|e| format!("harness: {e}"))?;
    let Some(Node::File { seed, .. }) = k.tree.find(&g.path) else { return Err("harness: no such file".into()) };
    cli::run(&d, &["unpack", "in.iso", "out"]).success("unpack")?;
    g.check_copy(&d.join("out").join(g.path.join("/")), *seed).map_err(|e| format!("unpack: {e}"))?;
    // the others
    for (p, dir, len, _) in k.tree.list() {
        let h = d.join("out").join(p.join("/"));
        let Some(Node::File { seed, .. }) = k.tree.find(&p) else {
            ensure!(dir && h.is_dir(), "unpack: {p:?} is no directory");
            continue;
        };
        if p != g.path {
            ensure!(std::fs::read(&h).is_ok_and(|b| b == content::bytes(*seed, len)), "unpack: {p:?} differs");
        }
    }
    std::fs::remove_dir_all(d.join("out")).map_err(|e| format!("harness: {e}"))?;
    cli::run(&d, &["copy-out", "--", "in.iso", &format!("/{}", g.path.join("/")), "copy"]).success("copy-out")?;
    g.check_copy(&d.join("copy"), *seed).map_err(|e| format!("copy-out: {e}"))?;
    m.check_file(&d.join("in.iso"))
}

fn main() {
    let mut c = Check::new(
        "C11",
        "exploration",
        "A case is an image in any layout, bare or at a partition offset, and one extraction by the command line: unpack (explicit
         and default destination), copy-out of the root, of a file or of a directory (any letter case, extra slashes), or
         extract-xiso -x, with the destination absent, empty, with unrelated files, or with stale (longer) versions of the files.
         The destination is compared with the model tree, the image before and after. Non-trivial: the extracted part has several
         entries with data, or is a file among others.",
    );
    c.assume("no subdirectory of the extracted part exists in the destination beforehand (extraction refuses that)");
    c.part("extract", 4000, 80000, || case(Opts { host: true, bulk_max: 60, ..Opts::default() }), run);
    c.part("large", 150, 4000, || case(Opts { host: true, big: true, bulk: false, max_entries: 6, ..Opts::default() }), run);
    c.part("huge", 40, 1000, || (case(Opts { host: true, big: false, bulk: false, max_entries: 6, ..Opts::default() }), gen::large_tree(true)).prop_map(|(k, tree)| Case { tree, ..k }).boxed(), run);
    c.part(
        "many",
        2,
        60,
        || (case(Opts { host: true, big: false, bulk: false, max_entries: 3, ..Opts::default() }), gen::many()).prop_map(|(k, m)| Big { k: Case { tree: Tree(vec![]), ..k }, m }).boxed(),
        |k: &Big, cx| run(&Case { tree: k.m.tree(), ..k.k.clone() }, cx),
    );
    // just beyond 2 GiB, which a few seconds suffice for
    c.part(
        "giant",
        2,
        40,
        || (gen::tree(Opts { host: true, big: false, bulk: false, max_entries: 8, ..Opts::default() }), gen::layout(), gen::giant_2g(), 0u8..4).prop_map(|(tree, lay, giant, offset)| Giant { tree, lay, giant, offset }).boxed(),
        run_giant,
    );
    xv::desk::part(&mut c, 300, &[1], &[false], 0.0, xv::desk::full);
    c.finish();
}
