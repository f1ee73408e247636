//! C25: extract-xiso mode does what its options say.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path as HostPath, PathBuf};
use std::sync::Arc;
use xv::builder::{build_checked, Layout};
use xv::cli::{self, Run};
use xv::devs::Medium;
use xv::gen::{self, Opts};
use xv::ops::*;
use xv::runner::*;
use xv::tree::*;
use xv::{ensure, reader, OFFSETS};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Item {
    tree: Tree,
    lay: Layout,
    offset: u8,
    name: u8,
    /// create: an output is named, and how
    file: u8,
    /// spelling of the path
    spell: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    items: Vec<Item>,
    /// 0-2 create, 3 list, 4 extract, 5 default mode, 6-8 rewrite
    mode: u8,
    dir: bool,
    delete: bool,
    noise: u8,
    multicall: bool,
    /// none, or (which item, kind)
    fault: Option<(u8, u8)>,
}

const DIRS: [&str; 10] = ["game", "game.v1", "My Game", "a.iso", "x.y.z", "GAME", ".hid", "d-c", "e.image", "f.1.2.345678"];
const IMGS: [&str; 11] = ["g.iso", "game.v1.iso", "My Game.iso", "noext", "x.old.iso", "G.XISO", "d-c.iso", "q.img", "e.image", "f.1.2.345678", ".hid"];

fn tagged(t: &Tree, i: usize) -> Tree {
    let mut t = t.clone();
    t.0.truncate(6);
    // nothing in common between the images of a case
    for (j, e) in t.0.iter_mut().enumerate() {
        e.name = format!("{}{i}{j}", gen::clamp_name(&e.name, true).chars().take(60).collect::<String>());
    }
    t
}

fn tree_of(p: &HostPath, what: &str) -> Result<Flat, String> {
    let b = std::fs::read(p).map_err(|e| format!("{what}: {p:?}: {e}"))?;
    reader::extract(&b).map_err(|e| format!("{what}: {e}"))
}

fn run(k: &Case, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    let n = k.items.len();
    let trees: Vec<Tree> = k.items.iter().enumerate().map(|(i, x)| tagged(&x.tree, i)).collect();
    let flats: Vec<Flat> = trees.iter().map(|t| t.flat()).collect();
    cx.nontrivial(n >= 2 && trees.iter().all(|t| t.list().len() >= 2));
    // the flags before the mode
    let mut pre: Vec<String> = vec![];
    for (b, f) in [(1, "-m"), (2, "-q"), (4, "-s"), (8, "-Q")] {
        if k.noise & b != 0 {
            pre.push(f.into());
        }
    }
    let (mut r, mut head) = (Run::default(), vec!["extract-xiso".to_string()]);
    if k.multicall {
        let link = d.join("bin");
        std::fs::create_dir(&link).map_err(e2s)?;
        std::os::unix::fs::symlink(cli::xdvdfs(), link.join("extract-xiso")).map_err(e2s)?;
        r.exe = Some(link.join("extract-xiso"));
        head.clear();
        cx.label("called as extract-xiso");
    }
    let fault = k.fault.map(|(i, f)| (i as usize % n, f));
    if let Some((_, f)) = fault {
        cx.label(&format!("fault {f}"));
    }
    let w = d.join("w");
    std::fs::create_dir(&w).map_err(e2s)?;
    let call = |args: Vec<String>, r: &Run| {
        let mut a = head.clone();
        a.extend(args);
        (format!("{a:?}"), cli::run_with(&w, &a, r))
    };
    match k.mode {
        0..=2 => {
            // names are made distinct by a folder each
            let mut args = pre.clone();
            let mut outs: Vec<PathBuf> = vec![];
            for (i, x) in k.items.iter().enumerate() {
                let name = DIRS[x.name as usize % DIRS.len()];
                let host = w.join(format!("s{i}")).join(name);
                host_tree(&host, &trees[i]);
                let spelled = match x.spell % 4 {
                    0 => format!("s{i}/{name}"),
                    1 => format!("s{i}/{name}/"),
                    2 => format!("./s{i}/../s{i}/{name}"),
                    _ => host.display().to_string(),
                };
                args.push("-c".into());
                args.push(spelled);
                match x.file % 4 {
                    0 | 1 => outs.push(w.join(format!("s{i}/{name}.iso"))),
                    2 => {
                        args.push(format!("out{i}.xiso"));
                        outs.push(w.join(format!("out{i}.xiso")));
                    }
                    _ => {
                        // an existing, longer file
                        std::fs::write(w.join(format!("s{i}/old")), vec![7u8; 1 << 20]).map_err(e2s)?;
                        args.push(format!("s{i}/old"));
                        outs.push(w.join(format!("s{i}/old")));
                    }
                }
            }
            let mut bad = n;
            if let Some((i, f)) = fault {
                bad = i;
                let host = w.join(format!("s{i}")).join(DIRS[k.items[i].name as usize % DIRS.len()]);
                match f {
                    0 => std::fs::remove_dir_all(&host).map_err(e2s)?,
                    1 => {
                        std::fs::remove_dir_all(&host).map_err(e2s)?;
                        std::fs::write(&host, b"file").map_err(e2s)?;
                    }
                    _ => {
                        r.fsize = Some(70_000);
                        bad = 0;
                    }
                }
            }
            cx.label(if n > 1 { "several images created" } else { "one image created" });
            let before = cli::names(&w)?;
            let (what, o) = call(args, &r);
            if fault.is_some() {
                o.failure(&what)?;
            } else {
                o.success(&what)?;
            }
            for i in 0..bad {
                ensure!(outs[i].is_file(), "{what}: there is no image {:?}", outs[i]);
                same(&flats[i], &tree_of(&outs[i], &what)?, &format!("{what}: image {i}"))?;
                cx.evals(1);
            }
            if fault.is_none() && k.noise & 1 == 0 {
                // a directory is missing
                let mut a = pre.clone();
                a.extend(["-c".to_string(), format!("s0/{}", DIRS[k.items[0].name as usize % DIRS.len()])]);
                if k.items[0].file % 4 == 2 {
                    a.push("out0.xiso".into());
                }
                a.push("-c".into());
                let (what, o) = call(a, &r);
                o.failure(&what)?;
            }
            if fault.is_none() {
                // nothing else appears, and the same bytes as pack writes
                let mut want = before;
                want.extend(outs.iter().map(|o| o.strip_prefix(&w).unwrap().display().to_string()));
                want.sort();
                want.dedup();
                let got = cli::names(&w)?;
                ensure!(got == want, "{what}: expected the files {want:?}, there are {got:?}");
                for (i, x) in k.items.iter().enumerate() {
                    let _ = std::fs::remove_file(w.join("plain.iso"));
                    cli::run(&w, &["pack", &format!("s{i}/{}", DIRS[x.name as usize % DIRS.len()]), "plain.iso"]).success("pack")?;
                    ensure!(std::fs::read(&outs[i]).map_err(e2s)? == std::fs::read(w.join("plain.iso")).map_err(e2s)?, "{what}: image {i} is not what pack writes");
                }
            }
            Ok(())
        }
        m => {
            let mut paths = vec![];
            let mut orig = vec![];
            for (i, x) in k.items.iter().enumerate() {
                let name = IMGS[x.name as usize % IMGS.len()];
                std::fs::create_dir(w.join(format!("s{i}"))).map_err(e2s)?;
                // big offsets make sparse files; one of them is enough
                let base = if i == 0 { OFFSETS[x.offset as usize % 4] } else { 0 };
                let p = w.join(format!("s{i}/{name}"));
                let img = build_checked(&trees[i], &x.lay);
                Medium { image: Arc::new(img), base, tail: 50, surround: 9, far: None }.to_file(&p).map_err(e2s)?;
                cx.label_if(base > 0, "at an offset");
                orig.push((base == 0).then(|| std::fs::read(&p).unwrap()));
                paths.push((
                    p.clone(),
                    match x.spell % 3 {
                        0 => format!("s{i}/{name}"),
                        1 => format!("./s{i}/../s{i}/{name}"),
                        _ => p.display().to_string(),
                    },
                    name,
                ));
            }
            let mut bad = n;
            if let Some((i, f)) = fault {
                bad = i;
                match f {
                    0 => std::fs::remove_file(&paths[i].0).map_err(e2s)?,
                    1 => {
                        std::fs::write(&paths[i].0, vec![3u8; 90_000]).map_err(e2s)?;
                        orig[i] = Some(vec![3u8; 90_000]);
                    }
                    _ => {}
                }
            }
            let imgs: Vec<String> = paths.iter().map(|p| p.1.clone()).collect();
            let mut args = pre.clone();
            match m {
                3 => {
                    args.push("-l".into());
                    args.extend(imgs.clone());
                    cx.label("list");
                    let (what, o) = call(args, &r);
                    let bad = if matches!(fault, Some((_, 0 | 1))) { bad } else { n };
                    let o = if bad < n { o.failure(&what)? } else { o.success(&what)? };
                    let mut want = vec![];
                    for p in &imgs[..bad] {
                        want.extend(cli::run(&w, &["tree", p]).success("tree")?.stdout);
                    }
                    ensure!(o.stdout == want, "{what}: expected {:?}, printed {:?}", String::from_utf8_lossy(&want), o.out());
                    cx.evals(bad as u64);
                    Ok(())
                }
                4 | 5 => {
                    if k.dir {
                        args.extend(["-d".into(), "dest".into()]);
                    }
                    if m == 4 {
                        args.push("-x".into());
                    } else {
                        cx.label("default mode");
                    }
                    args.extend(imgs.clone());
                    cx.label(if k.dir { "extract into a directory" } else { "extract to the default place" });
                    let bad = if matches!(fault, Some((_, 0 | 1))) { bad } else { n };
                    // images of the same name would unpack to the same place
                    let stem = |p: &str| HostPath::new(p).file_stem().unwrap().to_string_lossy().into_owned();
                    // without a directory, and an extension, the destination is the name of the image, in the current directory
                    let mut stems: Vec<String> = paths.iter().map(|p| stem(p.2)).collect();
                    stems.sort();
                    stems.dedup();
                    if !k.dir && stems.len() < n {
                        cx.label("same names, not run");
                        return Ok(());
                    }
                    let (what, o) = call(args, &r);
                    if bad < n {
                        o.failure(&what)?;
                    } else {
                        o.success(&what)?;
                    }
                    if k.dir {
                        let mut all = Flat::new();
                        for f in &flats[..bad] {
                            all.extend(f.clone());
                        }
                        if w.join("dest").exists() || bad > 0 {
                            same(&all, &cli::read_tree(&w.join("dest"))?, &what)?;
                        }
                    } else {
                        for i in 0..bad {
                            same(&flats[i], &cli::read_tree(&w.join(stem(paths[i].2)))?, &format!("{what}: image {i}"))?;
                        }
                    }
                    cx.evals(bad as u64);
                    for i in 0..n {
                        if let (Some(b), true) = (&orig[i], paths[i].0.exists()) {
                            ensure!(&std::fs::read(&paths[i].0).map_err(e2s)? == b, "{what}: image {i} changed");
                        }
                    }
                    Ok(())
                }
                _ => {
                    cx.label("rewrite");
                    let dest = |i: usize| if k.dir { w.join("dest").join(paths[i].2) } else { paths[i].0.clone() };
                    let old = |i: usize| paths[i].0.with_extension("old");
                    if k.dir {
                        args.extend(["-d".into(), "dest".into()]);
                        std::fs::create_dir(w.join("dest")).map_err(e2s)?;
                        let mut names: Vec<_> = paths.iter().map(|p| p.2).collect();
                        names.sort();
                        names.dedup();
                        if names.len() < n {
                            cx.label("same names, not run");
                            return Ok(());
                        }
                        cx.label("rewrite into a directory");
                    }
                    if k.delete {
                        args.push("-D".into());
                        cx.label("original deleted on request");
                    }
                    match fault {
                        Some((i, 2)) => std::fs::write(old(i), b"precious").map_err(e2s)?,
                        Some((_, 3)) => {
                            r.fsize = Some(70_000);
                            bad = 0;
                        }
                        _ => {}
                    }
                    args.push("-r".into());
                    args.extend(imgs);
                    // what pack makes of the images
                    let mut packed = vec![];
                    for (i, p) in paths.iter().enumerate() {
                        if i < bad {
                            cli::run(&w, &["pack", &p.1, "plain.iso"]).success("pack")?;
                            packed.push(std::fs::read(w.join("plain.iso")).map_err(e2s)?);
                            std::fs::remove_file(w.join("plain.iso")).map_err(e2s)?;
                        }
                    }
                    let (what, o) = call(args, &r);
                    if fault.is_some() {
                        o.failure(&what)?;
                    } else {
                        o.success(&what)?;
                    }
                    for i in 0..bad {
                        same(&flats[i], &tree_of(&dest(i), &what)?, &format!("{what}: image {i}"))?;
                        ensure!(std::fs::read(dest(i)).map_err(e2s)? == packed[i], "{what}: image {i} is not what pack makes of the original");
                        ensure!(old(i).exists() != k.delete, "{what}: {:?} {}", old(i), if k.delete { "still exists" } else { "does not exist" });
                        if k.dir {
                            ensure!(!paths[i].0.exists(), "{what}: the original is still at {:?}", paths[i].0);
                        }
                        if let (Some(b), false) = (&orig[i], k.delete) {
                            ensure!(&std::fs::read(old(i)).map_err(e2s)? == b, "{what}: {:?} is not the original", old(i));
                        }
                        cx.evals(1);
                    }
                    // whatever failed or was not reached is still there
                    for i in bad..n {
                        let Some(b) = &orig[i] else { continue };
                        if fault == Some((i, 0)) {
                            continue;
                        }
                        let at = |p: PathBuf| std::fs::read(p).is_ok_and(|x| &x == b);
                        ensure!(at(old(i)) || at(paths[i].0.clone()), "{what}: it failed, and image {i} is gone");
                        let touched = fault.is_some_and(|f| i == if f.1 == 3 { 0 } else { f.0 });
                        ensure!(touched || at(paths[i].0.clone()), "{what}: image {i} was never reached and has changed");
                    }
                    if let Some((i, 2)) = fault {
                        ensure!(std::fs::read(old(i)).map_err(e2s)? == b"precious", "{what}: the file {:?} was overwritten", old(i));
                    }
                    Ok(())
                }
            }
        }
    }
}

fn main() {
    let mut c = Check::new(
        "C25",
        "exploration",
        "A case is one to three trees, as directories or as bare or embedded images, and a command line of extract-xiso mode: -c
         repeated with and without an output, -l, -x, the default mode, -r; -d, -D, flags without effect in front, called as
         `xdvdfs extract-xiso` or through a link of that name, paths in several spellings. Some cases contain a fault: a missing or
         malformed input, an .old file in the way, a file size limit. The files afterwards have to be those the options describe:
         images by an independent reader and equal to those of `pack`, listings equal to those of `tree`, originals kept or deleted; a
         fault has to be an error, and no original may be lost by it. Non-trivial: at least two inputs with at least two entries each.",
    );
    c.assume("inputs of one command do not share destinations (the last one would win)");
    let case = |o: Opts| {
        (
            proptest::collection::vec((gen::tree(o), gen::layout(), 0u8..4, 0u8..110, 0u8..4, 0u8..12).prop_map(|(tree, lay, offset, name, file, spell)| Item { tree, lay, offset, name, file, spell }), 1..4),
            0u8..9,
            any::<bool>(),
            any::<bool>(),
            prop_oneof![2 => Just(0u8), 1 => 0u8..16],
            any::<bool>(),
            proptest::option::weighted(0.3, (any::<u8>(), 0u8..4)),
        )
            .prop_map(|(items, mode, dir, delete, noise, multicall, fault)| {
                // faults that mean nothing to a mode are left out
                let fault = fault.filter(|f| match mode {
                    0..=2 => f.1 < 3,
                    3..=5 => f.1 < 2,
                    _ => true,
                });
                Case { items, mode, dir, delete, noise, multicall, fault }
            })
            .boxed()
    };
    c.part("commands", 800, 15000, || case(Opts { host: true, bulk: false, max_entries: 8, ..Opts::default() }), run);
    c.finish();
}
