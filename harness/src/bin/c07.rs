//! C07: path remapping maps exactly what the rules say.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use wax::Pattern;
use xdvdfs::write::fs::{RemapOverlayConfig, RemapOverlayFilesystem, StdFilesystem};
use xdvdfs::write::img::create_xdvdfs_image;
use xv::devs::MemDev;
use xv::memfs::{comps, MemFs};
use xv::ops::*;
use xv::rules::{g, rule, tree};
use xv::runner::*;
use xv::tree::*;
use xv::{blk, cli, content, ensure, reader};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    rules: Vec<(String, String)>,
    how: u8,
}

#[derive(Debug)]
enum Want {
    /// the image's entries, and host -> image for the mapped files
    Map(Flat, BTreeSet<(Path, Path)>),
    /// several files claim one place, or a file a directory's: unspecified
    Conflict,
    /// ill-formed glob or substitution
    Reject,
    /// two names of one directory differ in case only: not representable
    CaseClash,
}

/// Some(Ok): the text; Some(Err): must be rejected; None: unspecified.
fn subst(t: &str, get: &dyn Fn(usize) -> Option<String>) -> Option<Result<String, ()>> {
    let mut out = String::new();
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '}' => return None,
            '{' => {
                let mut n: u128 = 0;
                let mut digits = 0;
                loop {
                    match it.next() {
                        None => return Some(Err(())),
                        Some('}') => break,
                        Some('{') => return None,
                        Some(d) if d.is_ascii_digit() => {
                            n = (n * 10 + d.to_digit(10).unwrap() as u128).min(1 << 64);
                            digits += 1;
                        }
                        Some(_) => return Some(Err(())),
                    }
                }
                if digits == 0 {
                    return None;
                }
                if n < 1 << 32 {
                    out.push_str(&get(n as usize).unwrap_or_default());
                }
            }
            c => out.push(c),
        }
    }
    Some(Ok(out))
}

fn model(t: &Tree, rules: &[(String, String)]) -> Option<Want> {
    let globs: Result<Vec<wax::Glob>, _> = rules.iter().map(|(g, _)| wax::Glob::new(g.trim_start_matches('!'))).collect();
    let Ok(globs) = globs else { return Some(Want::Reject) };
    if wax::any(globs.clone()).is_err() {
        return Some(Want::Reject);
    }
    let matches = |p: &[String]| globs.iter().any(|g| g.is_match(p.join("/").as_str()));
    let mut mapped: BTreeMap<Path, Vec<(Path, bool)>> = BTreeMap::new();
    let mut odd = false;
    for (path, is_dir, _, _) in t.list() {
        let Some(n) = (1..=path.len()).rev().find(|&n| matches(&path[..n])) else { continue };
        let prefix = path[..n].join("/");
        let cand = wax::CandidatePath::from(prefix.as_str());
        let mut cur: Option<String> = None;
        for (i, g) in globs.iter().enumerate() {
            let Some(m) = g.matched(&cand) else { continue };
            if rules[i].0.starts_with('!') {
                cur = None;
                continue;
            }
            if cur.is_some() {
                continue;
            }
            match subst(&rules[i].1, &|k| m.get(k).map(|s| s.to_string())) {
                None => return None,
                Some(Err(())) => return Some(Want::Reject),
                Some(Ok(s)) => cur = Some(s),
            }
        }
        let Some(rw) = cur else { continue };
        let mut to: Path = rw.split('/').filter(|c| !c.is_empty()).map(|s| s.to_string()).collect();
        to.extend(path[n..].iter().cloned());
        while to.first().is_some_and(|c| c == "." || c == "..") {
            to.remove(0);
        }
        if to.iter().any(|c| c == "." || c == "..") {
            return None;
        }
        if to.is_empty() {
            // a file cannot be the root; a directory there just lends its contents
            odd |= !is_dir;
            continue;
        }
        mapped.entry(to).or_default().push((path.clone(), is_dir));
    }
    if odd {
        return None;
    }
    let mut flat = Flat::new();
    let mut files = BTreeSet::new();
    let mut conflict = false;
    for (to, from) in &mapped {
        let nfiles = from.iter().filter(|f| !f.1).count();
        conflict |= nfiles > 1 || (nfiles == 1 && from.len() > 1);
        for k in 1..to.len() {
            flat.insert(to[..k].to_vec(), Item::Dir);
        }
    }
    for (to, from) in &mapped {
        for (p, is_dir) in from {
            if *is_dir {
                flat.insert(to.clone(), Item::Dir);
            } else {
                if flat.get(to).is_some() {
                    conflict = true;
                }
                let Some(Node::File { len, seed }) = t.find(p) else { unreachable!() };
                flat.insert(to.clone(), Item::File(content::bytes(*seed, *len)));
                files.insert((p.clone(), to.clone()));
            }
        }
    }
    if conflict {
        return Some(Want::Conflict);
    }
    let mut seen: BTreeSet<Path> = BTreeSet::new();
    for p in flat.keys() {
        let mut q = p.clone();
        let l = q.pop().unwrap();
        q.push(upper(&l));
        if !seen.insert(q) {
            return Some(Want::CaseClash);
        }
    }
    Some(Want::Map(flat, files))
}

fn case(host: bool) -> BoxedStrategy<Case> {
    // a rule that comes again, maybe after its opposite
    let again = proptest::option::weighted(0.15, (any::<u8>(), any::<bool>()));
    (tree(host), prop_oneof![9 => proptest::collection::vec(g(), 1..5), 1 => proptest::collection::vec(g(), 5..16)], any::<u8>(), again)
        .prop_map(|(tree, gs, how, again)| {
            let mut rules: Vec<(String, String)> = gs.iter().map(|g| rule(&tree, g)).collect();
            if let Some((i, neg)) = again {
                let r = rules[i as usize % rules.len()].clone();
                if neg && !r.0.starts_with('!') {
                    rules.push((format!("!{}", r.0), String::new()));
                }
                rules.push(r);
            }
            Case { tree, rules, how }
        })
        .boxed()
}

fn tags(w: &Option<Want>, k: &Case, cx: &mut Cx) {
    match w {
        Some(Want::Map(f, files)) => {
            let all = k.tree.list().iter().filter(|e| !e.1).count();
            cx.nontrivial(!files.is_empty() && f.len() >= 2 && (files.len() < all || k.rules.len() > 1));
            cx.label("mapped");
            cx.label_if(files.len() < all && !files.is_empty(), "some files left out");
            cx.label_if(k.rules.iter().any(|r| r.0.starts_with('!')) && !files.is_empty(), "negative rule");
            cx.label_if(files.iter().any(|(a, b)| a != b), "renamed");
            cx.label_if(files.is_empty(), "nothing mapped");
        }
        Some(Want::Conflict) => cx.label("conflict"),
        Some(Want::Reject) => cx.label("ill-formed"),
        Some(Want::CaseClash) => cx.label("case clash"),
        None => cx.label("unspecified"),
    }
}

fn judge_files(files: &BTreeSet<(Path, Path)>, dump: Vec<(Path, Path)>, t: &Tree, what: &str) -> Outcome {
    let mut got = BTreeSet::new();
    for (h, i) in dump {
        match t.find(&h) {
            None => return Err(format!("{what}: {h:?} is not a host path")),
            Some(Node::Dir(_)) => {}
            Some(_) => ensure!(got.insert((h.clone(), i)), "{what}: {h:?} is listed twice"),
        }
    }
    if let Some(x) = files.difference(&got).next() {
        return Err(format!("{what}: {x:?} is missing"));
    }
    if let Some(x) = got.difference(files).next() {
        return Err(format!("{what}: {x:?} is not what the rules say"));
    }
    Ok(())
}

fn library(k: &Case, cx: &mut Cx) -> Outcome {
    let w = model(&k.tree, &k.rules);
    tags(&w, k, cx);
    let cfg = RemapOverlayConfig { map_rules: k.rules.clone() };
    let built: Result<(Vec<(Path, Path)>, Result<Vec<u8>, String>), String> = if k.how % 4 == 0 {
        let d = cx.scratch();
        host_tree(&d.join("s"), &k.tree);
        match blk!(RemapOverlayFilesystem::new(StdFilesystem::create(&d.join("s")), cfg)) {
            Err(e) => Err(format!("{e:?}")),
            Ok(mut fs) => {
                let dump = fs.dump().into_iter().map(|(a, b)| (comps(&a), comps(&b))).collect();
                let mut dev = xv::devs::IoMem::default();
                let r = blk!(create_xdvdfs_image(&mut fs, &mut dev, |_| {}));
                Ok((dump, r.map(|_| dev.data).map_err(|e| format!("{e:?}"))))
            }
        }
    } else {
        match blk!(RemapOverlayFilesystem::new(MemFs::new(&k.tree), cfg)) {
            Err(e) => Err(format!("{e:?}")),
            Ok(mut fs) => {
                let dump = fs.dump().into_iter().map(|(a, b)| (comps(&a), comps(&b))).collect();
                let mut dev = MemDev::default();
                let r = blk!(create_xdvdfs_image(&mut fs, &mut dev, |_| {}));
                Ok((dump, r.map(|_| dev.data).map_err(|e| format!("{e:?}"))))
            }
        }
    };
    match w {
        None | Some(Want::Conflict) => Ok(()),
        Some(Want::Reject) => {
            ensure!(built.is_err(), "ill-formed rules were accepted");
            Ok(())
        }
        Some(Want::CaseClash) => match built {
            Ok((_, Ok(_))) => Err("names that differ in case only were packed into one directory".into()),
            _ => Ok(()),
        },
        Some(Want::Map(flat, files)) => {
            let (dump, img) = built.map_err(|e| format!("the rules were rejected: {e}"))?;
            judge_files(&files, dump, &k.tree, "mapping dump")?;
            let img = img.map_err(|e| format!("packing failed: {e}"))?;
            same(&flat, &reader::extract(&img)?, "image built through the rules")
        }
    }
}

fn cli_case(k: &Case, cx: &mut Cx) -> Outcome {
    let w = model(&k.tree, &k.rules);
    // on the command line a rule is split at ':'
    if k.rules.iter().any(|(a, b)| a.contains(':') || b.contains(':') || a.starts_with('-')) {
        cx.label("not expressible as a flag");
        return Ok(());
    }
    tags(&w, k, cx);
    let d = cx.scratch();
    host_tree(&d.join("s"), &k.tree);
    let mut flags: Vec<String> = vec![];
    for (a, b) in &k.rules {
        flags.push("-m".into());
        if a.starts_with('!') && b.is_empty() {
            flags.push(a.clone());
        } else {
            flags.push(format!("{a}:{b}"));
        }
    }
    let with = |pre: &[&str], fl: &[String], post: &[&str]| -> Vec<String> {
        let mut v: Vec<String> = pre.iter().map(|s| s.to_string()).collect();
        v.extend(fl.iter().cloned());
        v.extend(post.iter().map(|s| s.to_string()));
        v
    };
    let host_before = cli::read_tree(&d.join("s"))?;
    let dry = cli::run(&d, &with(&["build-image", "-D"], &flags, &["s"]));
    dry.sane().map_err(|e| format!("dry run: {e}"))?;
    let by_flags = cli::run(&d, &with(&["build-image"], &flags, &["s", "f.iso"]));
    by_flags.sane().map_err(|e| format!("build-image: {e}"))?;
    ensure!(cli::read_tree(&d.join("s"))? == host_before, "building changed the source");
    let fresh = std::fs::read(d.join("f.iso")).ok();
    if let (Some(f), true) = (&fresh, k.how % 3 == 0) {
        cx.label("over a longer file");
        cli::stale(&d.join("o.iso"), f.len());
    }
    // the output option names a file relative to the source
    let spec = cli::run(&d, &with(&["image-spec", "from", "-O", "../o.iso"], &flags, &["spec.toml"]));
    spec.sane().map_err(|e| format!("image-spec: {e}"))?;
    let dup = (0..k.rules.len()).any(|i| (0..i).any(|j| k.rules[i].0 == k.rules[j].0));
    let by_spec = if spec.ok() {
        let r = if k.how % 2 == 0 {
            cli::run(&d, &["build-image", "-f", "spec.toml", "s"])
        } else {
            cli::run(&d, &["build-image", "-f", "spec.toml", "s", "o.iso"])
        };
        r.sane().map_err(|e| format!("build-image from a spec: {e}"))?;
        Some(r)
    } else {
        ensure!(dup, "image-spec failed: {}", spec.err().trim());
        None
    };
    cx.evals(3);
    match w {
        None | Some(Want::Conflict) => {}
        Some(Want::Reject) => {
            ensure!(!dry.ok(), "ill-formed rules were accepted in a dry run");
            ensure!(!by_flags.ok(), "ill-formed rules were accepted");
            ensure!(by_spec.is_none_or(|r| !r.ok()), "ill-formed rules were accepted from a spec");
        }
        Some(Want::CaseClash) => ensure!(!by_flags.ok(), "names that differ in case only were packed into one directory"),
        Some(Want::Map(flat, files)) => {
            let dry = dry.success("dry run")?;
            let mut dump = vec![];
            for l in dry.out().lines() {
                let Some((a, b)) = l.split_once(" -> ") else { return Err(format!("dry run prints {l:?}")) };
                let c = |s: &str| -> Path { s.split('/').filter(|c| !c.is_empty()).map(|s| s.to_string()).collect() };
                dump.push((c(a), c(b)));
            }
            judge_files(&files, dump, &k.tree, "dry run")?;
            by_flags.success("build-image")?;
            let img = std::fs::read(d.join("f.iso")).map_err(|e| format!("no image: {e}"))?;
            same(&flat, &reader::extract(&img)?, "image built from flags")?;
            if let Some(r) = by_spec {
                r.success("build-image from a spec")?;
                let img = std::fs::read(d.join("o.iso")).map_err(|e| format!("no image at the spec's output path: {e}"))?;
                same(&flat, &reader::extract(&img)?, "image built from a spec")?;
                ensure!(fresh.is_none_or(|f| f.len() == img.len()), "the image built over a longer file has another length than the one built to a new file");
            }
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::new(
        "C07",
        "exploration",
        "A case is a host tree over a small alphabet of names (so that globs match), and one to four (now and then up to seventeen) map rules whose globs are
         generalisations of paths of the tree, stock globs or malformed ones, with rewrites that use captures. A separate model
         (sharing only the glob library) computes the image; the library and the command line (flags, generated spec, dry run)
         must produce exactly it, or reject ill-formed rules. Non-trivial: at least one file is mapped, and either some file is
         left out or several rules interact.",
    );
    c.assume("the wax crate decides what a glob matches and captures; rules that map two files to one place are only required not to panic");
    c.part("library", 60000, 1500000, || case(false), library);
    c.part("cli", 1500, 12000, || case(true), cli_case);
    c.finish();
}
