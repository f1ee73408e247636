//! C19: sources survive every operation.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use xv::builder::{build_checked, Layout};
use xv::cli::{self, Run};
use xv::content::mix;
use xv::gen::{self, Opts};
use xv::ops::*;
use xv::runner::*;
use xv::tree::*;
use xv::{cso, ensure, reader};

#[derive(Clone, Debug, PartialEq)]
enum Thing {
    Dir,
    File(Vec<u8>),
    Link(PathBuf),
}
type Snap = BTreeMap<String, Thing>;

fn snap(dir: &Path) -> Result<Snap, String> {
    fn rec(dir: &Path, pre: &str, out: &mut Snap) -> Result<(), String> {
        for e in std::fs::read_dir(dir).map_err(|e| format!("{dir:?}: {e}"))? {
            let e = e.map_err(e2s)?;
            let n = format!("{pre}{}", e.file_name().to_string_lossy());
            let t = e.file_type().map_err(e2s)?;
            let v = if t.is_dir() {
                rec(&e.path(), &format!("{n}/"), out)?;
                Thing::Dir
            } else if t.is_symlink() {
                Thing::Link(std::fs::read_link(e.path()).map_err(e2s)?)
            } else {
                Thing::File(std::fs::read(e.path()).map_err(e2s)?)
            };
            out.insert(n, v);
        }
        Ok(())
    }
    let mut out = Snap::new();
    rec(dir, "", &mut out)?;
    Ok(out)
}

/// The first difference between snapshots, not counting what `skip` accepts.
fn changed(a: &Snap, b: &Snap, skip: &dyn Fn(&str) -> bool) -> Option<String> {
    for (n, v) in a {
        if skip(n) {
            continue;
        }
        match b.get(n) {
            None => return Some(format!("{n} is gone")),
            Some(w) if w == v => {}
            Some(Thing::File(w)) => {
                let Thing::File(v) = v else { return Some(format!("{n} became a file")) };
                return Some(format!("{n} changed ({} bytes, before {})", w.len(), v.len()));
            }
            Some(_) => return Some(format!("{n} changed its type or target")),
        }
    }
    b.keys().find(|n| !skip(n) && !a.contains_key(*n)).map(|n| format!("{n} was created"))
}

/// A way to write a path: decorations per component.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spell {
    absolute: bool,
    link: bool,
    bits: u64,
    slash: bool,
}
fn spell() -> BoxedStrategy<Spell> {
    (proptest::bool::weighted(0.3), proptest::bool::weighted(0.35), prop_oneof![3 => Just(0u64), 5 => any::<u64>(), 2 => (0u32..20).prop_map(|b| 1 << b)], proptest::bool::weighted(0.2))
        .prop_map(|(absolute, link, bits, slash)| Spell { absolute, link, bits, slash })
        .boxed()
}

/// Working directories inside the scratch directory
const CWDS: [&str; 7] = ["", "", "", "deep", "src", "src/zsub~", "out"];

impl Spell {
    /// Spell the path `p` (relative to the scratch directory `r`) as seen from `cwd`.
    fn write(&self, r: &Path, cwd: &str, p: &str, dir: bool) -> String {
        let mut p = p.to_string();
        if self.link {
            if let Some(rest) = p.strip_prefix("src/zsub~") {
                if (rest.is_empty() || rest.starts_with('/')) && self.bits & (1 << 40) == 0 {
                    p = format!("deep/ln2{rest}");
                }
            }
            if p == "src" || p.starts_with("src/") {
                p = format!("{}{}", if self.bits & (1 << 41) == 0 { "ln" } else { "deep/ln3" }, &p[3..]);
            } else if p == "src.iso" {
                p = ["f.ln", "deep/fd.iso", "fabs.iso"][(self.bits >> 42) as usize % 3].into();
            }
        }
        let mut out = String::new();
        if self.absolute {
            out += r.to_str().unwrap();
            out += "/";
        } else {
            for _ in cwd.split('/').filter(|c| !c.is_empty()) {
                out += "../";
            }
        }
        let comps: Vec<&str> = p.split('/').collect();
        for (i, c) in comps.iter().enumerate() {
            let b = mix(self.bits ^ i as u64 * 77) | 1 << 63;
            if self.bits != 0 {
                if i == 0 {
                    match b % 7 {
                        0 => out += "here/",
                        1 => out += "deep/../",
                        2 => out += "src2/.././",
                        3 => out += "here/here/out/../",
                        4 => out += "ln/../",
                        _ => {}
                    }
                } else if b % 3 == 0 {
                    out += "./";
                }
                if b % 5 == 0 {
                    out += "/";
                }
                if out == "/" {
                    out = String::new();
                }
            }
            out += c;
            if i + 1 < comps.len() {
                out += "/";
            }
        }
        if dir && self.slash {
            out += if self.bits % 2 == 0 { "/" } else { "/." };
        }
        out
    }
}

struct World {
    r: PathBuf,
    want: Flat,
}

fn link(to: &str, at: PathBuf) -> Result<(), String> {
    std::os::unix::fs::symlink(to, at).map_err(e2s)
}

/// A scratch directory with a source directory, source images, and aliases of them.
fn world(k: &Tree, lay: &Layout, cx: &Cx) -> Result<World, String> {
    let r = cx.scratch().canonicalize().map_err(e2s)?;
    let mut t = k.clone();
    t.0.retain(|e| !e.name.eq_ignore_ascii_case("zsub~") && !e.name.eq_ignore_ascii_case("new.iso") && !e.name.eq_ignore_ascii_case("zf.iso"));
    let f = |n: &str, len| Entry { name: n.into(), node: Node::File { len, seed: 9 } };
    t.0.push(Entry { name: "zsub~".into(), node: Node::Dir(vec![f("inner", 3000), f("i.iso", 5)]) });
    t.0.push(f("zf.iso", 70));
    host_tree(&r.join("src"), &t);
    let img = build_checked(&t, lay);
    std::fs::write(r.join("src.iso"), &img).map_err(e2s)?;
    std::fs::write(r.join("g.1.cso"), &img).map_err(e2s)?;
    for d in ["src2", "out", "deep"] {
        std::fs::create_dir(r.join(d)).map_err(e2s)?;
    }
    std::fs::write(r.join("src2/keep"), b"keep").map_err(e2s)?;
    link("src", r.join("ln"))?;
    link(".", r.join("here"))?;
    link("../src/zsub~", r.join("deep/ln2"))?;
    link("../ln", r.join("deep/ln3"))?;
    link("src.iso", r.join("f.ln"))?;
    link("../f.ln", r.join("deep/fd.iso"))?;
    link(r.join("src.iso").to_str().unwrap(), r.join("fabs.iso"))?;
    Ok(World { want: t.flat(), r })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    cmd: u8,
    dest: u8,
    exists: bool,
    cwd: u8,
    from: Spell,
    to: Spell,
    default: bool,
    /// build-image: how the output is given (argument, -O, a specification)
    #[serde(default)]
    via: u8,
}

const COMMANDS: [&str; 7] = ["pack directory", "pack image", "compress directory", "compress image", "extract-xiso create", "build-image", "compress image named like an output"];

/// Whether a produced file holds the source's tree.
fn holds(path: &Path, want: &Flat, what: &str) -> Result<(), String> {
    let data = std::fs::read(path).map_err(|e| format!("{what}: no output at {path:?}: {e}"))?;
    let img = if path.extension().is_some_and(|e| e == "cso") { cso::decode(&data).map_err(|e| format!("{what}: {e}"))?.image } else { data };
    same(want, &reader::extract(&img).map_err(|e| format!("{what}: {e}"))?, what)
}

fn run(k: &Case, cx: &mut Cx) -> Outcome {
    let w = world(&k.tree, &k.lay, cx)?;
    let r = &w.r;
    let cwd = CWDS[k.cwd as usize % CWDS.len()];
    let src = ["src", "src.iso", "src", "src.iso", "src", "src", "g.1.cso"][k.cmd as usize];
    let isdir = src == "src";
    let compress = matches!(k.cmd, 2 | 3 | 6);
    let from = k.from.write(r, cwd, src, isdir);
    // the destination: (path given, the file it produces, whether it has to be refused)
    let ext = if compress { "cso" } else { "iso" };
    let (to, produced, refused, kind): (Option<String>, String, bool, &str) = if k.default && k.cmd != 5 {
        let p = match k.cmd {
            0 => format!("{cwd}/src.iso"),
            // the default is in the working directory, unless that is the source
            1 if cwd.is_empty() => "src.xiso.iso".into(),
            1 => format!("{cwd}/src.iso"),
            2 | 3 => format!("{cwd}/src.1.cso"),
            4 => "src.iso".into(),
            _ => format!("{cwd}/g.1.1.cso"),
        };
        let p = p.trim_start_matches('/').to_string();
        let refused = (k.cmd == 6 && cwd.is_empty()) || (isdir && p.starts_with("src/"));
        (None, p, refused, "default destination")
    } else {
        let (p, kind): (String, &str) = match k.dest % 12 {
            0 | 1 => (src.into(), "the source"),
            2 => (if k.cmd == 6 { "g.cso" } else { src }.into(), "the source"),
            3 => (if isdir { format!("src/new.{ext}") } else { format!("{src}/new.{ext}") }, "inside the source, new"),
            4 => (if isdir { format!("src/zsub~/new.{ext}") } else { format!("{src}/new.{ext}") }, "inside the source, new"),
            5 if isdir => ("src/zf.iso".into(), "a file of the source"),
            6 if isdir => ("src/zsub~/inner".into(), "a file of the source"),
            7 if isdir => ("src/zsub~/i.iso".into(), "a file of the source"),
            8 => (format!("src2/o.{ext}"), "outside, similar name"),
            9 => (format!("srcx.{ext}"), "outside, similar name"),
            10 => (format!("out/o.{ext}"), "outside"),
            _ => (format!("o.{ext}"), "outside"),
        };
        let inside = p == src || p.starts_with(&format!("{src}/"));
        let mut produced = p.clone();
        if compress {
            produced = Path::new(&p).with_extension("1.cso").to_str().unwrap().into();
        }
        let mut refused = inside || produced == src;
        if k.cmd == 5 {
            // only a file that becomes part of the image is off limits
            refused = matches!(kind, "the source" | "a file of the source");
        }
        // -O and specifications name the output relative to the source
        let cwd = if k.cmd == 5 && k.via % 3 != 0 { "src" } else { cwd };
        (Some(k.to.write(r, cwd, &p, p == "src")), produced, refused, kind)
    };
    if k.exists && !refused && !r.join(&produced).exists() {
        std::fs::write(r.join(&produced), vec![0x77; 150_000]).map_err(e2s)?;
    }
    let guard = |s: &str| if s.starts_with('-') { format!("./{s}") } else { s.to_string() };
    let mut args: Vec<String> = match k.cmd {
        0 | 1 => vec!["pack".into()],
        2 | 3 | 6 => vec!["compress".into()],
        4 => vec!["extract-xiso".into(), "-c".into()],
        _ => vec!["build-image".into(), "-m".into(), "**:/{0}".into()],
    };
    match (k.cmd, k.via % 3, &to) {
        (5, 1, Some(to)) => {
            args.push(format!("--output={to}"));
            args.push(guard(&from));
            cx.label("output by option");
        }
        (5, 2, Some(to)) => {
            let spec = r.join("spec.toml");
            std::fs::write(&spec, format!("[metadata]\noutput = '{to}'\n[map_rules]\n'**' = '/{{0}}'\n")).map_err(e2s)?;
            args.truncate(1);
            args.extend(["-f".into(), spec.to_str().unwrap().into(), guard(&from)]);
            cx.label("output by specification");
        }
        _ => {
            args.push(guard(&from));
            args.extend(to.iter().map(|s| guard(s)));
        }
    }
    cx.label(COMMANDS[k.cmd as usize]);
    cx.label(kind);
    cx.label(if refused { "refused" } else { "allowed" });
    cx.nontrivial(k.from.bits != 0 || k.to.bits != 0 || k.from.link || k.to.link || !cwd.is_empty());
    // an unmapped name in the source directory is part of the source only if it was there before
    if k.cmd == 5 && k.exists && produced.starts_with("src/") && !refused {
        return Ok(()); // the file made above would be mapped
    }
    let before = snap(r)?;
    let what = format!("{args:?} in {cwd:?}");
    let o = cli::run(&r.join(cwd), &args);
    o.sane().map_err(|e| format!("{what}: {e}"))?;
    let after = snap(r)?;
    if refused {
        if let Some(c) = changed(&before, &after, &|_| false) {
            return Err(format!("{what} ({kind}): {c}"));
        }
        o.failure(&format!("{what} ({kind})"))?;
    } else {
        if let Some(c) = changed(&before, &after, &|n| n == produced) {
            return Err(format!("{what} ({kind}, to {produced}): {c}"));
        }
        o.success(&format!("{what} ({kind})"))?;
        holds(&r.join(&produced), &w.want, &what)?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Get {
    tree: Tree,
    lay: Layout,
    cmd: u8,
    cwd: u8,
    from: Spell,
    to: Spell,
    pick: u16,
    bad: u8,
}

/// Commands that read an image, whatever their destination is.
fn get(k: &Get, cx: &mut Cx) -> Outcome {
    let mut t = k.tree.clone();
    // entries that extract to the image itself, through a link to it, or to a file beside it
    let named = ["src.iso", "f.ln", "fabs.iso", "SRC.ISO", "other"][k.bad as usize % 5];
    t.0.retain(|e| !e.name.eq_ignore_ascii_case(named));
    t.0.push(Entry { name: named.into(), node: Node::File { len: [0, 1, 5000][k.pick as usize % 3], seed: 4 } });
    let w = world(&t, &k.lay, cx)?;
    let r = &w.r;
    // only the image matters here: extraction refuses to reuse directories
    std::fs::remove_dir_all(r.join("src")).map_err(e2s)?;
    std::fs::create_dir_all(r.join("src/zsub~")).map_err(e2s)?;
    let cwd = CWDS[k.cwd as usize % CWDS.len()];
    let img = k.from.write(r, cwd, "src.iso", false);
    let files: Vec<xv::tree::Path> = t.list().iter().filter(|e| !e.1).map(|e| e.0.clone()).collect();
    let file = cli::ipath(&files[k.pick as usize % files.len()]);
    let onto = k.to.write(r, cwd, "src.iso", false);
    // Some(true): refused, Some(false): must succeed
    let (args, refused, skip): (Vec<String>, Option<bool>, Option<String>) = match k.cmd {
        0 | 1 => (vec!["copy-out".into(), img, file, onto], Some(true), None),
        2 => {
            let to = k.to.write(r, cwd, "out/x", false) + if k.to.slash { "/" } else { "" };
            (vec!["unpack".into(), img, to], Some(false), Some("out/x".into()))
        }
        3 | 4 => {
            let hit = ["src.iso", "f.ln", "fabs.iso"].contains(&named);
            let to = format!("{}.", if k.to.absolute { format!("{}/", r.display()) } else { "../".repeat(cwd.split('/').filter(|c| !c.is_empty()).count()) });
            let expect = if hit { Some(true) } else { None };
            (if k.cmd == 3 { vec!["unpack".into(), img, to] } else { vec!["extract-xiso".into(), "-d".into(), to, "-x".into(), img] }, expect, Some(String::new()))
        }
        5 => {
            let to = format!("{}.", if k.to.absolute { format!("{}/", r.display()) } else { "../".repeat(cwd.split('/').filter(|c| !c.is_empty()).count()) });
            (vec!["copy-out".into(), img, "/".into(), to], if ["src.iso", "f.ln", "fabs.iso"].contains(&named) { Some(true) } else { None }, Some(String::new()))
        }
        6 => (vec!["ls".into(), img], Some(false), None),
        7 => (vec!["tree".into(), img], Some(false), None),
        8 => (vec!["info".into(), img], Some(false), None),
        9 => (vec!["md5".into(), img], Some(false), None),
        10 => (vec!["checksum".into(), img], Some(false), None),
        _ => (vec!["extract-xiso".into(), "-l".into(), img], Some(false), None),
    };
    cx.label(["copy-out of a file onto the image", "copy-out of a file onto the image", "unpack elsewhere", "unpack beside the image", "extract-xiso -x beside the image", "copy-out of the root beside the image", "ls", "tree", "info", "md5", "checksum", "extract-xiso -l"][k.cmd.min(11) as usize]);
    cx.nontrivial(t.list().len() > 2);
    let before = snap(r)?;
    let o = cli::run(&r.join(cwd), &args);
    o.sane().map_err(|e| format!("{args:?}: {e}"))?;
    let after = snap(r)?;
    let what = format!("{args:?} in {cwd:?}");
    match &skip {
        // entries appear beside the image; what was there and is not an entry stays
        Some(s) if s.is_empty() => {
            for f in ["src.iso", "g.1.cso"] {
                ensure!(f == "g.1.cso" && t.find(&["g.1.cso".into()]).is_some() || before.get(f) == after.get(f), "{what}: {f} changed");
            }
        }
        s => {
            let s = s.clone();
            if let Some(c) = changed(&before, &after, &|n| s.as_ref().is_some_and(|s| n == s || n.starts_with(&format!("{s}/")))) {
                return Err(format!("{what}: {c}"));
            }
        }
    }
    match refused {
        Some(true) => {
            cx.label("refused");
            o.failure(&what)?;
        }
        Some(false) => {
            o.success(&what)?;
            if let Some(s) = skip.filter(|s| !s.is_empty()) {
                same(&w.want, &cli::read_tree(&r.join(s))?, &what)?;
            }
        }
        None => {}
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fail {
    tree: Tree,
    lay: Layout,
    cmd: u8,
    /// how the run is disturbed, and where
    how: u8,
    at: u32,
    delete: bool,
    elsewhere: u8,
}

/// Commands that fail on the way.
fn fail(k: &Fail, cx: &mut Cx) -> Outcome {
    let w = world(&k.tree, &k.lay, cx)?;
    let r = &w.r;
    let mut img = std::fs::read(r.join("src.iso")).map_err(e2s)?;
    let at = k.at as usize;
    let mut run = Run::default();
    let mut valid = true;
    let how = match k.how {
        0 => {
            run.fsize = Some((at % (img.len() + 40_000)) as u64);
            "disk full"
        }
        1 => {
            run.fsize = Some((33 * 2048 + at % 10_000) as u64);
            "disk full"
        }
        2 => {
            img.truncate(at % img.len());
            valid = false;
            "truncated image"
        }
        3 => {
            let n = img.len();
            img[32 * 2048 + at % (n - 32 * 2048)] ^= 1 << (at % 8);
            valid = false;
            "damaged image"
        }
        4 => {
            for i in 0..6 {
                let from = (33 * 2048).min(img.len() - 1);
                let p = from + mix(k.at as u64 + i) as usize % (img.len() - from);
                img[p] = mix(i + 99 + k.at as u64) as u8;
            }
            valid = false;
            "damaged image"
        }
        5 => {
            img = vec![0x41; at % 200_000];
            valid = false;
            "not an image"
        }
        6 => "unusable destination",
        _ => "undisturbed",
    };
    let second = build_checked(&Tree(vec![Entry { name: "second".into(), node: Node::File { len: 9000, seed: 1 } }]), &Layout::default());
    std::fs::write(r.join("src.iso"), &img).map_err(e2s)?;
    std::fs::write(r.join("b.x.iso"), &second).map_err(e2s)?;
    let bad = |o: &'static str| -> &'static str {
        if k.how == 6 {
            ["nodir/o.iso", "out", "src2/keep/o"][at % 3]
        } else {
            o
        }
    };
    let mut args: Vec<&str> = match k.cmd {
        0 => vec!["pack", "src", bad("o.iso")],
        1 => vec!["pack", "src.iso", bad("o.iso")],
        2 => vec!["compress", "src", bad("o.cso")],
        3 => vec!["compress", "src.iso", bad("o.cso")],
        4 => vec!["build-image", "-m", "**:/{0}", "src", bad("o.iso")],
        5 => vec!["unpack", "src.iso", if k.how == 6 { ["src2/keep", "src2/keep/x", "src"][at % 3] } else { "o" }],
        6 => vec!["extract-xiso", "-c", "src", bad("o.iso")],
        _ => vec!["extract-xiso", "-r", "src.iso"],
    };
    cx.label(["pack directory", "pack image", "compress directory", "compress image", "build-image", "unpack", "extract-xiso create", "extract-xiso rewrite"][k.cmd.min(7) as usize]);
    cx.label(how);
    cx.nontrivial(k.tree.list().len() > 1);
    if k.cmd < 7 {
        let before = snap(r)?;
        let o = cli::run_with(r, &args, &run);
        o.sane().map_err(|e| format!("{args:?}: {e}"))?;
        let after = snap(r)?;
        let what = format!("{args:?} ({how}{})", run.fsize.map(|f| format!(" at {f}")).unwrap_or_default());
        let protected = |n: &str| n == "src.iso" || n == "g.1.cso" || n == "b.x.iso" || n == "src" || n.starts_with("src/");
        if k.cmd == 5 && k.how == 6 && at % 3 == 2 {
            // unpacking over the directory may not touch the image
            ensure!(before.get("src.iso") == after.get("src.iso"), "{what}: the image changed");
            return Ok(());
        }
        if let Some(c) = changed(&before, &after, &|n| !protected(n)) {
            return Err(format!("{what}: {c}"));
        }
        if k.how == 6 && (k.cmd != 5 || at % 3 != 2) {
            // compressing "onto" a directory writes the file beside it
            let beside = matches!(k.cmd, 2 | 3) && at % 3 == 1;
            if !beside {
                o.failure(&what)?;
            }
        }
        return Ok(());
    }
    // rewriting one or two images
    let mut list = vec![("src.iso", "src.old", img.clone(), w.want.clone())];
    let two = k.elsewhere & 4 != 0;
    if two {
        list.push(("b.x.iso", "b.x.old", second.clone(), reader::extract(&second)?));
        args.push("b.x.iso");
        if k.elsewhere & 8 != 0 {
            list.swap(0, 1);
            args.swap(2, 3);
        }
    }
    let dir = match k.elsewhere % 4 {
        1 => Some("out"),
        2 => Some("nodir"),
        3 if k.how == 6 => Some("src2/keep"),
        _ => None,
    };
    if let Some(d) = dir {
        args.insert(1, d);
        args.insert(1, "-d");
    }
    if k.delete {
        args.insert(1, "-D");
    }
    let stale = k.elsewhere & 16 != 0;
    let names_img = &list[at % list.len()];
    if stale {
        std::fs::write(r.join(names_img.1), b"an older backup").map_err(e2s)?;
    }
    let before = snap(r)?;
    let o = cli::run_with(r, &args, &run);
    o.sane().map_err(|e| format!("{args:?}: {e}"))?;
    let after = snap(r)?;
    let what = format!("{args:?} ({how}{})", run.fsize.map(|f| format!(" at {f}")).unwrap_or_default());
    let is = |n: &str, b: &[u8]| matches!(after.get(n), Some(Thing::File(x)) if x == b);
    for (name, old, orig, want) in &list {
        let kept = is(name, orig) || is(old, orig);
        if stale && *old == names_img.1 {
            ensure!(is(old, b"an older backup"), "{what}: the older backup {old} was overwritten");
            ensure!(is(name, orig), "{what}: {name} is not left as it was although {old} exists");
            continue;
        }
        let out = match dir {
            Some(d) => format!("{d}/{name}"),
            None => name.to_string(),
        };
        if o.ok() {
            ensure!(k.delete || is(old, orig), "{what}: succeeded without keeping the original of {name} as {old}");
            ensure!(!k.delete || !after.contains_key(*old), "{what}: {old} was to be deleted");
            let Some(Thing::File(b)) = after.get(&out) else { return Err(format!("{what}: succeeded, but there is no {out}")) };
            if valid || *name != "src.iso" {
                same(want, &reader::extract(b).map_err(|e| format!("{what}: {out}: {e}"))?, &what)?;
            }
        } else if !kept {
            // an earlier image of the list may be finished already
            ensure!(k.delete, "{what}: the original of {name} is gone");
            let Some(Thing::File(b)) = after.get(&out) else { return Err(format!("{what}: failed, and the original of {name} is gone")) };
            if valid || *name != "src.iso" {
                same(want, &reader::extract(b).map_err(|e| format!("{what}: failed with the original of {name} gone and {out} unreadable: {e}"))?, &what)?;
            } else {
                reader::extract(b).map_err(|e| format!("{what}: failed with the original of {name} gone and {out} unreadable: {e}"))?;
            }
            cx.label("finished before the failure");
        }
    }
    if stale {
        o.clone().failure(&what)?;
    }
    if dir == Some("nodir") || dir == Some("src2/keep") {
        o.clone().failure(&what)?;
    }
    if k.how >= 6 && !stale && !matches!(dir, Some("nodir" | "src2/keep")) {
        o.clone().success(&what)?;
    }
    // nothing else in the directory is touched
    let touched = |n: &str| list.iter().any(|(a, b, _, _)| n == *a || n == *b || dir.is_some_and(|d| n == format!("{d}/{a}")));
    if let Some(c) = changed(&before, &after, &touched) {
        return Err(format!("{what}: {c}"));
    }
    cx.label(if o.ok() { "rewritten" } else { "rewrite failed" });
    Ok(())
}

fn main() {
    let mut c = Check::new(
        "C19",
        "fault_enumeration",
        "A scratch directory holds a random source directory, source images of the same tree, and symlinks to them and into them.
         Part `destinations`: a packing or compressing command with source and destination spelled in a random way (relative from several
         working directories, absolute, dot segments, doubled and trailing slashes, through symlinks; default names). Where the destination is
         the source, lies in it, or (build-image) is one of the mapped files, the command has to fail and leave every file as it was; elsewhere
         it has to succeed, change nothing but its output, and the output has to hold the tree. Part `reading`: extraction (also where an
         entry's destination is the image itself, directly or through a link) and inspection, with the same snapshots. Part `failures`: full
         disk at a random length, damaged, truncated or alien images, unusable destinations, existing backups; sources stay byte-identical,
         and after extract-xiso -r the original is at its name or at .old unless -D was given and the new image is complete.
         Non-trivial: a spelling or working directory other than the plain one; a tree with several entries.",
    );
    c.assume("hard links, dangling symlinks as destinations and sources changed by others meanwhile are outside the property");
    c.assume("unrelated existing files at an explicitly given or default destination are overwritten, as documented");
    let o = Opts { host: true, big: false, bulk_max: 30, max_entries: 8, ..Opts::default() };
    c.part(
        "destinations",
        6000,
        120000,
        || {
            (gen::tree(o), gen::layout(), 0u8..7, 0u8..12, any::<bool>(), 0u8..7, spell(), spell(), proptest::bool::weighted(0.2), 0u8..3)
                .prop_map(|(tree, lay, cmd, dest, exists, cwd, from, to, default, via)| Case { tree, lay, cmd, dest, exists, cwd, from, to, default, via })
                .boxed()
        },
        run,
    );
    c.part(
        "reading",
        2500,
        50000,
        || {
            (gen::tree(o), gen::layout(), 0u8..12, 0u8..7, spell(), spell(), any::<u16>(), 0u8..5)
                .prop_map(|(tree, lay, cmd, cwd, from, to, pick, bad)| Get { tree, lay, cmd, cwd, from, to, pick, bad })
                .boxed()
        },
        get,
    );
    c.part(
        "failures",
        5000,
        100000,
        || {
            (gen::tree(o), gen::layout(), 0u8..11, 0u8..8, any::<u32>(), any::<bool>(), prop_oneof![2 => 0u8..16, 1 => 0u8..32, 2 => Just(0u8)])
                .prop_map(|(tree, lay, cmd, how, at, delete, elsewhere)| Fail { tree, lay, cmd, how, at, delete, elsewhere })
                .boxed()
        },
        fail,
    );
    xv::desk::part(&mut c, 500, &[0, 1, 2], &[false, true], 0.8, xv::desk::destructive);
    c.finish();
}
