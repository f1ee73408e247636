//! C29: sources, rules and outputs of commands are the documented ones, and nothing else is written.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use xv::builder::{build, Layout};
use xv::cli::{self, Run};
use xv::devs::Medium;
use xv::gen::{self, Opts};
use xv::runner::*;
use xv::tree::*;
use xv::{ensure, reader, OFFSETS};

const IMAGE: &[u8] = b"MICROSOFT*XBOX*MEDIA";

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Dir,
    File(Vec<u8>),
    Link(PathBuf),
}
type Snap = BTreeMap<String, Kind>;

fn snap(d: &Path) -> Snap {
    fn rec(d: &Path, pre: &str, out: &mut Snap) {
        for e in std::fs::read_dir(d).unwrap_or_else(|e| panic!("harness: {d:?}: {e}")) {
            let e = e.unwrap_or_else(|e| panic!("harness: {e}"));
            let n = format!("{pre}{}", e.file_name().to_string_lossy());
            let t = e.file_type().unwrap_or_else(|e| panic!("harness: {e}"));
            let k = if t.is_dir() {
                rec(&e.path(), &format!("{n}/"), out);
                Kind::Dir
            } else if t.is_symlink() {
                Kind::Link(std::fs::read_link(e.path()).unwrap())
            } else {
                Kind::File(std::fs::read(e.path()).unwrap_or_else(|x| panic!("harness: {x}")))
            };
            out.insert(n, k);
        }
    }
    let mut o = Snap::new();
    rec(d, "", &mut o);
    o
}

/// What differs between two snapshots, apart from the listed paths and, with `below`, everything below them.
fn changed(a: &Snap, b: &Snap, but: &[String], below: bool) -> Option<String> {
    let skip = |p: &String| but.iter().any(|x| x == p || (below && p.starts_with(&format!("{x}/"))));
    for (p, k) in b {
        if skip(p) {
            continue;
        }
        match a.get(p) {
            None => return Some(format!("{p} was created")),
            Some(o) if o != k => return Some(format!("{p} was changed")),
            _ => (),
        }
    }
    a.keys().find(|p| !skip(p) && !b.contains_key(*p)).map(|p| format!("{p} was removed"))
}

fn io(e: std::io::Error) -> String {
    format!("harness: {e}")
}

/// Another name for a directory (or a file in it) as seen from `cwd`.
fn relative(cwd: &Path, p: &Path) -> String {
    let (a, b): (Vec<_>, Vec<_>) = (cwd.components().collect(), p.components().collect());
    let n = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let mut v: Vec<String> = a[n..].iter().map(|_| "..".to_string()).collect();
    v.extend(b[n..].iter().map(|c| c.as_os_str().to_string_lossy().into_owned()));
    if v.is_empty() {
        ".".into()
    } else {
        v.join("/")
    }
}

/// The path beside a directory, as spelled, with `ext` added to its name.
fn beside(cwd: &Path, dir: &str, ext: &str) -> PathBuf {
    let mut s = dir.to_string();
    loop {
        if let Some(t) = s.strip_suffix('/').or(s.strip_suffix("/.")) {
            s = t.into();
        } else {
            break;
        }
    }
    if matches!(s.rsplit('/').next(), Some("." | ".." | "")) {
        s = cwd.join(s).canonicalize().unwrap().to_string_lossy().into_owned();
    }
    cwd.join(format!("{s}{ext}"))
}

/// The path within the scratch directory of a file that may not exist yet.
fn place(d: &Path, p: &Path) -> Option<String> {
    let dir = p.parent()?.canonicalize().ok()?;
    let s = dir.join(p.file_name()?);
    Some(s.strip_prefix(d).unwrap_or_else(|_| panic!("harness: {s:?} is outside")).to_string_lossy().into_owned())
}

// ------------------------------------------------------------------ build-image

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spec {
    /// 0: rules; 1: no rules; 2: not TOML; 3: empty table; 4..6: rules that are refused
    kind: u8,
    out: Option<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Build {
    name: u8,
    place: u8,
    spell: u8,
    /// 0: none (in the directory itself), 1: directory, 2: xdvdfs.toml in it, 3: my.toml in it, 4: missing
    arg: u8,
    in_src: Option<Spec>,
    in_cwd: Option<Spec>,
    other: Spec,
    /// -f: 0: ./xdvdfs.toml, 1: the other file, 2: its absolute path, 3: missing
    f: Option<u8>,
    m: Option<u8>,
    o: Option<u8>,
    pos: Option<u8>,
    /// 0: flags as they are; 1, 2: through image-spec (to a file, to stdout)
    via: u8,
    dry: bool,
    stale: bool,
    long: bool,
}

const NAMES: [&str; 9] = ["game", "my.game", ".hid", "game.", "g \u{e4}.m\u{20ac}", "a.b.iso", "xdvdfs.toml", "d{1}", "src*[x]"];
const OUTS: [&str; 7] = ["o.iso", "dist/o.xiso.iso", "../up.iso", "/abs.iso", "missing/o.iso", "dist", "./n\u{e9}w name"];

fn spec() -> BoxedStrategy<Spec> {
    (prop_oneof![12 => Just(0u8), 1 => 1u8..7], proptest::option::of(0u8..7)).prop_map(|(kind, out)| Spec { kind, out }).boxed()
}
fn build_case() -> BoxedStrategy<Build> {
    let out = || proptest::option::weighted(0.4, prop_oneof![8 => 0u8..4, 1 => 4u8..7]);
    (
        (any::<u8>(), 0u8..5, 0u8..8, prop_oneof![6 => 0u8..3, 2 => Just(3u8), 1 => Just(4u8)]),
        (proptest::option::weighted(0.8, spec()), proptest::option::weighted(0.6, spec()), spec()),
        (proptest::option::weighted(0.25, prop_oneof![6 => 0u8..3, 1 => Just(3u8)]), proptest::option::weighted(0.3, prop_oneof![9 => 0u8..4, 1 => 4u8..7])),
        (out(), out(), 0u8..3, proptest::bool::weighted(0.12), any::<bool>(), any::<bool>()),
    )
        .prop_map(|((name, place, spell, arg), (in_src, in_cwd, other), (f, m), (o, pos, via, dry, stale, long))| {
            // options that exclude each other are tried now and then only
            let m = if f.is_some() && spell % 4 != 0 { None } else { m };
            let o = if f.is_some() && spell % 4 != 1 { None } else { o };
            Build { name, place, spell, arg, in_src, in_cwd, other, f, m, o, pos, via, dry, stale, long }
        })
        .boxed()
}

fn out_text(d: &Path, o: u8) -> String {
    match o {
        3 => d.join("e/abs.iso").to_string_lossy().into_owned(),
        _ => OUTS[o as usize % 7].into(),
    }
}

fn quote(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}
fn spec_text(d: &Path, s: &Spec, tag: &str) -> String {
    let mut t = String::new();
    if let Some(o) = s.out {
        t += &format!("[metadata]\noutput = {}\n\n", quote(&out_text(d, o)));
    }
    match s.kind {
        0 => t += &format!("[map_rules]\n\"data/*.bin\" = \"/{tag}/{{1}}\"\n\"t*.txt\" = \"/{tag}.{{1}}\"\n\"!top.txt\" = \"\"\n"),
        1 => (),
        4 => t += "[map_rules]\n\"data/*.bin\" = \"/x/{7\"\n",
        5 => t += "[map_rules]\n\"data/{a\" = \"/x\"\n",
        6 => t += "[map_rules]\n\"data/*.bin\" = 7\n",
        2 => t += "[map_rules\n\"data/*.bin\" = ",
        _ => t += "[map_rules]\n",
    }
    t
}
/// Rules on the command line
fn flags(m: u8) -> Vec<String> {
    if m > 3 {
        // refused: no such match, no image path, a glob that does not close
        return vec!["tip.txt:/x".into(), ["data/*.bin:/flag/{x}", "data/*.bin", "data/{a:/flag"][m as usize % 3].into()];
    }
    let mut v = vec!["data/*.bin:/flag/{1}".to_string()];
    if m & 2 == 2 {
        v.push("t*.txt:/flag.{1}".into());
    }
    if m & 1 == 1 {
        v.push("!top.txt".into());
    }
    v
}
/// What the rules with a tag make of the source directory
fn mapped(tag: &str, top: bool, t2: bool, kids: &[(&str, Vec<u8>)]) -> Flat {
    let mut f = Flat::new();
    f.insert(vec![tag.into()], Item::Dir);
    for (n, b) in kids {
        match *n {
            "top.txt" if top => {
                f.insert(vec![format!("{tag}.op")], Item::File(b.clone()));
            }
            "tip.txt" if t2 => {
                f.insert(vec![format!("{tag}.ip")], Item::File(b.clone()));
            }
            n if n.starts_with("data/") => {
                let n = n.strip_prefix("data/").unwrap().strip_suffix(".bin").unwrap();
                f.insert(vec![tag.into(), n.into()], Item::File(b.clone()));
            }
            _ => (),
        }
    }
    f
}

fn build_image(k: &Build, cx: &mut Cx) -> Outcome {
    let d = cx.scratch().canonicalize().map_err(io)?;
    let name = match NAMES[k.name as usize % NAMES.len()] {
        "xdvdfs.toml" if k.place == 0 => "game",
        n => n,
    };
    let mk = |p: &Path| std::fs::create_dir_all(p).map_err(io);
    // directories
    let src = match k.place {
        0 | 3 | 4 => d.join("w").join(name),
        1 => d.join("e").join(name),
        _ => d.join("w/deep").join(name),
    };
    let cwd = match k.place {
        3 => src.clone(),
        4 => src.join("data"),
        _ => d.join("w"),
    };
    for p in [&src, &cwd, &d.join("e"), &src.join("data"), &src.join("dist"), &cwd.join("dist")] {
        mk(p)?;
    }
    let kids: Vec<(&str, Vec<u8>)> = vec![
        ("data/a.bin", vec![1; 3000]),
        ("data/b.bin", if k.long { vec![2; 150_000] } else { vec![] }),
        ("top.txt", b"top".to_vec()),
        ("tip.txt", vec![b'x'; 2048]),
    ];
    for (n, b) in &kids {
        std::fs::write(src.join(n), b).map_err(io)?;
    }
    std::fs::write(src.join("data/note.md"), b"not mapped").map_err(io)?;
    // specifications
    if cwd != src {
        if let Some(s) = &k.in_cwd {
            std::fs::write(cwd.join("xdvdfs.toml"), spec_text(&d, s, "cwd")).map_err(io)?;
        }
    }
    if let Some(s) = &k.in_src {
        std::fs::write(src.join("xdvdfs.toml"), spec_text(&d, s, "src")).map_err(io)?;
    }
    std::fs::write(src.join("my.toml"), spec_text(&d, &Spec { kind: 0, out: Some(1) }, "my")).map_err(io)?;
    std::fs::write(d.join("e/other.toml"), spec_text(&d, &k.other, "other")).map_err(io)?;

    // the spelling of the source
    let rel = relative(&cwd, &src);
    let dir = match k.spell {
        0 | 1 => rel,
        2 => src.to_string_lossy().into_owned(),
        3 => format!("{rel}/"),
        4 => format!("{rel}/."),
        5 => format!("{rel}/data/.."),
        6 => format!("./{rel}"),
        _ => {
            mk(&d.join("links"))?;
            std::os::unix::fs::symlink(&src, d.join("links/lnk")).map_err(io)?;
            relative(&cwd, &d.join("links/lnk"))
        }
    };
    let arg = match k.arg {
        0 if k.place == 3 => None,
        0 | 1 => Some(dir.clone()),
        2 => Some(if k.place == 3 && k.spell == 0 { "xdvdfs.toml".into() } else { format!("{dir}/xdvdfs.toml") }),
        3 => Some(if k.place == 3 && k.spell == 0 { "my.toml".into() } else { format!("{dir}/my.toml") }),
        _ => Some(format!("{dir}/gone")),
    };
    // without an argument the source is the working directory, a file names its parent
    let base = if arg.is_none() || (k.place == 3 && k.spell == 0) { ".".into() } else { dir.clone() };

    // -- the model
    let of = |s: &Spec, tag: &'static str| match s.kind {
        0 => Ok((mapped(tag, false, true, &kids), s.out)),
        _ => Err("no rules"),
    };
    let fpath = k.f.map(|f| match f {
        0 => "xdvdfs.toml".to_string(),
        1 => relative(&cwd, &d.join("e/other.toml")),
        2 => d.join("e/other.toml").to_string_lossy().into_owned(),
        _ => "none.toml".into(),
    });
    let chosen: Result<(Flat, Option<u8>), &str> = if matches!(k.arg, 4) {
        Err("missing source")
    } else if k.arg == 2 && k.in_src.is_none() {
        Err("missing source")
    } else if k.f.is_some() && (k.m.is_some() || k.o.is_some()) {
        Err("conflicting options")
    } else if k.m.is_some_and(|m| m > 3) {
        Err("rules that make no sense")
    } else if let Some(m) = k.m {
        Ok((mapped("flag", m & 3 == 2, m & 2 == 2, &kids), None))
    } else {
        match k.f {
            Some(0) => {
                let s = if cwd == src { (&k.in_src, "src") } else { (&k.in_cwd, "cwd") };
                s.0.as_ref().map_or(Err("no rules"), |x| of(x, s.1))
            }
            Some(1) | Some(2) => of(&k.other, "other"),
            Some(_) => Err("no rules"),
            None if k.arg == 3 => of(&Spec { kind: 0, out: Some(1) }, "my"),
            None => k.in_src.as_ref().map_or(Err("no rules"), |x| of(x, "src")),
        }
    };
    let (chosen, declared) = match chosen {
        Ok((f, o)) => (Ok(f), o),
        Err(e) => (Err(e), None),
    };
    let target = if let Some(p) = k.pos {
        cwd.join(out_text(&d, p))
    } else if let Some(o) = k.o.or(declared) {
        cwd.join(&base).join(out_text(&d, o))
    } else {
        beside(&cwd, &base, ".xiso.iso")
    };
    let at = place(&d, &target);
    let writable = at.is_some() && !target.is_dir();
    // files of earlier runs at all candidates
    if k.stale {
        let all = [Some(target.clone()), declared.map(|o| src.join(out_text(&d, o))), k.o.map(|o| src.join(out_text(&d, o))), Some(beside(&cwd, &base, ".xiso.iso"))];
        for p in all.into_iter().flatten() {
            if place(&d, &p).is_some() && !p.exists() {
                cli::stale(&p, 400_000);
            }
        }
    }

    // -- the command
    let mut args: Vec<String> = vec!["build-image".into()];
    let mut generated = vec![];
    let via = if k.m.is_some_and(|m| m < 4) && k.f.is_none() { k.via } else { 0 };
    if via > 0 {
        let mut a = vec!["image-spec".to_string(), "from".into()];
        if let Some(o) = k.o {
            a.extend(["-O".to_string(), out_text(&d, o)]);
        }
        for r in flags(k.m.unwrap()) {
            a.extend(["-m".to_string(), r]);
        }
        let g = d.join("gen.toml");
        if via == 1 {
            if k.stale {
                cli::stale(&g, 100);
            }
            a.push("../gen.toml".into());
            mk(&d.join("w"))?;
            let before = snap(&d);
            let o = cli::run(&d.join("w"), &a).success("image-spec")?;
            ensure!(o.stdout.is_empty(), "image-spec with an output file also prints");
            if let Some(c) = changed(&before, &snap(&d), &["gen.toml".into()], false) {
                return Err(format!("image-spec: {c}"));
            }
        } else {
            let before = snap(&d);
            let o = cli::run(&d.join("w"), &a).success("image-spec")?;
            if let Some(c) = changed(&before, &snap(&d), &[], false) {
                return Err(format!("image-spec to standard output: {c}"));
            }
            std::fs::write(&g, o.stdout).map_err(io)?;
        }
        generated.extend(["-f".to_string(), g.to_string_lossy().into_owned()]);
    } else {
        if let Some(o) = k.o {
            generated.extend([if k.long { "-O" } else { "--output" }.to_string(), out_text(&d, o)]);
        }
        for r in k.m.map(flags).unwrap_or_default() {
            generated.extend([if k.long { "-m" } else { "--map" }.to_string(), r]);
        }
        if let Some(f) = &fpath {
            generated.extend([if k.long { "-f" } else { "--file" }.to_string(), f.clone()]);
        }
    }
    if k.dry {
        generated.push(if k.long { "-D" } else { "--dry-run" }.into());
    }
    let mut free: Vec<String> = arg.iter().cloned().collect();
    if let Some(p) = k.pos {
        if arg.is_none() {
            free.push(".".into());
        }
        free.push(out_text(&d, p));
    }
    if k.via == 1 && k.m.is_none() {
        args.extend(free);
        args.extend(generated);
    } else {
        args.extend(generated);
        args.extend(free);
    }
    let before = snap(&d);
    let out = cli::run(&cwd, &args);
    out.sane()?;
    let after = snap(&d);
    let what = format!("{} in {}", args.join(" "), relative(&d, &cwd));
    cx.label_if(k.m.is_some(), "rules given as options");
    cx.label_if(via > 0, "through image-spec");
    cx.label_if(k.f.is_some(), "-f");
    cx.label_if(matches!(k.arg, 2 | 3), "the source is a specification");
    cx.label_if(arg.is_none(), "no source given");
    cx.label_if(k.pos.is_none() && k.o.or(declared).is_none() && chosen.is_ok(), "inferred output");
    cx.label_if(k.dry, "dry run");
    cx.label_if(chosen.is_err(), "refused");
    let rivals = k.pos.is_some() as u8 + k.o.is_some() as u8 + declared.is_some() as u8;
    cx.label_if(rivals > 1, "several outputs");
    cx.nontrivial(chosen.is_ok() && (writable || k.dry));
    let Ok(want) = chosen else {
        ensure!(!out.ok(), "{what} succeeds in spite of {}", chosen.unwrap_err());
        ensure!(!out.stderr.is_empty(), "{what} fails without a message");
        return match changed(&before, &after, &[], false) {
            Some(c) => Err(format!("{what} fails, but {c}")),
            None => Ok(()),
        };
    };
    if k.dry {
        let o = out.success(&what)?;
        if let Some(c) = changed(&before, &after, &[], false) {
            return Err(format!("{what}: {c} in a dry run"));
        }
        let mut lines: Vec<String> = o.out().lines().map(|l| l.split_once(" -> ").map_or("?", |x| x.1).to_string()).collect();
        lines.sort();
        let mut files: Vec<String> = want.iter().filter(|(_, i)| **i != Item::Dir).map(|(p, _)| format!("/{}", p.join("/"))).collect();
        files.sort();
        lines.retain(|l| files.contains(l) || !want.contains_key(&l.trim_start_matches('/').split('/').map(String::from).collect::<Vec<_>>()));
        ensure!(lines == files, "{what} lists {lines:?}, not {files:?}");
        return Ok(());
    }
    if !writable {
        ensure!(!out.ok(), "{what} succeeds although {target:?} cannot be written");
        return match changed(&before, &after, &[], false) {
            Some(c) => Err(format!("{what} fails, but {c}")),
            None => Ok(()),
        };
    }
    let at = at.unwrap();
    out.success(&what)?;
    if let Some(c) = changed(&before, &after, &[at.clone()], false) {
        return Err(format!("{what} should write {at} only: {c}"));
    }
    let Some(Kind::File(img)) = after.get(&at) else { return Err(format!("{what} does not write {at}")) };
    ensure!(img.get(65536..65556) == Some(IMAGE), "{what}: {at} is no image");
    let got = reader::extract(img)?;
    match diff(&want, &got) {
        Some(m) => Err(format!("{what}: in {at}: {m}")),
        None => Ok(()),
    }
}

// ------------------------------------------------------------------ the other commands

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Other {
    tree: Tree,
    lay: Layout,
    offset: u8,
    /// 0: pack, 1: compress, 2: unpack, 3: copy-out, 4..: commands that only read
    cmd: u8,
    dir: bool,
    name: u8,
    place: u8,
    spell: u8,
    /// the output if it is given
    out: Option<u8>,
    pick: u16,
    stale: bool,
}

fn other_case() -> BoxedStrategy<Other> {
    let o = Opts { bulk: false, max_entries: 8, host: true, ..Opts::default() };
    (
        (gen::tree(o), gen::layout(), 0u8..4),
        (prop_oneof![6 => 0u8..4, 1 => 4u8..10], any::<bool>(), any::<u8>(), 0u8..5, 0u8..7),
        (proptest::option::weighted(0.4, prop_oneof![8 => 0u8..4, 1 => 4u8..7]), any::<u16>(), any::<bool>()),
    )
        .prop_map(|((tree, lay, offset), (cmd, dir, name, place, spell), (out, pick, stale))| Other { tree, lay, offset, cmd, dir, name, place, spell, out, pick, stale })
        .boxed()
}

const FILES: [&str; 11] = ["x.iso", "game.xiso.iso", "a game (USA).iso", "noext", "x.y.z", "dots..iso", ".hid.iso", "X.ISO", "\u{fc}.bin", ".iso", "a.1.iso"];

/// A file name without its last extension
fn stem(n: &str) -> &str {
    match n.rfind('.') {
        Some(i) if i > 0 => &n[..i],
        _ => n,
    }
}

fn others(k: &Other, cx: &mut Cx) -> Outcome {
    let d = cx.scratch().canonicalize().map_err(io)?;
    let is_dir = k.dir && k.cmd < 2;
    let name = if is_dir { NAMES[k.name as usize % NAMES.len()] } else { FILES[k.name as usize % FILES.len()] };
    let src = match k.place {
        0 | 3 | 4 => d.join("w").join(name),
        1 => d.join("e").join(name),
        _ => d.join("w/deep").join(name),
    };
    let cwd = match k.place {
        3 if is_dir => src.clone(),
        4 => d.join("w/deep"),
        _ => d.join("w"),
    };
    for p in [src.parent().unwrap(), &cwd, &d.join("e"), &cwd.join("dist")] {
        std::fs::create_dir_all(p).map_err(io)?;
    }
    // what the tools are expected to read
    let mut tree = k.tree.clone();
    if is_dir {
        if cwd == src {
            tree.0.retain(|e| !e.name.eq_ignore_ascii_case("dist"));
        }
        cli::write_tree(&src, &tree).map_err(io)?;
        if cwd == src {
            tree.0.push(Entry { name: "dist".into(), node: Node::Dir(vec![]) });
        }
    } else {
        Medium { image: Arc::new(build(&tree, &k.lay)), base: OFFSETS[k.offset as usize], tail: 0, surround: 1, far: None }.to_file(&src).map_err(io)?;
    }
    let big = !is_dir && k.offset > 0;
    let rel = relative(&cwd, &src);
    let spelled = match k.spell {
        0 | 1 => rel,
        2 => src.to_string_lossy().into_owned(),
        3 if is_dir => format!("{rel}/"),
        4 if is_dir => format!("{rel}/."),
        5 => format!("{}/{}", relative(&cwd, src.parent().unwrap()), name),
        _ => format!("./{rel}"),
    };
    let flat = tree.flat();
    // the image itself is left alone, and too large to compare byte by byte
    let apart = if big { Some(src.strip_prefix(&d).unwrap().to_string_lossy().into_owned()) } else { None };
    let look = |apart: &Option<String>| -> Snap {
        if let Some(a) = apart {
            let m = std::fs::metadata(d.join(a)).unwrap_or_else(|e| panic!("{a} is gone: {e}"));
            let hide = d.with_extension("hidden");
            std::fs::rename(d.join(a), &hide).unwrap();
            let mut s = snap(&d);
            std::fs::rename(&hide, d.join(a)).unwrap();
            s.insert(a.clone(), Kind::File(format!("{} {:?}", m.len(), m.modified().unwrap()).into_bytes()));
            s
        } else {
            snap(&d)
        }
    };
    let text = k.out.map(|o| out_text(&d, o));
    let paths: Vec<(Vec<String>, bool)> = tree.list().into_iter().map(|(p, dir, _, _)| (p, dir)).collect();
    let entry = if paths.is_empty() { None } else { Some(paths[(k.pick as usize * paths.len()) >> 16].clone()) };
    let arg_of = |p: &[String]| cli::ipath(p);
    cx.label(match k.cmd {
        0 => "pack",
        1 => "compress",
        2 => "unpack",
        3 => "copy-out",
        _ => "read only",
    });
    cx.label_if(k.cmd < 3 && text.is_none(), "default output");
    let go = |a: &[String]| cli::run_with(&cwd, a, &Run::default());

    if k.cmd >= 4 {
        let mut a: Vec<String> = vec![["info", "ls", "tree", "md5", "checksum", "info"][k.cmd as usize - 4].into(), spelled];
        match (k.cmd, &entry) {
            (5, Some((p, true))) | (9, Some((p, _))) | (7, Some((p, false))) => a.push(arg_of(p)),
            _ => (),
        }
        let before = look(&apart);
        let o = go(&a);
        o.success(&a.join(" "))?;
        cx.nontrivial(true);
        return match changed(&before, &look(&apart), &[], false) {
            Some(c) => Err(format!("{}: {c}", a.join(" "))),
            None => Ok(()),
        };
    }

    // the target and what to expect there
    let mut a: Vec<String>;
    let (target, tree_there): (PathBuf, bool);
    let mut refused = false;
    match k.cmd {
        0 | 1 => {
            a = vec![["pack", "compress"][k.cmd as usize].into(), spelled.clone()];
            let plain = if is_dir { name } else { stem(name) };
            let t = match (&text, k.cmd) {
                (Some(t), 0) => cwd.join(t),
                (Some(t), _) => {
                    // the parts of the output are numbered
                    let t = if k.out == Some(5) || k.out == Some(6) { format!("{t}.cso") } else { t.replace(".iso", ".cso") };
                    a.push(t.clone());
                    cwd.join(t.replace(".cso", ".1.cso"))
                }
                (None, 0) if !is_dir && cwd.join(format!("{plain}.iso")) == src => cwd.join(format!("{plain}.xiso.iso")),
                (None, 0) => cwd.join(format!("{plain}.iso")),
                (None, _) => cwd.join(format!("{plain}.1.cso")),
            };
            if k.cmd == 0 {
                a.extend(text.clone());
            }
            let real = place(&d, &t).map(|p| d.join(p));
            // the output may not be inside the source
            refused = is_dir && (real.as_ref().map_or(t.starts_with(&src), |r| r.starts_with(&src)));
            (target, tree_there) = (t, false);
        }
        2 => {
            a = vec!["unpack".into(), spelled.clone()];
            a.extend(text.clone());
            (target, tree_there) = (text.as_ref().map_or(cwd.join(stem(name)), |t| cwd.join(t)), true);
        }
        _ => {
            let Some((p, dir)) = entry.clone() else { return Ok(()) };
            let t = text.clone().unwrap_or("o2".into());
            a = vec!["copy-out".into(), spelled.clone(), arg_of(&p), t.clone()];
            (target, tree_there) = (cwd.join(t), dir);
        }
    }
    if tree_there {
        // directories on the way to the target are created
        let want: Flat = if k.cmd == 2 {
            flat.clone()
        } else {
            let p = &entry.as_ref().unwrap().0;
            flat.iter().filter(|(q, _)| q.len() > p.len() && q.starts_with(p)).map(|(q, i)| (q[p.len()..].to_vec(), i.clone())).collect()
        };
        if target.is_file() {
            refused = true;
        }
        let before = look(&apart);
        let o = go(&a);
        o.sane()?;
        if refused {
            ensure!(!o.ok(), "{} succeeds over a file", a.join(" "));
            return changed(&before, &look(&apart), &[], false).map_or(Ok(()), |c| Err(format!("{}: {c}", a.join(" "))));
        }
        // `dist` and `missing/o.iso` are all right here
        let o = o.success(&a.join(" "))?;
        drop(o);
        let after = look(&apart);
        let at = target.canonicalize().map_err(|_| format!("{} does not create {}", a.join(" "), relative(&d, &target)))?;
        let at = relative(&d, &at);
        let mut but = vec![at.clone()];
        if target.parent().unwrap().ends_with("missing") {
            but.push(at.rsplit_once('/').unwrap().0.into());
        }
        cx.nontrivial(true);
        if let Some(c) = changed(&before, &after, &but, true) {
            return Err(format!("{} should only write below {at}: {c}", a.join(" ")));
        }
        let got = cli::read_tree(&target)?;
        return diff(&want, &got).map_or(Ok(()), |m| Err(format!("{}: below {at}: {m}", a.join(" "))));
    }
    let at = place(&d, &target);
    let writable = at.is_some() && !target.is_dir() && !refused;
    if k.stale && writable && !target.exists() {
        cli::stale(&target, 300_000);
    }
    let before = look(&apart);
    let o = go(&a);
    o.sane()?;
    let after = look(&apart);
    cx.label_if(refused, "refused");
    if !writable {
        ensure!(!o.ok(), "{} succeeds although {} cannot be written", a.join(" "), relative(&d, &target));
        return changed(&before, &after, &[], false).map_or(Ok(()), |c| Err(format!("{} fails, but {c}", a.join(" "))));
    }
    o.success(&a.join(" "))?;
    let at = at.unwrap();
    cx.nontrivial(true);
    if let Some(c) = changed(&before, &after, &[at.clone()], false) {
        return Err(format!("{} should only write {at}: {c}", a.join(" ")));
    }
    let Some(Kind::File(b)) = after.get(&at) else { return Err(format!("{} does not write {at}", a.join(" "))) };
    match k.cmd {
        0 => {
            ensure!(b.get(65536..65556) == Some(IMAGE), "{}: {at} is no image", a.join(" "));
            diff(&flat, &reader::extract(b)?)
        }
        1 => {
            let img = xv::cso::decode(b).map_err(|e| format!("{}: {at}: {e}", a.join(" ")))?.image;
            diff(&flat, &reader::extract(&img)?)
        }
        _ => {
            let p = &entry.as_ref().unwrap().0;
            match &flat[p] {
                Item::File(w) if w != b => Some("the contents are wrong".into()),
                _ => None,
            }
        }
    }
    .map_or(Ok(()), |m| Err(format!("{}: in {at}: {m}", a.join(" "))))
}

fn main() {
    let mut c = Check::new(
        "C29",
        "exploration",
        "Command lines in generated directories, compared with a model of where sources, rules and outputs come from: the whole scratch \
         directory is compared before and after, and the output with the source. Non-trivial: the command has to succeed.",
    );
    c.assume("sources, specifications and outputs are on one local file system; globs of the rules are simple (C07 covers the rules)");
    c.part("build-image", 6000, 60_000, build_case, build_image);
    c.part("others", 4000, 40_000, other_case, others);
    c.finish()
}
