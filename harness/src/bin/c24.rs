//! C24: the inspection commands tell the truth.
use md5::{Digest, Md5};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha3::Sha3_256;
use std::path::Path as HostPath;
use std::sync::Arc;
use xv::builder::{build_checked, giant, spread, Layout};
use xv::cli;
use xv::devs::Medium;
use xv::gen::{self, Opts};
use xv::ops::*;
use xv::reader::{self, PDir, PEntry, Parsed};
use xv::runner::*;
use xv::tree::*;
use xv::{content, cso, ensure, OFFSETS};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    #[serde(default)]
    far: Option<(u16, u8)>,
    offset: u8,
    /// 0-2 raw, 3 packed, 4 compressed (split naming), 5 compressed (plain naming), 6 huge sizes
    kind: u8,
    picks: Vec<(u16, u8, u64)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    k: Case,
    m: gen::Many,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn md5hex(b: &[u8]) -> String {
    hex(&Md5::digest(b))
}

struct World {
    /// the image itself, without surroundings
    img: Vec<u8>,
    base: u64,
    p: Parsed,
    name: String,
    huge: bool,
    far: Option<(u64, u64)>,
}

fn prepare(k: &Case, d: &HostPath, cx: &mut Cx) -> Result<World, String> {
    let base = OFFSETS[k.offset as usize % 4];
    match k.kind {
        3..=5 => {
            host_tree(&d.join("src"), &k.tree);
            cli::run(d, &["pack", "src", "p.iso"]).success("pack")?;
            let packed = std::fs::read(d.join("p.iso")).map_err(e2s)?;
            let p = reader::parse(&packed)?;
            let end = p.dirs.iter().flat_map(|x| x.entries.iter().map(|e| (e.sector, e.size)).chain([(x.sector, x.size)])).map(|(s, n)| s as u64 * 2048 + n as u64).max().unwrap_or(0);
            // the last sector of compressed images is the subject of a finding of C06
            if k.kind > 3 && end + 2048 <= packed.len() as u64 {
                cli::run(d, &["compress", "src", "c.cso"]).success("compress")?;
                let c = cso::decode(&std::fs::read(d.join("c.1.cso")).map_err(e2s)?)?;
                let p = reader::parse(&c.image)?;
                let name = if k.kind == 5 {
                    // without a split's number, whatever dots it has
                    let n = ["whole.cso", "who.le.cso", "1.cso", "11.cso"][k.picks[0].0 as usize % 4];
                    std::fs::rename(d.join("c.1.cso"), d.join(n)).map_err(e2s)?;
                    n
                } else if k.picks[0].0 % 2 == 1 {
                    std::fs::rename(d.join("c.1.cso"), d.join("c.d.1.cso")).map_err(e2s)?;
                    "c.d.1.cso"
                } else {
                    "c.1.cso"
                };
                cx.label("compressed image");
                return Ok(World { img: c.image, base: 0, p, name: name.into(), huge: false, far: None });
            }
            cx.label("packed image");
            Ok(World { img: packed, base: 0, p, name: "p.iso".into(), huge: false, far: None })
        }
        k0 => {
            let mut img = build_checked(&k.tree, &k.lay);
            let mut p = reader::parse(&img)?;
            if k0 == 6 {
                // listings do not need the data: give files sizes up to the limit
                let v: Vec<(u64, u32)> = p
                    .dirs
                    .iter()
                    .flat_map(|x| x.entries.iter().filter(|e| !e.is_dir()).map(move |e| (x.sector as u64 * 2048 + e.pos, e.size)))
                    .collect();
                for (i, (pos, size)) in v.iter().enumerate() {
                    let new = match (i as u64 + k.lay.seed) % 4 {
                        0 => u32::MAX - *size,
                        1 => 0x8000_0000 + *size,
                        2 => 0xffff_f800,
                        _ => *size,
                    };
                    img[*pos as usize + 8..*pos as usize + 12].copy_from_slice(&new.to_le_bytes());
                }
                p = reader::parse(&img)?;
                cx.label("huge sizes");
            } else {
                cx.label(if base == 0 { "bare image" } else { "embedded image" });
            }
            let far = k.far.filter(|_| k0 != 6).and_then(|(at, how)| spread(&mut img, at, how));
            if far.is_some() {
                p = reader::parse_far(&img, far)?;
                cx.label("far regions");
            }
            Medium { image: Arc::new(img.clone()), base, tail: 100, surround: 3, far }.to_file(&d.join("x.iso")).map_err(e2s)?;
            Ok(World { img, base, p, name: "x.iso".into(), huge: k0 == 6, far })
        }
    }
}

impl World {
    fn data(&self, e: &PEntry) -> &[u8] {
        if e.size == 0 {
            return &[];
        }
        let mut o = e.sector as usize * 2048;
        if let Some((cut, by)) = self.far.filter(|f| o as u64 >= f.0) {
            assert!(o as u64 >= cut + by);
            o -= by as usize;
        }
        &self.img[o..o + e.size as usize]
    }
    fn dir(&self, path: &[String]) -> Option<&PDir> {
        self.p.dirs.iter().find(|d| d.path == path)
    }
    fn entry(&self, path: &[String]) -> (&PDir, &PEntry) {
        let d = self.dir(&path[..path.len() - 1]).unwrap();
        (d, d.entries.iter().find(|e| &e.name_str() == path.last().unwrap()).unwrap())
    }
    /// lines of `info` about one entry
    fn block(&self, d: &PDir, e: &PEntry) -> Vec<String> {
        let f = |k: &str, v: String| format!("{k:<20} {v}");
        let child = |c: u16| if c == 0 || c == 0xffff { "None".to_string() } else { format!("{} bytes", c as u32 * 4) };
        let mut a = vec![];
        for (bit, n) in [(0x10, "Directory"), (1, "Read-Only"), (2, "Hidden"), (4, "System"), (0x20, "Archive"), (0x80, "Normal")] {
            if e.attr & bit != 0 {
                a.push(n);
            }
        }
        vec![
            f("Name:", e.name_str()),
            f("Offset:", (d.sector as u64 * 2048 + e.pos).to_string()),
            f("Left Child Offset:", child(e.left)),
            f("Right Child Offset:", child(e.right)),
            f("Data Location:", format!("Sector {} ({} bytes)", e.sector, e.size)),
            f("Attributes:", a.join(" ")),
        ]
    }
    fn children(&self, d: &PDir) -> Vec<Vec<String>> {
        let mut v: Vec<Vec<String>> = d
            .entries
            .iter()
            .map(|e| {
                let mut b = vec![e.name_str()];
                b.extend(self.block(d, e));
                b.push(String::new());
                b
            })
            .collect();
        v.sort();
        v
    }
    /// all entries below a directory, as (path below it, entry)
    fn below(&self, at: &[String]) -> Vec<(String, &PEntry)> {
        let mut v = vec![];
        for d in &self.p.dirs {
            if d.path.starts_with(at) {
                for e in &d.entries {
                    let mut q = d.path[at.len()..].to_vec();
                    q.push(e.name_str());
                    v.push((format!("/{}", q.join("/")), e));
                }
            }
        }
        v
    }
}

/// Output lines; the newline that ends the last one is required.
fn lines(o: &cli::Out, what: &str) -> Result<Vec<String>, String> {
    let s = String::from_utf8(o.stdout.clone()).map_err(|_| format!("{what}: the output is not UTF-8"))?;
    if s.is_empty() {
        return Ok(vec![]);
    }
    let Some(s) = s.strip_suffix('\n') else { return Err(format!("{what}: the last line does not end")) };
    Ok(s.split('\n').map(|x| x.to_string()).collect())
}

fn same_sorted(mut want: Vec<String>, mut got: Vec<String>, what: &str) -> Outcome {
    want.sort();
    got.sort();
    if want == got {
        return Ok(());
    }
    for w in &want {
        if !got.contains(w) {
            return Err(format!("{what}: {w:?} is not printed; printed {}", show(&got)));
        }
    }
    for g in &got {
        if !want.contains(g) {
            return Err(format!("{what}: {g:?} is printed; expected {}", show(&want)));
        }
    }
    Err(format!("{what}: expected {}, printed {}", show(&want), show(&got)))
}
fn show(v: &[String]) -> String {
    let s = format!("{v:?}");
    if s.len() > 400 {
        format!("{}…", s.chars().take(400).collect::<String>())
    } else {
        s
    }
}

/// 0xffff as a child is shown in an unspecified way.
fn norm(l: String) -> String {
    if l.ends_with(" 262140 bytes") && (l.starts_with("Left Child") || l.starts_with("Right Child")) {
        l.replace("262140 bytes", "None")
    } else {
        l
    }
}

fn squeeze(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if !(c == '/' && o.ends_with('/')) {
            o.push(c);
        }
    }
    o
}

fn run(k: &Case, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    let w = prepare(k, &d, cx)?;
    let n = w.name.as_str();
    let list = k.tree.list();
    cx.nontrivial(list.len() >= 3 && list.iter().any(|e| e.1));
    let call = |args: &[&str]| cli::run(&d, args);
    let mut evals = 0u64;

    // whole image
    let o = call(&["tree", n]).success("tree")?;
    let mut got = lines(&o, "tree")?;
    let all = w.below(&[]);
    let files: Vec<_> = all.iter().filter(|x| !x.1.is_dir()).collect();
    let sum = format!("{} files, {} bytes in {n}", files.len(), files.iter().map(|x| x.1.size as u64).sum::<u64>());
    ensure!(got.pop().as_ref() == Some(&sum), "tree: the last line has to be {sum:?}, the output is {:?}", o.out());
    same_sorted(all.iter().map(|(p, e)| if e.is_dir() { format!("{p}/ (0 bytes)") } else { format!("{p} ({} bytes)", e.size) }).collect(), got, "tree")?;

    let o = call(&["info", n]).success("info")?;
    let want = vec![
        format!("{:<20} true", "Valid:"),
        format!("{:<20} {}", "Creation time:", w.p.filetime),
        format!("{:<20} Sector {} ({} bytes)", "Root Entry:", w.p.root_sector, w.p.root_size),
    ];
    ensure!(lines(&o, "info")? == want, "info: expected {want:?}, printed {:?}", o.out());

    if !w.huge {
        let o = call(&["md5", n]).success("md5")?;
        check_md5(&w, &all, lines(&o, "md5")?, "", "md5")?;
        let mut s: Vec<_> = all.iter().map(|(p, e)| (p.as_bytes().to_vec(), *e)).collect();
        s.sort_by(|a, b| a.0.cmp(&b.0));
        let mut h = Sha3_256::new();
        for (p, e) in s {
            h.update(&p);
            if !e.is_dir() {
                h.update(w.data(e));
            }
        }
        let o = call(&["checksum", "-s", n]).success("checksum")?;
        let want = format!("{}\t{n}\n", hex(&h.finalize()));
        ensure!(o.out() == want, "checksum: expected {want:?}, printed {:?}", o.out());
        evals += 2;
    }
    evals += 2;

    // the root, then some entries under some spellings, then paths that name nothing
    let kids = |x: &PDir| x.entries.iter().map(|e| e.name_str()).collect::<Vec<_>>();
    let root = w.dir(&[]).unwrap();
    for args in [vec!["ls", n], vec!["ls", n, "/"], vec!["ls", "--scan", n], vec!["ls", "-s", n, "/"]] {
        let o = call(&args).success(&format!("{args:?}"))?;
        same_sorted(kids(root), lines(&o, "ls")?, &format!("{args:?}"))?;
        evals += 1;
    }
    let o = call(&["info", n, "/"]).success("info /")?;
    check_blocks(lines(&o, "info /")?, w.children(root), "info /")?;

    for &(pick, spell, bits) in &k.picks {
        if list.is_empty() {
            break;
        }
        let (path, is_dir, ..) = &list[pick as usize % list.len()];
        let mut arg = path.join("/");
        if spell & 1 != 0 || arg.starts_with('-') {
            arg = format!("/{arg}");
        }
        if spell & 2 != 0 {
            arg = gen::flip_case(&arg, bits);
        }
        if spell & 4 != 0 {
            arg.push('/');
        }
        let (pd, e) = w.entry(path);
        let o = call(&["info", n, &arg]).success(&format!("info {arg:?}"))?;
        let mut got: Vec<String> = lines(&o, "info")?.into_iter().map(norm).collect();
        let block = w.block(pd, e);
        ensure!(got.len() >= 6 && got[..6] == block[..], "info {arg:?}: expected {block:?}, printed {:?}", o.out());
        let rest = got.split_off(6);
        evals += 3;
        if *is_dir {
            cx.label("directory named");
            let pd = w.dir(path).unwrap();
            ensure!(rest.first().is_some_and(|l| l.is_empty()), "info {arg:?}: no blank line before the children");
            check_blocks(rest[1..].to_vec(), w.children(pd), &format!("info {arg:?}"))?;
            for args in [vec!["ls", n, &arg], vec!["ls", "-s", n, &arg]] {
                let o = call(&args).success(&format!("{args:?}"))?;
                same_sorted(kids(pd), lines(&o, "ls")?, &format!("{args:?}"))?;
            }
            if !w.huge {
                let o = call(&["md5", n, &arg]).success(&format!("md5 {arg:?}"))?;
                check_md5(&w, &w.below(path), lines(&o, "md5")?, &arg, &format!("md5 {arg:?}"))?;
            }
        } else {
            cx.label("file named");
            ensure!(rest.is_empty(), "info {arg:?}: {rest:?} is printed after the entry");
            call(&["ls", n, &arg]).failure(&format!("ls of the file {arg:?}"))?;
            call(&["ls", "-s", n, &arg]).failure(&format!("ls -s of the file {arg:?}"))?;
            if !w.huge {
                let o = call(&["md5", n, &arg]).success(&format!("md5 {arg:?}"))?;
                let want = vec![format!("{}  {arg}", md5hex(w.data(e)))];
                ensure!(lines(&o, "md5")? == want, "md5 {arg:?}: expected {want:?}, printed {:?}", o.out());
            }
        }
        // nothing there
        let mut p = path.clone();
        match bits % 5 {
            0 => p.last_mut().unwrap().push('~'),
            1 => {
                p.last_mut().unwrap().pop();
            }
            2 => p.push("x".into()),
            3 => p.insert((bits as usize / 5) % p.len(), "zz".into()),
            _ => {
                let l = p.last_mut().unwrap();
                *l = l.chars().rev().collect();
            }
        }
        let ci = |a: &[String]| list.iter().any(|e| e.0.iter().map(|s| upper(s)).eq(a.iter().map(|s| upper(s))));
        if p.iter().all(|c| !c.is_empty()) && !ci(&p) {
            let arg = format!("/{}", p.join("/"));
            cx.label("path of nothing");
            for args in [vec!["ls", n, &arg], vec!["ls", "-s", n, &arg], vec!["info", n, &arg], vec!["md5", n, &arg]] {
                call(&args).failure(&format!("{args:?} (there is no such entry)"))?;
                evals += 1;
            }
        }
    }
    cx.evals(evals);
    if w.base > 0 {
        cx.label("at an offset");
    }
    for args in [["ls", "none.iso"], ["tree", "none.iso"], ["info", "none.iso"], ["md5", "none.iso"], ["checksum", "none.iso"]] {
        if k.lay.seed % 16 == 0 {
            call(&args).failure(&format!("{args:?} (there is no such image)"))?;
        }
    }
    Ok(())
}

fn check_blocks(got: Vec<String>, want: Vec<Vec<String>>, what: &str) -> Outcome {
    ensure!(got.len() == want.len() * 8, "{what}: {} lines for {} entries", got.len(), want.len());
    let mut g: Vec<Vec<String>> = got.chunks(8).map(|c| c.iter().cloned().map(norm).collect()).collect();
    g.sort();
    for (a, b) in want.iter().zip(&g) {
        ensure!(a == b, "{what}: expected {a:?}, printed {b:?}");
    }
    Ok(())
}

/// Every file has its line, with its digest; directories may have one too.
fn check_md5(w: &World, want: &[(String, &PEntry)], got: Vec<String>, base: &str, what: &str) -> Outcome {
    let path = |p: &str| squeeze(&format!("{base}/{p}"));
    let (mut g, mut dirs) = (vec![], vec![]);
    for l in got {
        let Some((h, p)) = l.split_once("  ") else { return Err(format!("{what}: the line {l:?} is not a digest and a path")) };
        let p = squeeze(p);
        if want.iter().any(|(q, e)| e.is_dir() && path(q) == p) {
            dirs.push(p);
        } else {
            g.push(format!("{h}  {p}"));
        }
    }
    dirs.sort();
    let n = dirs.len();
    dirs.dedup();
    ensure!(dirs.len() == n, "{what}: a directory is printed twice");
    let f = want.iter().filter(|x| !x.1.is_dir()).map(|(p, e)| format!("{}  {}", md5hex(w.data(e)), path(p))).collect();
    same_sorted(f, g, what)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    tree: Tree,
    lay: Layout,
    giant: (u16, u8, u32),
    offset: u8,
}

/// The digest of a file of 2 GiB or more, of which all but a few sectors are zeroes.
fn run_giant(k: &Giant, cx: &mut Cx) -> Outcome {
    let Some(g) = giant(&k.tree, &k.lay, k.giant) else {
        cx.label("no file to enlarge");
        return Ok(());
    };
    cx.nontrivial(true);
    let d = cx.scratch();
    let m = Medium { image: Arc::new(g.img.clone()), base: OFFSETS[k.offset as usize], tail: 0, surround: 3, far: Some(g.far) };
    m.to_file(&d.join("in.iso")).map_err(e2s)?;
    for (p, dir, n, s) in k.tree.list() {
        if dir {
            continue;
        }
        let mut h = Md5::new();
        if p == g.path {
            g.feed(s, &mut |b| h.update(b));
        } else {
            h.update(content::bytes(s, n));
        }
        let arg = cli::ipath(&p);
        let want = format!("{}  {arg}\n", hex(&h.finalize()));
        cx.evals(1);
        let o = cli::run(&d, &["md5", "--", "in.iso", &arg]).success("md5")?;
        ensure!(o.out() == want, "md5 {arg:?}: printed {:?}, not {want:?}", o.out());
    }
    Ok(())
}

fn main() {
    let mut c = Check::new(
        "C24",
        "exploration",
        "A case is a tree, stored as a bare or embedded image in a generated layout, packed by the tool, compressed by the tool (opened
         by either naming), or stored with file sizes patched up to the 32-bit limit. ls (both ways), tree, info, md5 and checksum are
         run on the image, on its root, on entries named in generated spellings (letter case, slashes), and on paths that name nothing
         or a file where a directory is needed. The printed lines have to be those computed from an independent parse of the image,
         in any order; the wrong paths have to be errors. Non-trivial: at least three entries, one of them a directory.",
    );
    c.assume("the order of lines within a listing, the digest printed for a directory, repeated slashes in printed paths and the display of 0xffff as a child are unspecified");
    let case = |o: Opts| {
        (gen::tree(o), (gen::layout(), gen::far_file()), 0u8..4, 0u8..7, proptest::collection::vec((any::<u16>(), 0u8..8, any::<u64>()), 1..4))
            .prop_map(|(tree, (lay, far), offset, kind, picks)| Case { tree, lay, far, offset, kind, picks })
            .boxed()
    };
    c.part("commands", 600, 12000, || case(Opts { host: true, bulk_max: 80, max_entries: 10, ..Opts::default() }), run);
    c.part("tables", 40, 1000, || case(Opts { host: true, bulk_max: 600, max_entries: 10, ..Opts::default() }), run);
    c.part("large", 16, 400, || (case(Opts { host: true, big: false, bulk: false, max_entries: 6, ..Opts::default() }), gen::large_tree(true)).prop_map(|(k, tree)| Case { tree, ..k }).boxed(), run);
    c.part(
        "many",
        2,
        60,
        || (case(Opts { host: true, big: false, bulk: false, max_entries: 3, ..Opts::default() }), gen::many()).prop_map(|(k, m)| Big { k: Case { tree: Tree(vec![]), far: None, kind: k.kind % 3, ..k }, m }).boxed(),
        |k: &Big, cx| run(&Case { tree: k.m.tree(), ..k.k.clone() }, cx),
    );
    // just beyond 2 GiB
    c.part(
        "giant",
        1,
        40,
        || {
            (gen::tree(Opts { host: true, big: false, bulk: false, max_entries: 6, ..Opts::default() }).prop_filter("no file", |t| t.total_bytes() > 0), gen::layout(), gen::giant_2g(), 0u8..4)
                .prop_map(|(tree, lay, giant, offset)| Giant { tree, lay, giant, offset })
                .boxed()
        },
        run_giant,
    );
    c.finish();
}
