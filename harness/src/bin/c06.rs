//! C06: compressed images decompress to the packed image.
use md5::Digest;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use xdvdfs::blockdev::OffsetWrapper;
use xdvdfs::write::fs as wfs;
use xdvdfs::write::img::create_xdvdfs_image;
use xv::builder::{build_checked, Layout};
use xv::devs::{Medium, MemDev};
use xv::gen::{self, Opts};
use xv::memfs::{MemFs, SliceFs};
use xv::ops::*;
use xv::runner::*;
use xv::tree::*;
use xv::{blk, cli, content, cso, ensure, OFFSETS};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    offset: u8,
    how: u8,
}

fn case(o: Opts) -> BoxedStrategy<Case> {
    (gen::tree(o), gen::layout(), 0u8..4, 0u8..6).prop_map(|(tree, lay, offset, how)| Case { tree, lay, offset, how }).boxed()
}

/// Compress any source whose sectors can be copied into slices.
fn compress<F>(fs: &mut F) -> Result<Vec<u8>, String>
where
    F: wfs::FilesystemHierarchy + wfs::FilesystemCopier<[u8]>,
    <F as wfs::FilesystemHierarchy>::Error: std::fmt::Debug,
    <F as wfs::FilesystemCopier<[u8]>>::Error: std::fmt::Debug,
{
    let mut dev = wfs::SectorLinearBlockDevice::default();
    let mut sfs = wfs::SectorLinearBlockFilesystem::new(fs);
    blk!(create_xdvdfs_image(&mut sfs, &mut dev, |_| {})).map_err(|e| format!("packing failed: {e:?}"))?;
    let mut input = wfs::CisoSectorInput::new(dev, sfs);
    let mut out = std::io::Cursor::new(vec![]);
    blk!(ciso::write::write_ciso_image(&mut input, &mut out, |_| {})).map_err(|e| format!("compressing failed: {e:?}"))?;
    Ok(out.into_inner())
}

fn equal(want: &[u8], got: &[u8], what: &str) -> Outcome {
    ensure!(want.len() == got.len(), "{what}: the image has {} bytes, decompression gives {}", want.len(), got.len());
    if let Some(i) = (0..want.len()).find(|&i| want[i] != got[i]) {
        return Err(format!("{what}: byte {i} (sector {}) differs: {} in the image, {} decompressed", i / 2048, want[i], got[i]));
    }
    Ok(())
}

fn tags(k: &Case, c: &cso::Cso, cx: &mut Cx) {
    let l = k.tree.list();
    cx.nontrivial(l.iter().filter(|e| !e.1 && e.2 > 0).count() >= 2 && c.raw_blocks > 0);
    cx.label_if(c.raw_blocks > 0 && c.compressed_blocks > 0, "stored and compressed sectors");
    cx.label_if(l.iter().any(|e| !e.1 && e.2 > 0 && e.2 % 2048 != 0), "partial last sector");
    cx.label_if(c.image.len() > 1 << 20, "image > 1 MiB");
}

fn library(k: &Case, cx: &mut Cx) -> Outcome {
    let m = || Medium { image: Arc::new(build_checked(&k.tree, &k.lay)), base: OFFSETS[k.offset as usize], tail: 0, surround: 7, far: None };
    let (what, cs, want) = match k.how {
        0 | 1 => ("in-memory source", compress(&mut SliceFs(MemFs::new(&k.tree)))?, pack_mem(&k.tree)?),
        2 | 3 => {
            let m = m();
            let dev = blk!(OffsetWrapper::new(m.clone())).map_err(e2s)?;
            let mut fs: wfs::XDVDFSFilesystem<_, [u8]> = blk!(wfs::XDVDFSFilesystem::new(dev)).ok_or("cannot open the source")?;
            ("image source", compress(&mut fs)?, repack_default(&m)?)
        }
        4 => {
            // a repack of a pack
            let img = pack_mem(&k.tree)?;
            let mut fs: wfs::XDVDFSFilesystem<_, [u8]> = blk!(wfs::XDVDFSFilesystem::new(MemDev::new(img.clone()))).ok_or("cannot open the source")?;
            ("packed image source", compress(&mut fs)?, repack_default(&Medium::bare(img))?)
        }
        _ => {
            let d = cx.scratch();
            // host names only
            let mut t = k.tree.clone();
            hostify(&mut t.0);
            host_tree(&d.join("s"), &t);
            let mut fs = wfs::StdFilesystem::create(&d.join("s"));
            ("host source", compress(&mut fs)?, pack_host_io(&d.join("s"))?)
        }
    };
    cx.label(what);
    let c = cso::decode(&cs).map_err(|e| format!("{what}: {e}"))?;
    tags(k, &c, cx);
    equal(&want, &c.image, what)
}

fn hostify(l: &mut [Entry]) {
    for (i, e) in l.iter_mut().enumerate() {
        if e.name.len() > 255 {
            e.name = format!("n{i:03}~~");
        }
        if let Node::Dir(l) = &mut e.node {
            hostify(l);
        }
    }
}

/// Trees whose last file ends exactly with the image.
fn exact() -> BoxedStrategy<Tree> {
    (proptest::collection::vec((1u64..3, gen::seed()), 1..4), gen::seed(), 0u8..4, any::<bool>())
        .prop_map(|(v, s, kind, nest)| {
            // root table in sector 33, then (with a subdirectory) its table, then the files
            let mut used = 34 + nest as u64;
            let mut l: Vec<Entry> = vec![];
            for (i, (n, s)) in v.into_iter().enumerate() {
                l.push(Entry { name: format!("a{i}"), node: Node::File { len: n * 2048, seed: s } });
                used += n;
            }
            let seed = match kind {
                0 => s / 8 * 8,
                1 => s / 8 * 8 + 5,
                2 => s / 8 * 8 + 7,
                _ => s,
            };
            let need = (64 - used) * 2048 - if kind == 3 { s % 60 } else { 0 };
            l.push(Entry { name: "z".into(), node: Node::File { len: need, seed } });
            if nest {
                l = vec![Entry { name: "d".into(), node: Node::Dir(l) }];
            }
            Tree(l)
        })
        .boxed()
}

fn cli_case(k: &Case, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    let from_dir = k.how % 2 == 0;
    if from_dir {
        host_tree(&d.join("src"), &k.tree);
    } else {
        let m = Medium { image: Arc::new(build_checked(&k.tree, &k.lay)), base: OFFSETS[k.offset as usize], tail: 0, surround: 9, far: None };
        m.to_file(&d.join("src")).map_err(|e| format!("harness: {e}"))?;
    }
    std::fs::create_dir_all(d.join("o/p")).unwrap();
    // requested path -> file that appears
    let (arg, file) = match k.how / 2 {
        0 => (Some("o/p/x.cso"), "o/p/x.1.cso"),
        1 => (None, "src.1.cso"),
        _ => (Some("x.cso"), "x.1.cso"),
    };
    let mut args = vec!["compress", "src"];
    args.extend(arg);
    let mut fresh = None;
    if k.tree.list().len() % 2 == 1 {
        cx.label("over a longer file");
        cli::run(&d, &["compress", "src", "fresh.cso"]).success("compress")?;
        let f = std::fs::read(d.join("fresh.1.cso")).map_err(|e| format!("no compressed image: {e}"))?;
        std::fs::remove_file(d.join("fresh.1.cso")).unwrap();
        cli::stale(&d.join(file), f.len());
        fresh = Some(f);
    }
    cli::run(&d, &args).success("compress")?;
    let cs = std::fs::read(d.join(file)).map_err(|e| format!("no compressed image at {file}: {e}"))?;
    cli::run(&d, &["pack", "src", "ref.iso"]).success("pack")?;
    let want = std::fs::read(d.join("ref.iso")).map_err(|e| format!("no image: {e}"))?;
    ensure!(fresh.is_none_or(|f| f == cs), "the image compressed over a longer file is not the one compressed to a new file");
    let c = cso::decode(&cs)?;
    tags(k, &c, cx);
    equal(&want, &c.image, "command line")?;
    // nothing else appears
    let mut seen: Vec<String> = cli::names(&d)?;
    seen.retain(|p| p != "src" && !p.starts_with("src/") && !["o", "o/p", "ref.iso", file].contains(&p.as_str()));
    ensure!(seen.is_empty(), "unexpected files {seen:?}");

    // the read-only commands agree; the image that index-driven readers see is the only tolerated deviation
    let parsed = xv::reader::parse(&want)?;
    let last = want.len() as u64 / 2048 - 1;
    let in_last = parsed.dirs.iter().any(|p| p.size > 0 && p.sector as u64 + (p.size as u64 - 1) / 2048 == last)
        || parsed.dirs.iter().any(|p| p.entries.iter().any(|e| !e.is_dir() && e.size > 0 && e.sector as u64 + (e.size as u64 - 1) / 2048 == last));
    let alt = c.last_sector_by_index.clone().filter(|_| in_last);
    cx.label_if(in_last, "data in the last sector");
    if let Some(s) = &alt {
        let mut b = want.clone();
        let n = b.len();
        b.truncate(n - 2048);
        b.extend_from_slice(s);
        b.resize(n, 0);
        std::fs::write(d.join("alt.iso"), b).unwrap();
    }
    let mut cmds: Vec<Vec<String>> = [vec!["ls"], vec!["tree"], vec!["md5"], vec!["checksum", "-s"], vec!["info"]]
        .iter()
        .map(|c| c.iter().map(|s| s.to_string()).collect())
        .collect();
    let l = k.tree.list();
    if let Some(e) = l.get(k.lay.seed as usize % l.len().max(1)) {
        cmds.push(vec!["md5".into(), cli::ipath(&e.0)]);
        cmds.push(vec!["info".into(), cli::ipath(&e.0)]);
        cmds.push(vec!["ls".into(), cli::ipath(&e.0)]);
    }
    cmds.push(vec!["ls".into(), "/no such file~".into()]);
    for c in &cmds {
        cx.evals(1);
        let run = |img: &str| {
            let mut a: Vec<String> = vec![c[0].clone()];
            if c[0] == "checksum" {
                a.push("-s".into());
            }
            a.push(img.into());
            if c[0] != "checksum" {
                a.extend(c[1..].iter().cloned());
            }
            cli::run(&d, &a)
        };
        let (a, b) = (run("ref.iso"), run(file));
        a.sane()?;
        b.sane().map_err(|e| format!("{c:?} on the compressed image: {e}"))?;
        let (oa, ob) = (canon(c, &a.out()), canon(c, &b.out()));
        if a.code != b.code || oa != ob {
            let m = format!("{c:?} differs on the compressed image: exit {:?} vs {:?}, {:?} vs {:?}", a.code, b.code, oa, ob);
            match &alt {
                Some(_) => {
                    let x = run("alt.iso");
                    ensure!(x.code == b.code && canon(c, &x.out()) == ob, "{m}");
                    cx.known("cso-last-sector", &m)?;
                }
                None => return Err(m),
            }
        }
    }
    // extraction from compressed images is not supported: it is refused, or right
    let u = cli::run(&d, &["unpack", file, "back"]);
    u.sane().map_err(|e| format!("unpack of the compressed image: {e}"))?;
    if u.ok() && alt.is_none() {
        same(&k.tree.flat(), &cli::read_tree(&d.join("back"))?, "unpacked from the compressed image")?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BigHost {
    tree: Tree,
    pick: u16,
    cut: u64,
    over: u64,
}

/// A directory with a file of 2 GiB or more.
fn run_big_host(k: &BigHost, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    host_tree(&d.join("src"), &k.tree);
    let Some((g, _)) = xv::builder::enlarge_host(&d.join("src"), &k.tree, k.pick, k.cut, k.over)? else {
        cx.label("no file to enlarge");
        return Ok(());
    };
    cx.nontrivial(true);
    cli::run(&d, &["compress", "src", "x.cso"]).success("compress")?;
    let cs = std::fs::read(d.join("x.1.cso")).map_err(|e| format!("no compressed image: {e}"))?;
    let c = cso::decode(&cs)?;
    cx.label_if(c.image.len() > 1 << 31, "image of 2 GiB or more");
    let get = |o: u64, b: &mut [u8]| match c.image.get(o as usize..o as usize + b.len()) {
        Some(x) => {
            b.copy_from_slice(x);
            true
        }
        None => false,
    };
    let zero = |a: u64, e: u64| c.image.get(a as usize..e as usize).is_some_and(|x| x.chunks(1 << 16).all(|c| c.iter().fold(0, |a, b| a | b) == 0));
    g.check(&k.tree, &get, &zero)?;
    // the commands read it, too
    let p = xv::reader::parse(&c.image)?;
    let last = c.image.len() as u64 / 2048 - 1;
    for (path, dir, len, seed) in k.tree.list() {
        if dir || path == g.path {
            continue;
        }
        let in_last = p.dirs.iter().flat_map(|x| &x.entries).any(|e| e.size > 0 && e.sector as u64 + (e.size as u64 - 1) / 2048 == last);
        let o = cli::run(&d, &["md5", "x.1.cso", &cli::ipath(&path)]).success("md5 on the compressed image")?;
        let want = format!("{:x}", md5::Md5::digest(content::bytes(seed, len)));
        cx.evals(1);
        ensure!(in_last || o.out().contains(&want), "md5 of {path:?} on the compressed image: {:?}, not {want}", o.out());
    }
    Ok(())
}

/// Output without the file name of the image.
fn canon(c: &[String], out: &str) -> Vec<String> {
    let mut v: Vec<String> = out.lines().map(|l| l.replace("ref.iso", "IMG").replace("alt.iso", "IMG").replace("o/p/x.1.cso", "IMG").replace("src.1.cso", "IMG").replace("x.1.cso", "IMG")).collect();
    if c[0] == "md5" {
        v.sort();
    }
    v
}

fn main() {
    let mut c = Check::new(
        "C06",
        "exploration",
        "A case is a source (in-memory tree, host tree, or image in any layout at any offset) that is compressed by the library
         or the command line. An independent CISO/LZ4 reader decompresses the result, which is compared byte for byte with the
         image that packing the same source gives; on the command line the read-only commands are run on both files. Part
         `exact` generates images whose file data ends in the last sector. Non-trivial: at least two non-empty files and
         incompressible as well as compressible sectors.",
    );
    c.assume("outputs below the 4 GiB split point; the first split file of the requested `x.cso` is `x.1.cso`");
    c.part("library", 4000, 100000, || case(Opts::default()), library);
    c.part("exact library", 600, 10000, || (exact(), gen::layout(), 0u8..4, 0u8..5).prop_map(|(tree, lay, offset, how)| Case { tree, lay, offset, how }).boxed(), library);
    c.part("cli", 600, 8000, || case(Opts { host: true, bulk_max: 60, ..Opts::default() }), cli_case);
    c.part("exact", 200, 2000, || (exact(), gen::layout(), Just(0u8), 0u8..6).prop_map(|(tree, lay, offset, how)| Case { tree, lay, offset, how }).boxed(), cli_case);
    c.part("large library", 16, 400, || (case(Opts { host: false, big: false, bulk: false, max_entries: 6, ..Opts::default() }), gen::large_tree(false)).prop_map(|(k, tree)| Case { tree, ..k }).boxed(), library);
    c.part("large", 24, 400, || (case(Opts { host: true, big: false, bulk: false, max_entries: 6, ..Opts::default() }), gen::large_tree(true)).prop_map(|(k, tree)| Case { tree, ..k }).boxed(), cli_case);
    // just beyond 2 GiB
    c.part(
        "giant",
        1,
        20,
        || {
            (gen::tree(Opts { host: true, big: false, bulk: false, max_entries: 8, ..Opts::default() }).prop_filter("no file", |t| t.total_bytes() > 0), any::<u16>(), 0u64..2_000_000_000, 1u64..6000)
                .prop_map(|(tree, pick, cut, over)| BigHost { tree, pick, cut, over })
                .boxed()
        },
        run_big_host,
    );
    xv::desk::part(&mut c, 300, &[2], &[false, true], 0.0, xv::desk::full);
    c.finish();
}
