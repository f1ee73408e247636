//! C01: packing a tree yields exactly that tree.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use xv::gen::{self, Opts};
use xv::ops::*;
use xv::devs::SparseDev;
use xv::memfs::MemFs;
use xv::runner::*;
use xv::tree::*;
use xv::{blk, cli, content, ensure, reader};

fn tags(t: &Tree, cx: &mut Cx) {
    let l = t.list();
    cx.nontrivial(l.len() >= 3 && l.iter().any(|e| !e.1 && e.2 > 0) && (t.depth() >= 2 || t.max_dir() > 8));
    cx.label_if(l.is_empty(), "empty tree");
    cx.label_if(t.depth() >= 3, "depth>=3");
    cx.label_if(t.depth() >= 20, "depth >= 20");
    cx.label_if(l.iter().any(|e| e.2 > 1 << 20), "file > 1 MiB");
    cx.label_if(l.iter().any(|e| !e.1 && e.2 == 0), "empty file");
    cx.label_if(l.iter().any(|e| e.1 && t.dir(&e.0).unwrap().is_empty()), "empty dir");
    cx.label_if(t.max_dir() >= 40, "dir of >= 40 entries");
    cx.label_if(l.iter().any(|e| !e.0.last().unwrap().is_ascii()), "non-ASCII name");
    cx.label_if(l.iter().any(|e| encode_name(e.0.last().unwrap()).unwrap().len() >= 240), "long name");
}

fn check(img: &[u8], want: &Flat, what: &str) -> Outcome {
    let got = reader::extract(img).map_err(|e| format!("{what}: {e}"))?;
    same(want, &got, &format!("{what}, independent reader"))?;
    let mut m = xv::devs::MemDev::new(img.to_vec());
    let got = lib_flat(&mut m).map_err(|e| format!("{what}, own reader: {e}"))?;
    same(want, &got, &format!("{what}, own reader"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HostCase {
    tree: Tree,
    cap: u16,
    sub: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BigHost {
    tree: Tree,
    pick: u16,
    cut: u64,
    over: u64,
}

/// A host directory with a file of 2 GiB or more, of which all but a few bytes are a hole.
fn run_big_host(k: &BigHost, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    host_tree(&d.join("src"), &k.tree);
    let Some((g, _)) = xv::builder::enlarge_host(&d.join("src"), &k.tree, k.pick, k.cut, k.over)? else {
        cx.label("no file to enlarge");
        return Ok(());
    };
    cx.nontrivial(true);
    cli::run(&d, &["pack", "src", "out.iso"]).success("pack")?;
    let o = xv::builder::HostFile::open(&d.join("out.iso"))?;
    g.check(&k.tree, &|p, b| o.get(p, b), &|a, b| o.zero(a, b))?;
    ensure!(o.len % 2048 == 0, "an image of {} bytes", o.len);
    Ok(())
}

fn main() {
    let mut c = Check::new(
        "C01",
        "exploration",
        "A case is a generated directory tree (names of 1..255 encoded bytes over all of Windows-1252, sizes around sector,
         64 KiB and 1 MiB boundaries, bulk directories around table-sector boundaries, nesting). It is packed from an
         in-memory source, from the host through three kinds of output device, and by the command line, and compared with what
         an independent parser, the library's reader and `unpack` find. Non-trivial: at least three entries, a non-empty file,
         and either nesting or a directory of more than eight entries.",
    );
    c.assume("host source trees contain regular files and directories only, with names valid on a Linux file system");
    c.part("memory", 10000, 300000, || gen::tree(Opts::default()), |t: &Tree, cx| {
        tags(t, cx);
        let img = pack_mem(t)?;
        check(&img, &t.flat(), "packed from memory")
    });
    c.part("bulk", 2000, 60000, || gen::bulk_tree(1400), |t: &Tree, cx| {
        tags(t, cx);
        let img = pack_mem(t)?;
        check(&img, &t.flat(), "packed from memory")
    });
    c.part("deep", 400, 8000, deep, |t: &Tree, cx| {
        cx.nontrivial(t.depth() >= 10);
        let img = pack_mem(t)?;
        check(&img, &t.flat(), "packed from memory")
    });
    c.part("many", 8, 300, gen::many, |k: &gen::Many, cx| {
        let t = k.tree();
        let n = t.list().len();
        cx.label_if(n > 65536, "more than 65536 entries");
        cx.nontrivial(n > 60000);
        let img = pack_mem(&t)?;
        check(&img, &t.flat(), "packed from memory")
    });
    c.part("giant", 4000, 100000, giant, run_giant);
    c.part(
        "host",
        2500,
        60000,
        || {
            (gen::tree(Opts { host: true, bulk_max: 200, ..Opts::default() }), prop_oneof![Just(0u16), Just(1), Just(1000), Just(4096), Just(65535)], 0u8..3)
                .prop_map(|(tree, cap, sub)| HostCase { tree, cap, sub })
                .boxed()
        },
        |k: &HostCase, cx| {
            tags(&k.tree, cx);
            let d = cx.scratch();
            let src = d.join("src");
            host_tree(&src, &k.tree);
            let want = k.tree.flat();
            let img = match k.sub {
                0 => pack_host_io(&src)?,
                1 => pack_host_file(&src, &d.join("o"), k.cap as usize)?,
                _ => {
                    let n = pack_host_io(&src)?.len();
                    // room to spare: a fixed buffer is larger than the image
                    pack_host_box(&src, n)?
                }
            };
            cx.label(["io destination", "buffered file", "fixed buffer"][k.sub as usize]);
            check(&img, &want, "packed from the host")
        },
    );
    c.part(
        "cli",
        600,
        2500,
        || gen::tree(Opts { host: true, bulk_max: 150, ..Opts::default() }),
        cli_case,
    );
    c.part("large", 32, 1000, || gen::large_tree(false), |t: &Tree, cx| {
        tags(t, cx);
        check(&pack_mem(t)?, &t.flat(), "packed from memory")
    });
    // just beyond 2 GiB, which a few seconds suffice for
    c.part(
        "giant cli",
        2,
        40,
        || {
            (gen::tree(Opts { host: true, big: false, bulk: false, max_entries: 8, ..Opts::default() }), any::<u16>(), 0u64..2_000_000_000, 1u64..6000)
                .prop_map(|(tree, pick, cut, over)| BigHost { tree, pick, cut, over })
                .boxed()
        },
        run_big_host,
    );
    c.part("large cli", 24, 500, || gen::large_tree(true), cli_case);
    xv::desk::part(&mut c, 250, &[0], &[true], 0.0, xv::desk::full);
    c.finish();
}

/// Trees with files of up to 4 GiB - 1, so that positions go beyond 4 GiB and further.
fn giant() -> BoxedStrategy<Tree> {
    let len = prop_oneof![
        3 => (1u64 << 30)..(1 << 32),
        2 => proptest::sample::select(vec![u32::MAX as u64, u32::MAX as u64 - 2047, 0xffff_f800, 0xffff_f801, 1 << 31, (1 << 31) - 1, (1 << 32) - 4096]),
    ];
    (gen::tree(Opts { big: false, bulk_max: 100, ..Opts::default() }), proptest::collection::vec((any::<u16>(), len), 1..6))
        .prop_map(|(mut t, picks)| {
            fn files<'a>(l: &'a mut Vec<Entry>, out: &mut Vec<&'a mut u64>) {
                for e in l {
                    match &mut e.node {
                        Node::Dir(c) => files(c, out),
                        Node::File { len, .. } => out.push(len),
                    }
                }
            }
            let mut v = vec![];
            files(&mut t.0, &mut v);
            for (i, len) in picks {
                if !v.is_empty() {
                    let n = v.len();
                    *v[i as usize % n] = len;
                }
            }
            t
        })
        .boxed()
}

const END: u64 = 4096;

/// Only both ends of a large file are written; the ends, and all of a small file, are compared.
fn run_giant(t: &Tree, cx: &mut Cx) -> Outcome {
    use xdvdfs::blockdev;
    let mut fs = MemFs::new(t);
    fs.ends = END;
    let mut d = SparseDev::default();
    blk!(xdvdfs::write::img::create_xdvdfs_image(&mut fs, &mut d, |_| {})).map_err(e2s)?;
    let len = d.len;
    ensure!(blk!(blockdev::BlockDeviceWrite::len(&mut d)).map_err(e2s)? == len, "harness: length");
    let get = |o: u64, b: &mut [u8]| {
        o.checked_add(b.len() as u64).is_some_and(|e| e <= len) && {
            let mut at = 0;
            while at < b.len() {
                let (s, k) = ((o + at as u64) / 2048, ((o + at as u64) % 2048) as usize);
                let n = (2048 - k).min(b.len() - at);
                match d.pages.get(&s) {
                    Some(p) => b[at..at + n].copy_from_slice(&p[k..k + n]),
                    None => b[at..at + n].fill(0),
                }
                at += n;
            }
            true
        }
    };
    let p = reader::parse_with(&get)?;
    let mut want = std::collections::BTreeMap::new();
    t.walk(&mut |pre, e| {
        let mut p = pre.to_vec();
        p.push(e.name.clone());
        want.insert(p, &e.node);
    });
    let mut found = 0;
    let mut used = vec![(32, 33)];
    for dir in &p.dirs {
        used.push((dir.sector as u64, dir.sector as u64 + (dir.size as u64).div_ceil(2048)));
        for e in &dir.entries {
            let mut path = dir.path.clone();
            path.push(e.name_str());
            let node = want.get(&path).ok_or_else(|| format!("{path:?} is not in the tree"))?;
            found += 1;
            match node {
                Node::Dir(_) => ensure!(e.is_dir(), "{path:?} is no directory"),
                Node::File { len: n, seed } => {
                    ensure!(!e.is_dir() && e.size as u64 == *n, "{path:?}: {} bytes, not {n}", e.size);
                    let base = e.sector as u64 * 2048;
                    used.push((e.sector as u64, e.sector as u64 + n.div_ceil(2048)));
                    let parts = if *n == 0 {
                        vec![]
                    } else if *n > 2 * END { vec![(0, END), (n - END, END)] } else { vec![(0, *n)] };
                    for (o, k) in parts {
                        let mut b = vec![0; k as usize];
                        ensure!(get(base + o, &mut b), "{path:?} goes beyond the end of the image");
                        ensure!(b == content::range(*seed, *n, o, k), "{path:?} at {o}: other data than the source's");
                    }
                }
            }
        }
    }
    ensure!(found == want.len(), "{found} entries of {}", want.len());
    used.retain(|u| u.0 < u.1);
    used.sort();
    for w in used.windows(2) {
        ensure!(w[0].1 <= w[1].0, "sectors {:?} and {:?} overlap", w[0], w[1]);
    }
    let end = used.last().unwrap().1;
    ensure!(len % 2048 == 0 && len / 2048 >= end, "an image of {len} bytes with data up to sector {end}");
    // the library's reader
    let vol = blk!(xdvdfs::read::read_volume(&mut d)).map_err(e2s)?;
    let mut listed = 0;
    for (dir, n) in blk!(vol.root_table.file_tree(&mut d)).map_err(e2s)? {
        let mut path: Vec<String> = dir.split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        path.push(name_of(&n)?);
        let node = want.get(&path).ok_or_else(|| format!("own reader: {path:?} is not in the tree"))?;
        listed += 1;
        if let Node::File { len: l, seed } = node {
            if *l == 0 {
                continue;
            }
            let k = (*l).min(END);
            for o in [0, l - k] {
                let at = blk!(async { n.node.dirent.data.offset::<xv::devs::DevError>(o) }).map_err(e2s)?;
                let mut b = vec![0; k as usize];
                blk!(blockdev::BlockDeviceRead::read(&mut d, at, &mut b)).map_err(e2s)?;
                ensure!(b == content::range(*seed, *l, o, k), "own reader: {path:?} at {o}: other data");
            }
        }
    }
    ensure!(listed == want.len(), "own reader: {listed} entries of {}", want.len());
    cx.label_if(len > 1 << 32, "image > 4 GiB");
    cx.label_if(len > 1 << 33, "image > 8 GiB");
    cx.nontrivial(len > 1 << 32 && want.len() >= 2);
    Ok(())
}

fn deep() -> BoxedStrategy<Tree> {
    (1usize..60, gen::name(), gen::file_len(false), gen::seed(), any::<u64>())
        .prop_map(|(d, n, len, seed, bits)| {
            let name = gen::clamp_name(&n, false);
            let mut l = vec![Entry { name: "leaf".into(), node: Node::File { len, seed } }];
            for k in 0..d {
                let mut v = vec![Entry { name: format!("{name}{}", k % 10).chars().rev().take(250).collect(), node: Node::Dir(l) }];
                if bits >> (k % 64) & 1 == 1 {
                    v.push(Entry { name: "~f".into(), node: Node::File { len: (k as u64 * 97) % 5000, seed: seed ^ k as u64 } });
                }
                l = v;
            }
            Tree(l)
        })
        .boxed()
}

fn cli_case(t: &Tree, cx: &mut Cx) -> Outcome {
    tags(t, cx);
    let d = cx.scratch();
    host_tree(&d.join("src"), t);
    // the default output name
    cli::run(&d, &["pack", "src"]).success("pack")?;
    let img2 = std::fs::read(d.join("src.iso")).map_err(|e| format!("no output image: {e}"))?;
    let old = t.list().len() % 2 == 1;
    cx.label_if(old, "over a longer file");
    if old {
        cli::stale(&d.join("out.iso"), img2.len());
    }
    cli::run(&d, &["pack", "src", "out.iso"]).success("pack")?;
    let img = std::fs::read(d.join("out.iso")).map_err(|e| format!("no output image: {e}"))?;
    let want = t.flat();
    check(&img, &want, "packed by the command line")?;
    cli::run(&d, &["unpack", "out.iso", "back"]).success("unpack")?;
    let got = cli::read_tree(&d.join("back"))?;
    same(&want, &got, "after unpack")?;
    let f = reader::extract(&img2)?;
    same(&want, &f, "packed to the default path")?;
    ensure!(img.len() == img2.len() && (!old || img == img2), "the image packed over a longer file is not the one packed to a new file");
    ensure!(cli::read_tree(&d.join("src"))? == want, "the source changed");
    Ok(())
}
