//! C05: repacking an image preserves its contents.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use xdvdfs::blockdev::OffsetWrapper;
use xdvdfs::write::fs as wfs;
use xdvdfs::write::img::create_xdvdfs_image;
use xv::builder::{build_far, giant, Layout};
use xv::devs::{HoleyDev, IoSrc, Medium};
use xv::gen::{self, Opts};
use xv::ops::*;
use xv::runner::*;
use xv::tree::*;
use xv::{blk, cli, ensure, reader, validate, OFFSETS};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    packed: bool,
    #[serde(default)]
    far: Option<(u16, u8)>,
    offset: u8,
    tail: u16,
    surround: u32,
    how: u8,
    short: u16,
    interrupt: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    k: Case,
    m: gen::Many,
}

fn case(o: Opts) -> BoxedStrategy<Case> {
    with_tree(gen::tree(o))
}
fn with_tree(t: BoxedStrategy<Tree>) -> BoxedStrategy<Case> {
    (
        t,
        gen::layout(),
        (proptest::bool::weighted(0.25), gen::far()),
        0u8..4,
        prop_oneof![Just(0u16), 1u16..5000],
        any::<u32>(),
        0u8..4,
        prop_oneof![Just(0u16), Just(1), 1u16..4000],
        prop_oneof![Just(0u8), 2u8..6],
    )
        .prop_map(|(tree, lay, (packed, far), offset, tail, surround, how, short, interrupt)| Case {
            tree,
            lay,
            packed,
            far,
            offset,
            tail,
            surround,
            how,
            short,
            interrupt,
        })
        .boxed()
}

fn source(k: &Case) -> Result<(Medium, Flat), String> {
    let (img, far) = if k.packed { (pack_mem(&k.tree)?, None) } else { build_far(&k.tree, &k.lay, k.far) };
    let want = k.tree.flat();
    let m = Medium { image: Arc::new(img), base: OFFSETS[k.offset as usize], tail: k.tail as u64, surround: k.surround as u64, far };
    Ok((m, want))
}

fn tags(k: &Case, cx: &mut Cx) {
    let l = k.tree.list();
    cx.nontrivial(l.len() >= 3 && l.iter().any(|e| !e.1 && e.2 > 0) && !k.packed);
    cx.label(format!("offset {}", OFFSETS[k.offset as usize]));
    cx.label_if(k.packed, "source packed by the code itself");
    cx.label_if(!k.packed, "foreign layout");
    cx.label_if(!k.packed && k.far.is_some(), "far regions");
    cx.label_if(l.iter().any(|e| e.2 > 1 << 20), "file > 1 MiB");
    cx.label_if(k.tree.max_dir() >= 40, "dir of >= 40 entries");
    cx.label_if(l.iter().any(|e| e.1 && k.tree.dir(&e.0).unwrap().is_empty()), "empty dir");
}

fn run(k: &Case, cx: &mut Cx) -> Outcome {
    tags(k, cx);
    let (m, want) = source(k)?;
    let io = |m: &Medium| {
        let mut s = IoSrc::new(m.clone());
        // single-byte reads of megabytes add nothing
        s.short = if k.tree.total_bytes() > 60_000 { (k.short as usize).saturating_mul(16) } else { k.short as usize };
        s.interrupt = k.interrupt as u64;
        s
    };
    let (what, out) = match k.how {
        0 => ("generic copier", repack_default(&m)),
        1 => ("std::io copier", repack_stdio(io(&m), false)),
        2 => ("std::io copier, buffered", repack_stdio(io(&m), true)),
        _ => {
            let bare = Medium { far: m.far, ..Medium::bare(m.image.to_vec()) };
            ("std::io copier, no offset wrapper", repack_stdio_bare(io(&bare)))
        }
    };
    cx.label(what);
    let out = out.map_err(|e| format!("{what}: {e}"))?;
    same(&want, &reader::extract(&out).map_err(|e| format!("{what}: {e}"))?, &format!("repacked ({what})"))?;
    validate::validate(&out).map_err(|e| format!("repacked ({what}): {e}"))?;
    // once more
    let again = repack_default(&Medium::bare(out.clone())).map_err(|e| format!("second repack: {e}"))?;
    same(&want, &reader::extract(&again)?, "repacked twice")?;
    let mut dev = xv::devs::MemDev::new(again);
    same(&want, &lib_flat(&mut dev)?, "repacked twice, own reader")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    tree: Tree,
    lay: Layout,
    giant: (u16, u8, u32),
    offset: u8,
    how: u8,
}

/// A file of up to 4 GiB, of which all but a few sectors are zeroes.
fn run_giant(k: &Giant, cx: &mut Cx) -> Outcome {
    let Some(g) = giant(&k.tree, &k.lay, k.giant) else {
        cx.label("no file to enlarge");
        return Ok(());
    };
    cx.nontrivial(true);
    cx.label(if g.size >= 1 << 31 { "file of 2 GiB or more" } else { "file below 2 GiB" });
    let m = Medium { image: Arc::new(g.img.clone()), base: OFFSETS[k.offset as usize], tail: 0, surround: 0, far: Some(g.far) };
    let out: HoleyDev = match k.how {
        0 => {
            cx.label("generic copier");
            let dev = blk!(OffsetWrapper::new(m)).map_err(e2s)?;
            let mut fs: wfs::XDVDFSFilesystem<_, HoleyDev> = blk!(wfs::XDVDFSFilesystem::new(dev)).ok_or("XDVDFSFilesystem::new failed")?;
            let mut d = HoleyDev::default();
            blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).map_err(|e| format!("repacking failed: {e:?}"))?;
            d
        }
        _ => {
            cx.label("std::io copier");
            let dev = blk!(OffsetWrapper::new(std::io::BufReader::with_capacity(1 << 18, IoSrc::new(m)))).map_err(e2s)?;
            let mut fs = blk!(wfs::XDVDFSFilesystem::<_, HoleyDev, wfs::StdIOCopier<_, _>>::new(dev)).ok_or("XDVDFSFilesystem::new failed")?;
            let mut d = HoleyDev::default();
            blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).map_err(|e| format!("repacking failed: {e:?}"))?;
            d
        }
    };
    let get = |o: u64, b: &mut [u8]| out.get(o, b);
    g.check(&k.tree, &get, &|a, b| out.zero(a, b))
}

/// The same by the command line, from a sparse file.
fn run_giant_cli(k: &Giant, cx: &mut Cx) -> Outcome {
    let Some(g) = giant(&k.tree, &k.lay, k.giant) else {
        cx.label("no file to enlarge");
        return Ok(());
    };
    cx.nontrivial(true);
    let d = cx.scratch();
    let m = Medium { image: Arc::new(g.img.clone()), base: OFFSETS[k.offset as usize], tail: 0, surround: 3, far: Some(g.far) };
    m.to_file(&d.join("in.iso")).map_err(|e| format!("harness: {e}"))?;
    xv::cli::run(&d, &["pack", "in.iso", "out.iso"]).success("pack")?;
    let f = xv::builder::HostFile::open(&d.join("out.iso"))?;
    cx.label_if(f.len > 1 << 31, "image of 2 GiB or more");
    g.check(&k.tree, &|o, b| f.get(o, b), &|a, b| f.zero(a, b))?;
    m.check_file(&d.join("in.iso"))
}

fn main() {
    let mut c = Check::new(
        "C05",
        "exploration",
        "A case is a source image (built independently in any valid layout, or packed) placed at one of the four partition
         offsets inside arbitrary bytes, and a way to repack it: generic copier, std::io copier (with short and interrupted
         reads), buffered, without the offset wrapper, or the command line. The result is compared with the generated tree by
         an independent parser and repacked again. Non-trivial: a foreign layout with at least three entries and a non-empty
         file.",
    );
    c.part("library", 7000, 200000, || case(Opts::default()), run);
    c.part("bulk", 700, 20000, || with_tree(gen::bulk_tree(1200)), run);
    c.part("large", 80, 2000, || with_tree(gen::large_tree(false)), run);
    c.part(
        "many",
        4,
        100,
        || (with_tree(Just(Tree(vec![])).boxed()), gen::many()).prop_map(|(k, m)| Big { k: Case { far: None, ..k }, m }).boxed(),
        |k: &Big, cx| run(&Case { tree: k.m.tree(), ..k.k.clone() }, cx),
    );
    c.part(
        "giant",
        600,
        20000,
        || (gen::tree(Opts { big: false, bulk: false, max_entries: 8, ..Opts::default() }), gen::layout(), gen::giant(), 0u8..4, 0u8..2).prop_map(|(tree, lay, giant, offset, how)| Giant { tree, lay, giant, offset, how }).boxed(),
        run_giant,
    );
    c.part("cli", 500, 3000, || case(Opts { bulk_max: 150, ..Opts::default() }), |k: &Case, cx| {
        tags(k, cx);
        let (m, want) = source(k)?;
        let d = cx.scratch();
        m.to_file(&d.join("in.iso")).map_err(|e| format!("harness: {e}"))?;
        let (args, out): (Vec<&str>, &str) = match k.how {
            0 => (vec!["pack", "in.iso"], "in.xiso.iso"),
            1 => (vec!["pack", "./in.iso", "out.bin"], "out.bin"),
            _ => (vec!["pack", "in.iso", "out.iso"], "out.iso"),
        };
        let mut fresh = None;
        if k.tail % 2 == 1 {
            cx.label("over a longer file");
            cli::run(&d, &["pack", "in.iso", "fresh.iso"]).success("pack")?;
            let f = std::fs::read(d.join("fresh.iso")).map_err(|e| format!("no output image: {e}"))?;
            cli::stale(&d.join(out), f.len());
            fresh = Some(f);
        }
        cli::run(&d, &args).success("pack")?;
        let img = std::fs::read(d.join(out)).map_err(|e| format!("no output image {out}: {e}"))?;
        ensure!(fresh.is_none_or(|f| f == img), "the image packed over a longer file is not the one packed to a new file");
        same(&want, &reader::extract(&img)?, "repacked by the command line")?;
        validate::validate(&img).map_err(|e| format!("repacked by the command line: {e}"))?;
        cli::run(&d, &["pack", out, "again.iso"]).success("second pack")?;
        let img = std::fs::read(d.join("again.iso")).map_err(|e| format!("no output image: {e}"))?;
        same(&want, &reader::extract(&img)?, "repacked twice by the command line")
    });
    // just beyond 2 GiB, which a few seconds suffice for
    c.part(
        "giant cli",
        2,
        40,
        || (gen::tree(Opts { big: false, bulk: false, max_entries: 8, ..Opts::default() }), gen::layout(), gen::giant_2g(), 0u8..4).prop_map(|(tree, lay, giant, offset)| Giant { tree, lay, giant, offset, how: 0 }).boxed(),
        run_giant_cli,
    );
    xv::desk::part(&mut c, 250, &[0], &[false], 0.0, xv::desk::full);
    c.finish();
}
