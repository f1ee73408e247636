//! C04: all ways of listing an image agree and are complete.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use xdvdfs::layout::DirectoryEntryTable;
use xdvdfs::write::fs::{FileType, FilesystemHierarchy, XDVDFSFilesystem};
use xv::blk;
use xv::builder::{build_far, Layout};
use xv::devs::MemDev;
use xv::ensure;
use xv::gen::{self, Opts};
use xv::ops::*;
use xv::reader;
use xv::runner::*;
use xv::tree::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    packed: bool,
    #[serde(default)]
    far: Option<(u16, u8)>,
}

fn sorted(mut v: Vec<Desc>) -> Vec<Desc> {
    v.sort();
    v
}

fn differ(a: &[Desc], b: &[Desc]) -> String {
    let miss: Vec<_> = a.iter().filter(|x| !b.contains(x)).take(2).collect();
    let extra: Vec<_> = b.iter().filter(|x| !a.contains(x)).take(2).collect();
    format!("expected {} entries, got {}; missing {miss:?}; unexpected {extra:?}", a.len(), b.len())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    k: Case,
    m: gen::Many,
}

fn run(k: &Case, cx: &mut Cx) -> Outcome {
    let (img, far) = if k.packed { (pack_mem(&k.tree)?, None) } else { build_far(&k.tree, &k.lay, k.far) };
    cx.label_if(far.is_some(), "far regions");
    let p = reader::parse_far(&img, far).map_err(|e| format!("{}{e}", if k.packed { "" } else { "harness: " }))?;
    let mut dev = MemDev::fueled(img.clone(), 4_000_000);
    dev.far = far;
    let vol = blk!(xdvdfs::read::read_volume(&mut dev)).map_err(e2s)?;
    let mut all: Vec<(Path, Desc)> = vec![];
    for d in &p.dirs {
        let want = sorted(d.entries.iter().map(|e| desc_parsed(d, e)).collect());
        let tab = DirectoryEntryTable::new(d.size, d.sector);
        let show = d.path.join("/");
        let walk = blk!(tab.walk_dirent_tree(&mut dev)).map_err(|e| format!("tree walk of {show:?}: {e:?}"))?;
        let walk = sorted(walk.iter().map(desc_of).collect());
        ensure!(walk == want, "tree walk of {show:?}: {}", differ(&want, &walk));
        let mut scan = vec![];
        {
            let mut it = blk!(tab.scan_dirent_tree(&mut dev)).map_err(|e| format!("scan of {show:?}: {e:?}"))?;
            while let Some(n) = blk!(it.next_entry()).map_err(|e| format!("scan of {show:?}: {e:?}"))? {
                scan.push(desc_of(&n));
                ensure!(scan.len() <= 100_000, "scan of {show:?} does not end");
            }
            // the end is stable
            let again = blk!(it.next_entry()).map_err(|e| format!("scan of {show:?}: {e:?}"))?;
            ensure!(again.is_none(), "scan of {show:?} yields entries after its end");
        }
        let scan = sorted(scan);
        ensure!(scan == want, "scan of {show:?}: {}", differ(&want, &scan));
        all.extend(want.into_iter().map(|x| (d.path.clone(), x)));
        cx.evals(2);
        if d.path.is_empty() {
            match blk!(vol.root_dirent(&mut dev)) {
                Ok(Some(n)) => {
                    let first = d.entries.iter().find(|e| e.pos == 0).map(|e| desc_parsed(d, e));
                    ensure!(Some(desc_of(&n)) == first, "root_dirent is {:?}, the table starts with {first:?}", desc_of(&n));
                }
                Ok(None) | Err(xdvdfs::util::Error::DirectoryEmpty) => {
                    ensure!(d.entries.is_empty(), "root_dirent reports an empty root");
                }
                Err(e) => return Err(format!("root_dirent: {e:?}")),
            }
        }
    }
    // recursive listing, of the whole image and of every directory
    for d in &p.dirs {
        let tab = DirectoryEntryTable::new(d.size, d.sector);
        if d.path.len() > 1 && p.dirs.len() > 40 {
            continue;
        }
        let ft = blk!(tab.file_tree(&mut dev)).map_err(|e| format!("recursive listing: {e:?}"))?;
        let mut got: Vec<(Path, Desc)> = ft
            .iter()
            .map(|(dir, n)| {
                let mut q = d.path.clone();
                q.extend(dir.split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()));
                (q, desc_of(n))
            })
            .collect();
        got.sort();
        let mut want: Vec<(Path, Desc)> = all.iter().filter(|(q, _)| q.starts_with(&d.path)).cloned().collect();
        want.sort();
        cx.evals(1);
        if got != want {
            let miss = want.iter().find(|x| !got.contains(x));
            let extra = got.iter().find(|x| !want.contains(x));
            return Err(format!(
                "recursive listing of {:?}: {} entries expected, {} listed; missing {miss:?}; unexpected {extra:?}",
                d.path.join("/"),
                want.len(),
                got.len()
            ));
        }
    }
    // as a packing source
    let mut src = MemDev::fueled(img, 4_000_000);
    src.far = far;
    let mut fs: XDVDFSFilesystem<_, MemDev> = blk!(XDVDFSFilesystem::new(src)).ok_or("cannot open as a source")?;
    let mut stack = vec![Path::new()];
    while let Some(dir) = stack.pop() {
        let l = blk!(fs.read_dir(&pathvec(&dir))).map_err(|e| format!("source listing of {dir:?}: {e:?}"))?;
        let mut got: Vec<(String, bool, u64)> = l.iter().map(|e| (e.name.clone(), matches!(e.file_type, FileType::Directory), e.len)).collect();
        got.sort();
        let d = p.dirs.iter().find(|d| d.path == dir).unwrap();
        let mut want: Vec<(String, bool, u64)> = d.entries.iter().map(|e| (e.name_str(), e.is_dir(), e.size as u64)).collect();
        want.sort();
        ensure!(got == want, "source listing of {:?}: {} entries expected, {} listed", dir.join("/"), want.len(), got.len());
        cx.evals(1);
        for (n, is_dir, _) in got {
            if is_dir {
                let mut q = dir.clone();
                q.push(n);
                stack.push(q);
            }
        }
    }
    cx.nontrivial(p.dirs.len() >= 2 && all.len() >= 4);
    cx.label_if(p.dirs.iter().any(|d| d.size > 2048), "table > 1 sector");
    cx.label_if(p.dirs.iter().any(|d| d.size == 0), "zero-length table");
    cx.label_if(p.dirs.iter().any(|d| d.size % 2048 != 0), "table size not a multiple of a sector");
    cx.label(if k.packed { "packed image" } else { "foreign image" });
    Ok(())
}

fn main() {
    let mut c = Check::new(
        "C04",
        "exploration",
        "A case is an image (packed, or built independently with arbitrary entry order, tree shape, filler, attributes, table
         sizes and gaps). For every directory the tree walk, the sequential scan, the recursive listing and the source listing
         are compared, field by field and as multisets, with an independent parse. Non-trivial: at least two directories and
         four entries. Evaluations count listings compared.",
    );
    c.assume("entries inside a table sector are packed back to back, as every known writer does, so that a sequential scan can see them");
    let gen_case = |o: Opts| (gen::tree(o), gen::layout(), proptest::bool::weighted(0.3), gen::far()).prop_map(|(tree, lay, packed, far)| Case { tree, lay, packed, far }).boxed();
    c.part("trees", 7000, 200000, move || gen_case(Opts { big: false, ..Opts::default() }), run);
    c.part("bulk", 900, 20000, || (gen::bulk_tree(1200), gen::layout(), proptest::bool::weighted(0.3), gen::far()).prop_map(|(tree, lay, packed, far)| Case { tree, lay, packed, far }).boxed(), run);
    c.part(
        "many",
        3,
        100,
        || (gen::many(), gen::layout(), any::<bool>(), gen::far()).prop_map(|(m, lay, packed, far)| Big { k: Case { tree: Tree(vec![]), lay, packed, far }, m }).boxed(),
        |k: &Big, cx| run(&Case { tree: k.m.tree(), ..k.k.clone() }, cx),
    );
    c.finish();
}
