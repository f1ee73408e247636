//! C02: every produced image is structurally valid XDVDFS.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use xv::builder::{build_checked, Layout};
use xv::devs::{IoSrc, Medium};
use xv::gen::{self, Opts};
use xv::ops::*;
use xv::runner::*;
use xv::tree::*;
use xv::validate::{validate, Facts};
use xv::{cli, ensure};

fn check(img: &[u8], t: &Tree, cx: &mut Cx, what: &str) -> Result<Facts, String> {
    let (p, f) = validate(img).map_err(|e| format!("{what}: {e}"))?;
    cx.label_if(f.max_table > 2048, "table > 1 sector");
    cx.label_if(f.max_table > 65536, "table > 64 KiB");
    cx.label_if(f.full_sectors > 0, "entry ending at a sector boundary");
    cx.nontrivial(f.max_entries >= 4);
    // kinds: directories carry the attribute, files do not, every entry exactly once
    let want: std::collections::BTreeMap<Path, bool> = t.list().into_iter().map(|e| (e.0, e.1)).collect();
    let mut got = std::collections::BTreeMap::new();
    for d in &p.dirs {
        for e in &d.entries {
            let mut q = d.path.clone();
            q.push(e.name_str());
            ensure!(got.insert(q.clone(), e.is_dir()).is_none(), "{what}: {q:?} appears twice");
        }
    }
    ensure!(want == got, "{what}: entries or kinds differ from the source");
    Ok(f)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Foreign {
    tree: Tree,
    lay: Layout,
    how: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fill {
    /// encoded name length of each entry
    lens: Vec<u8>,
    dirs: u64,
}

/// Directories whose entries are chosen to land exactly on, just before and just after sector ends.
fn fill() -> BoxedStrategy<Fill> {
    (
        proptest::collection::vec(
            prop_oneof![
                4 => 3u8..30,
                2 => proptest::sample::select(vec![3u8, 6, 10, 14, 18, 22, 50, 114, 242, 255]),
                1 => 30u8..=255,
            ],
            1..90,
        ),
        any::<u64>(),
        0u8..8,
    )
        .prop_map(|(mut lens, dirs, tail)| {
            // steer the running size towards a sector end
            let mut at = 0u64;
            for l in lens.iter_mut() {
                let left = 2048 - at % 2048;
                let mut sz = (14 + *l as u64).div_ceil(4) * 4;
                if left < 270 + 16 && left >= 20 {
                    // end within +-4 bytes of the boundary
                    let want = (left as i64 - 14 - [0i64, 1, 2, 3, 4, -1, -2, -4][tail as usize]).clamp(3, 255);
                    *l = want as u8;
                    sz = (14 + *l as u64).div_ceil(4) * 4;
                }
                if at / 2048 != (at + sz - 1) / 2048 {
                    at = (at / 2048 + 1) * 2048;
                }
                at += sz;
            }
            Fill { lens, dirs }
        })
        .boxed()
}

fn main() {
    let mut c = Check::new(
        "C02",
        "exploration",
        "A case is a generated source (tree, bulk directory, boundary-steered directory, or a foreign image in an arbitrary valid
         layout) from which an image is produced by packing or repacking; the validator, which shares no code with the
         repository, checks every structural rule on the result. Non-trivial: some directory of the image has at least four
         entries.",
    );
    c.assume("logarithmic depth is judged as at most 2*log2(n+1)+1");
    c.part("trees", 8000, 250000, || gen::tree(Opts::default()), |t: &Tree, cx| {
        let img = pack_mem(t)?;
        check(&img, t, cx, "packed image").map(|_| ())
    });
    c.part("bulk", 2500, 60000, || gen::bulk_tree(2500), |t: &Tree, cx| {
        let img = pack_mem(t)?;
        check(&img, t, cx, "packed image").map(|_| ())
    });
    c.part("boundary", 4000, 120000, fill, |f: &Fill, cx| {
        let t = Tree(
            f.lens
                .iter()
                .enumerate()
                .map(|(i, l)| {
                    let mut name = format!("{:03}", i);
                    while name.len() < *l as usize {
                        name.push('x');
                    }
                    let node = if f.dirs >> (i % 64) & 7 == 0 {
                        Node::Dir(vec![])
                    } else {
                        Node::File { len: (i as u64 * 411) % 2100, seed: i as u64 }
                    };
                    Entry { name, node }
                })
                .collect(),
        );
        let img = pack_mem(&t)?;
        check(&img, &t, cx, "packed image").map(|_| ())
    });
    c.part(
        "repacked",
        2500,
        80000,
        || (gen::tree(Opts { big: false, ..Opts::default() }), gen::layout(), 0u8..3).prop_map(|(tree, lay, how)| Foreign { tree, lay, how }).boxed(),
        |k: &Foreign, cx| {
            let m = Medium::bare(build_checked(&k.tree, &k.lay));
            let img = match k.how {
                0 => repack_default(&m)?,
                1 => repack_stdio(IoSrc::new(m), true)?,
                _ => repack_stdio_bare(IoSrc::new(m))?,
            };
            check(&img, &k.tree, cx, "repacked image").map(|_| ())
        },
    );
    c.part("cli", 300, 4000, || gen::tree(Opts { host: true, bulk_max: 150, ..Opts::default() }), |t: &Tree, cx| {
        let d = cx.scratch();
        host_tree(&d.join("src"), t);
        cli::run(&d, &["pack", "src", "out.iso"]).success("pack")?;
        let img = std::fs::read(d.join("out.iso")).map_err(|e| format!("no output image: {e}"))?;
        check(&img, t, cx, "image written by the command line")?;
        cli::run(&d, &["pack", "out.iso", "again.iso"]).success("pack of an image")?;
        let img = std::fs::read(d.join("again.iso")).map_err(|e| format!("no output image: {e}"))?;
        check(&img, t, cx, "repacked image written by the command line")?;
        cli::run(&d, &["build-image", "-m", "**:/{1}", "src", "mapped.iso"]).sane()?;
        Ok(())
    });
    c.finish();
}
