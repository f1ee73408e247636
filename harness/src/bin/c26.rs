//! C26: the desktop backend packs, unpacks and reports failures.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use xv::builder::{enlarge_host, giant, HostFile, Layout};
use xv::cli::Run;
use xv::desk::{self, call, run, Case};
use xv::devs::Medium;
use xv::gen::{self, Opts};
use xv::ops::*;
use xv::runner::*;
use xv::tree::*;
use xv::{ensure, OFFSETS};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    tree: Tree,
    lay: Layout,
    offset: u8,
    unpack: bool,
    giant: (u16, u8, u32),
}

/// A file of 2 GiB or more, of which all but a few sectors are zeroes.
fn run_giant(k: &Giant, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    cx.nontrivial(true);
    cx.evals(1);
    cx.label(if k.unpack { "unpack of 2 GiB" } else { "pack of 2 GiB" });
    if !k.unpack {
        host_tree(&d.join("src"), &k.tree);
        let Some((g, _)) = enlarge_host(&d.join("src"), &k.tree, k.giant.0, k.giant.2 as u64, 1 + k.giant.2 as u64 % 6000)? else {
            cx.label("no file to enlarge");
            return Ok(());
        };
        let a = call(&d, "pack_image", "src", "out.iso", &Run::default())?;
        ensure!(a.error.is_none(), "pack_image of {} bytes failed: {:?}", g.size, a.error);
        let o = HostFile::open(&d.join("out.iso"))?;
        return g.check(&k.tree, &|p, b| o.get(p, b), &|a, b| o.zero(a, b)).map_err(|e| format!("pack_image: {e}"));
    }
    let Some(g) = giant(&k.tree, &k.lay, k.giant) else {
        cx.label("no file to enlarge");
        return Ok(());
    };
    let m = Medium { image: Arc::new(g.img.clone()), base: OFFSETS[k.offset as usize % 4], tail: 0, surround: 3, far: Some(g.far) };
    m.to_file(&d.join("in.iso")).map_err(e2s)?;
    let a = call(&d, "unpack_image", "in.iso", "out", &Run::default())?;
    ensure!(a.error.is_none(), "unpack_image of {} bytes failed: {:?}", g.size, a.error);
    for (p, dir, len, seed) in k.tree.list() {
        let h = d.join("out").join(p.join("/"));
        if dir {
            ensure!(h.is_dir(), "unpack_image: {p:?} is no directory");
        } else if p == g.path {
            g.check_copy(&h, seed).map_err(|e| format!("unpack_image: {e}"))?;
        } else {
            ensure!(std::fs::read(&h).is_ok_and(|b| b == xv::content::bytes(seed, len)), "unpack_image: {p:?} differs");
        }
    }
    m.check_file(&d.join("in.iso"))
}

fn main() {
    let mut c = Check::new(
        "C26",
        "fault_enumeration",
        "A case runs one command of the desktop program (compiled from the repository against a stand-in for the window system that
         records events and the answer): pack or compress a directory or image, or unpack an image, with a fresh or occupied
         destination. Without a fault it has to succeed; with one (missing, special, malformed, damaged or truncated source; a limit on
         file sizes; a destination that is missing, of the wrong kind, or the source itself) it has to report an error whenever
         the result is not complete. Results are compared with the model and with what the library packs; events with the image.
         Non-trivial: at least three entries, one of them a directory.",
    );
    c.assume("the window system delivers events and answers; the stand-in replaces it");
    let case = |o: Opts| desk::case(o, &[0, 1, 2], &[false, true], 0.5, desk::fault());
    c.part("commands", 2000, 40000, move || case(Opts { host: true, bulk_max: 80, max_entries: 10, ..Opts::default() }), run);
    c.part("large", 32, 800, move || (case(Opts { host: true, big: false, bulk: false, max_entries: 6, ..Opts::default() }), gen::large_tree(true)).prop_map(|(k, tree)| Case { tree, ..k }).boxed(), run);
    // just beyond 2 GiB
    c.part(
        "giant",
        3,
        40,
        || {
            (gen::tree(Opts { host: true, big: false, bulk: false, max_entries: 8, ..Opts::default() }).prop_filter("no file", |t| t.total_bytes() > 0), gen::layout(), 0u8..4, any::<bool>(), gen::giant_2g())
                .prop_map(|(tree, lay, offset, unpack, giant)| Giant { tree, lay, offset, unpack, giant })
                .boxed()
        },
        run_giant,
    );
    c.finish();
}
