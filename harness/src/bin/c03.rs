//! C03: path lookup finds exactly the entry that is there.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use xdvdfs::util::Error as XE;
use xv::blk;
use xv::builder::{build_far, Layout};
use xv::devs::MemDev;
use xv::ensure;
use xv::gen::{self, Opts};
use xv::ops::*;
use xv::reader;
use xv::runner::*;
use xv::tree::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Q {
    /// an existing entry: which, case pattern, leading slashes, trailing slash
    Hit(u16, u64, u8, bool),
    /// an existing parent with a name that is (probably) missing
    Miss(u16, String),
    /// an existing name, slightly altered
    Near(u16, u8, u16, char),
    /// a component below an existing entry
    Below(u16, String, u64),
    Root(u8),
    Any(String),
    /// double slash inside
    Double(u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    packed: bool,
    #[serde(default)]
    far: Option<(u16, u8)>,
    qs: Vec<Q>,
}

fn q() -> BoxedStrategy<Q> {
    prop_oneof![
        6 => (any::<u16>(), prop_oneof![Just(0u64), Just(u64::MAX), any::<u64>()], 0u8..3, any::<bool>()).prop_map(|(a, b, c, d)| Q::Hit(a, b, c, d)),
        2 => (any::<u16>(), gen::name()).prop_map(|(a, b)| Q::Miss(a, b)),
        4 => (any::<u16>(), 0u8..6, any::<u16>(), gen::ext_char()).prop_map(|(a, b, c, d)| Q::Near(a, b, c, d)),
        2 => (any::<u16>(), gen::name(), any::<u64>()).prop_map(|(a, b, c)| Q::Below(a, b, c)),
        1 => (0u8..4).prop_map(Q::Root),
        2 => prop_oneof!["[/a-cA-C.]{0,8}", "\\PC{0,12}", any::<String>()].prop_map(Q::Any),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Q::Double(a, b)),
    ]
    .boxed()
}

fn case(o: Opts, nq: usize) -> BoxedStrategy<Case> {
    (gen::tree(o), gen::layout(), any::<bool>(), gen::far(), proptest::collection::vec(q(), 1..nq))
        .prop_map(|(tree, lay, packed, far, qs)| Case { tree, lay, packed, far, qs })
        .boxed()
}

enum Res<'a> {
    Root,
    Entry(&'a Path),
    Missing,
    ThroughFile,
}

/// The model: resolve components case-insensitively (ASCII) in the tree.
fn resolve<'a>(ix: &'a HashMap<Path, (Path, bool)>, comps: &[String]) -> Res<'a> {
    if comps.is_empty() {
        return Res::Root;
    }
    let key: Path = comps.iter().map(|c| upper(c)).collect();
    if let Some((p, _)) = ix.get(&key) {
        return Res::Entry(p);
    }
    for k in 1..key.len() {
        match ix.get(&key[..k]) {
            None => return Res::Missing,
            Some((_, false)) => return Res::ThroughFile,
            _ => {}
        }
    }
    Res::Missing
}

fn run(k: &Case, cx: &mut Cx) -> Outcome {
    let (img, far) = if k.packed { (pack_mem(&k.tree)?, None) } else { build_far(&k.tree, &k.lay, k.far) };
    cx.label_if(far.is_some(), "far regions");
    let p = reader::parse_far(&img, far).map_err(|e| format!("{}{e}", if k.packed { "" } else { "harness: " }))?;
    let mut byp: HashMap<Path, Desc> = HashMap::new();
    let mut ix: HashMap<Path, (Path, bool)> = HashMap::new();
    let mut paths: Vec<(Path, bool)> = vec![];
    for d in &p.dirs {
        for e in &d.entries {
            let mut q = d.path.clone();
            q.push(e.name_str());
            byp.insert(q.clone(), desc_parsed(d, e));
            ix.insert(q.iter().map(|c| upper(c)).collect(), (q.clone(), e.is_dir()));
            paths.push((q, e.is_dir()));
        }
    }
    paths.sort();
    let mut dev = MemDev::fueled(img, 2_000_000);
    dev.far = far;
    let vol = blk!(xdvdfs::read::read_volume(&mut dev)).map_err(e2s)?;
    let pick = |a: u16| if paths.is_empty() { None } else { Some(&paths[a as usize % paths.len()]) };
    let mut hits = 0;
    for q in &k.qs {
        cx.evals(1);
        let (text, exact) = match q {
            Q::Hit(a, bits, lead, trail) => {
                let Some((p, _)) = pick(*a) else { continue };
                let s: Vec<String> = p.iter().map(|c| gen::flip_case(c, *bits)).collect();
                (format!("{}{}{}", "/".repeat(*lead as usize), s.join("/"), if *trail { "/" } else { "" }), true)
            }
            Q::Miss(a, n) => {
                let mut base = pick(*a).map(|p| p.0.clone()).unwrap_or_default();
                base.pop();
                base.push(n.replace('/', "_"));
                (format!("/{}", base.join("/")), true)
            }
            Q::Near(a, how, at, ch) => {
                let Some((p, _)) = pick(*a) else { continue };
                let mut p = p.clone();
                let n = p.pop().unwrap();
                let mut cs: Vec<char> = n.chars().collect();
                let i = *at as usize % cs.len();
                match how {
                    0 => cs.push(*ch),
                    1 => cs.insert(0, *ch),
                    2 => {
                        cs.pop();
                    }
                    3 => cs[i] = *ch,
                    4 => {
                        cs.remove(i);
                    }
                    _ => {
                        // full Unicode case change: not equal unless ASCII
                        cs = n.to_uppercase().chars().collect();
                    }
                }
                let m: String = cs.into_iter().filter(|c| *c != '/').collect();
                if m.is_empty() {
                    continue;
                }
                p.push(m);
                (p.join("/"), true)
            }
            Q::Below(a, n, bits) => {
                let Some((p, _)) = pick(*a) else { continue };
                let mut s: Vec<String> = p.iter().map(|c| gen::flip_case(c, *bits)).collect();
                s.push(n.replace('/', "_"));
                (s.join("/"), true)
            }
            Q::Root(n) => ("/".repeat(*n as usize), true),
            Q::Any(s) => (s.clone(), false),
            Q::Double(a, at) => {
                let Some((p, _)) = pick(*a) else { continue };
                let mut s = p.clone();
                let i = *at as usize % (s.len() + 1);
                s.insert(i, String::new());
                (format!("/{}", s.join("/")), false)
            }
        };
        let comps: Vec<String> = text.split('/').filter(|c| !c.is_empty()).map(|c| c.to_string()).collect();
        let want = resolve(&ix, &comps);
        let got = blk!(vol.root_table.walk_path(&mut dev, &text));
        ensure!(!dev.out_of_fuel, "lookup of {text:?} does not end");
        match (&got, &want) {
            (Ok(n), Res::Entry(p)) => {
                let d = desc_of(n);
                ensure!(d == byp[*p], "lookup of {text:?} returned {d:?}, the image has {:?}", byp[*p]);
                hits += 1;
            }
            (Ok(n), _) => return Err(format!("lookup of {text:?} returned {:?}, but nothing is there", name_of(n))),
            (Err(_), _) if !exact => {}
            (Err(e), Res::Entry(_)) => return Err(format!("lookup of {text:?} failed: {e:?}")),
            (Err(XE::NoDirent), Res::Root) => cx.label("root"),
            (Err(XE::DoesNotExist | XE::DirectoryEmpty), Res::Missing) => cx.label("missing"),
            (Err(XE::IsNotDirectory), Res::ThroughFile) => cx.label("through a file"),
            (Err(e), _) => return Err(format!("lookup of {text:?} reported {e:?}")),
        }
    }
    cx.nontrivial(hits >= 1 && paths.len() >= 4);
    cx.label_if(k.tree.max_dir() >= 40, "dir of >= 40 entries");
    cx.label(if k.packed { "packed image".into() } else { format!("foreign image, tree shape {}", k.lay.shape) });
    Ok(())
}

fn main() {
    let mut c = Check::new(
        "C03",
        "exploration",
        "A case is an image (packed by the code or built independently in an arbitrary valid layout: any search-tree shape and
         entry order) and a list of queries: existing paths in any letter case with slashes, near misses, paths below files,
         root spellings, arbitrary strings. Each answer is compared with resolution in the generated tree. Non-trivial: the
         image has at least four entries and at least one query resolved to an entry. Evaluations count queries.",
    );
    c.assume("an empty directory may answer DoesNotExist or DirectoryEmpty; double slashes inside a path may resolve or fail, but not find another entry");
    c.part("lookup", 6000, 200000, || case(Opts { big: false, ..Opts::default() }, 30), run);
    c.part("bulk", 600, 15000, || {
        (gen::bulk_tree(900), gen::layout(), any::<bool>(), gen::far(), proptest::collection::vec(q(), 30..120))
            .prop_map(|(tree, lay, packed, far, qs)| Case { tree, lay, packed, far, qs })
            .boxed()
    }, run);
    c.part("every entry", 2500, 60000, || case(Opts { big: false, ..Opts::default() }, 2), |k: &Case, cx| {
        // all entries of the image, lower and upper case
        let n = k.tree.list().len() as u16;
        let mut k2 = k.clone();
        k2.qs = (0..n).flat_map(|i| [Q::Hit(i, 0, 1, false), Q::Hit(i, u64::MAX, 0, false)]).collect();
        if n == 0 {
            return Ok(());
        }
        run(&k2, cx)
    });
    c.finish();
}
