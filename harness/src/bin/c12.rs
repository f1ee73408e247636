//! C12: unrepresentable sources are rejected, not mangled.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use xdvdfs::write::img::create_xdvdfs_image;
use xv::builder::{build, Layout};
use xv::devs::{Medium, SparseDev};
use xv::gen::{self, Opts};
use xv::memfs::MemFs;
use xv::ops::*;
use xv::runner::*;
use xv::tree::*;
use xv::{blk, cli, ensure};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
    /// a sibling equal to an entry ignoring ASCII case
    Dup { flip: u64, dir: bool },
    /// a sibling equal only under a wider notion of case (representable)
    NearDup,
    /// a name with a character outside Windows-1252
    Char { c: char, at: u8 },
    /// a name of this many encoded bytes, of one- or multi-byte characters in UTF-8
    Long { n: u16, wide: bool },
    /// a file of this length
    Size(u64),
    /// this many entries of equal size in a directory of their own
    Table { n: u16, name: u8, extra: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    muts: Vec<(u16, Mut)>,
    order: u64,
}

fn mutation(host: bool) -> BoxedStrategy<Mut> {
    let bad_char = prop_oneof![
        proptest::sample::select(vec!['Ā', 'ā', 'Ω', '日', '\u{1f600}', 'ł', 'ı', 'ſ', '\u{212a}', '\u{2028}', '\u{ff0f}', '\u{80}', '\u{99}', '\u{ffff}', '\u{301}']),
        any::<char>(),
    ];
    let long = if host {
        (prop_oneof![250u16..=255, Just(255u16)], Just(false)).prop_map(|(n, wide)| Mut::Long { n, wide }).boxed()
    } else {
        (prop_oneof![3 => 250u16..260, 1 => 128u16..600, 1 => Just(256u16), 1 => Just(255u16)], any::<bool>()).prop_map(|(n, wide)| Mut::Long { n, wide }).boxed()
    };
    let table = if host {
        (prop_oneof![1020u16..1030, 1000u16..1100], Just(242u8), 0u8..2).prop_map(|(n, name, extra)| Mut::Table { n, name, extra }).boxed()
    } else {
        let exact = |name: u8| {
            let per = 2048 / (14 + name as u32).div_ceil(4).wrapping_mul(4);
            (128 * per) as u16
        };
        let sizes = proptest::sample::select(vec![3u8, 10, 18, 47, 50, 111, 114, 200, 239, 242, 243, 254, 255]);
        (sizes, -3i32..4, 0u8..3, any::<bool>()).prop_map(move |(name, d, extra, half)| Mut::Table { n: if half { exact(name) / 2 } else { (exact(name) as i32 + d) as u16 }, name, extra }).boxed()
    };
    let size = prop_oneof![
        Just(0xffff_ffffu64),
        Just(0x1_0000_0000),
        Just(0x1_0000_0001),
        Just(0xffff_fffe),
        Just(0x1_0000_0800),
        Just(0x8000_0000),
        Just(0x2_0000_0000),
        Just(1 << 40),
        Just(1 << 63),
        Just(u64::MAX),
        0xffff_0000u64..0x1_0001_0000,
    ];
    let w = if host { 0 } else { 3 };
    prop_oneof![
        6 => (any::<u64>(), any::<bool>()).prop_map(|(flip, dir)| Mut::Dup { flip, dir }),
        2 => Just(Mut::NearDup),
        4 => (bad_char, any::<u8>()).prop_map(|(c, at)| Mut::Char { c, at }),
        4 => long,
        3 + w => size.prop_map(Mut::Size),
        2 => table,
    ]
    .boxed()
}

fn case(o: Opts) -> BoxedStrategy<Case> {
    (gen::tree(o), proptest::collection::vec((any::<u16>(), mutation(o.host)), 1..3), any::<u64>()).prop_map(|(tree, muts, order)| Case { tree, muts, order }).boxed()
}

/// All directories' listings, by preorder index.
fn with_dir(l: &mut Vec<Entry>, at: &mut usize, want: usize, f: &mut dyn FnMut(&mut Vec<Entry>)) {
    if *at == want {
        f(l);
        *at += 1;
        return;
    }
    *at += 1;
    for e in l.iter_mut() {
        if let Node::Dir(c) = &mut e.node {
            with_dir(c, at, want, f);
        }
        if *at > want {
            return;
        }
    }
}

fn apply(k: &Case) -> Tree {
    let mut t = k.tree.clone();
    for (w, m) in &k.muts {
        let n = 1 + t.list().iter().filter(|e| e.1).count();
        let order = k.order;
        with_dir(&mut t.0, &mut 0, *w as usize % n, &mut |l| {
            let file = |len| Node::File { len, seed: 3 };
            let pos = order as usize % (l.len() + 1);
            let new = match m {
                Mut::Dup { flip, dir } => {
                    let Some(e) = l.get(order as usize / 7 % l.len().max(1)) else { return };
                    Entry { name: gen::flip_case(&e.name, *flip), node: if *dir { Node::Dir(vec![]) } else { file(5) } }
                }
                Mut::NearDup => {
                    l.push(Entry { name: "strasse\u{e9}".into(), node: file(1) });
                    Entry { name: "STRASSE\u{c9}".into(), node: file(2) }
                }
                Mut::Char { c, at } => {
                    let mut s: Vec<char> = "name".chars().collect();
                    // a separator inside a name is out of scope: no source yields it, and listings cannot show it
                    s.insert(*at as usize % 5, if *c == '/' { '_' } else { *c });
                    Entry { name: s.into_iter().collect(), node: if at % 2 == 0 { file(9) } else { Node::Dir(vec![]) } }
                }
                Mut::Long { n, wide } => Entry { name: (if *wide { "\u{20ac}" } else { "q" }).repeat(*n as usize), node: if order % 3 == 0 { Node::Dir(vec![]) } else { file(9) } },
                Mut::Size(len) => Entry { name: "huge~".into(), node: file(*len) },
                Mut::Table { n, name, extra } => {
                    let mut c: Vec<Entry> = gen::bulk_names(*n, *name, 0, order, (order % 5) as u8)
                        .into_iter()
                        .map(|name| Entry { name, node: if *extra == 1 && order % 11 == 0 { Node::Dir(vec![]) } else { file(0) } })
                        .collect();
                    if *extra == 2 {
                        c.push(Entry { name: "z".into(), node: file(1) });
                    }
                    Entry { name: "table~".into(), node: Node::Dir(c) }
                }
            };
            l.insert(pos, new);
        });
    }
    t
}

#[derive(Debug, Clone, PartialEq)]
enum Verdict {
    Yes,
    No(&'static str),
    Either,
}

/// Is the tree representable? Independent of the code under test.
fn representable(l: &[Entry]) -> Verdict {
    let mut v = Verdict::Yes;
    let mut seen = HashSet::new();
    let mut sizes: Vec<u64> = vec![];
    for e in l {
        match encode_name(&e.name) {
            None => return Verdict::No("encoding"),
            Some(b) if b.len() > 255 => return Verdict::No("name length"),
            Some(b) => sizes.push((14 + b.len() as u64).div_ceil(4) * 4),
        }
        if !seen.insert(upper(&e.name)) {
            return Verdict::No("duplicate");
        }
        match &e.node {
            Node::File { len, .. } if *len > u32::MAX as u64 => return Verdict::No("file size"),
            Node::Dir(c) => match representable(c) {
                Verdict::Yes => {}
                Verdict::Either => v = Verdict::Either,
                n => return n,
            },
            _ => {}
        }
    }
    // sectors needed at best, and at worst over all orders of the entries
    let sum: u64 = sizes.iter().sum();
    let big = sizes.iter().copied().max().unwrap_or(0);
    let uniform = sizes.iter().all(|s| *s == big);
    if uniform && big > 0 {
        if (sizes.len() as u64).div_ceil(2048 / big) > 128 {
            return Verdict::No("table size");
        }
    } else if sum > 262144 {
        return Verdict::No("table size");
    } else if sum > 128 * (2048 - big) {
        v = Verdict::Either;
    }
    v
}

fn judge(k: &Case, cx: &mut Cx) -> Outcome {
    let t = apply(k);
    let v = representable(&t.0);
    match &v {
        Verdict::Yes => cx.label("representable"),
        Verdict::No(w) => cx.label(format!("violates {w}")),
        Verdict::Either => cx.label("near the table limit"),
    }
    cx.nontrivial(t.0.len() > 1);
    let huge = t.list().iter().any(|e| e.2 > 1 << 24);
    let mut fs = MemFs::new(&t);
    fs.virtual_copy = huge;
    let mut d = SparseDev::default();
    let r = blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {}));
    match (&v, &r) {
        (Verdict::No(w), Ok(())) => return Err(format!("packing succeeded although the source violates a limit: {w}")),
        (Verdict::Yes, Err(e)) => return Err(format!("packing a representable source failed: {e:?}")),
        (_, Err(_)) => {}
        (_, Ok(())) => {
            // all of it is there
            let vol = blk!(xdvdfs::read::read_volume(&mut d)).map_err(e2s)?;
            let tree = blk!(vol.root_table.file_tree(&mut d)).map_err(e2s)?;
            let mut got: BTreeMap<Vec<String>, (bool, u64)> = BTreeMap::new();
            let mut used: Vec<(u64, u64)> = vec![(32, 33)];
            for (dir, e) in tree {
                let mut p: Vec<String> = dir.split('/').filter(|s| !s.is_empty()).map(String::from).collect();
                p.push(name_of(&e)?);
                let data = e.node.dirent.data;
                let dirent = e.node.dirent.is_directory();
                let secs = (data.size as u64).div_ceil(2048);
                if secs > 0 {
                    used.push((data.sector as u64, data.sector as u64 + secs));
                }
                ensure!(got.insert(p.clone(), (dirent, if dirent { 0 } else { data.size as u64 })).is_none(), "{p:?} appears twice");
            }
            let want: BTreeMap<_, _> = t.list().into_iter().map(|e| (e.0, (e.1, e.2))).collect();
            ensure!(got == want, "the image of {} entries describes {} entries, or others", want.len(), got.len());
            used.sort();
            for w in used.windows(2) {
                ensure!(w[0].1 <= w[1].0, "regions overlap: sectors {:?} and {:?}", w[0], w[1]);
            }
        }
    }
    // duplicates in an existing image are no better
    let dup_only = k.muts.iter().all(|m| matches!(m.1, Mut::Dup { .. } | Mut::NearDup));
    if dup_only {
        cx.evals(1);
        let img = build(&t, &Layout { seed: k.order, shape: (k.order % 5) as u8, ..Layout::default() });
        let r = repack_default(&Medium::bare(img));
        match (&v, &r) {
            (Verdict::No(w), Ok(_)) => return Err(format!("repacking succeeded although the source violates a limit: {w}")),
            (Verdict::Yes, Err(e)) => return Err(format!("repacking a representable source: {e}")),
            _ => {}
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sectors {
    n: u16,
    len: u32,
    sub: u8,
    /// distance from the limit in sectors
    delta: i32,
}

/// Images around the number of sectors that entries can address.
fn sectors(k: &Sectors, cx: &mut Cx) -> Outcome {
    // n files of len bytes, then one file that fills up to the limit
    let per = (k.len as u64).div_ceil(2048).max(1);
    let target = ((1i64 << 32) + k.delta as i64) as u64;
    let n = (k.n as u64).min((target - 4096) / per);
    let mut left = target - 4096 - n * per;
    let mut root: Vec<Entry> = vec![];
    let mut sub: Vec<Entry> = vec![];
    for i in 0..n {
        let e = Entry { name: format!("f{i:05}"), node: Node::File { len: k.len as u64, seed: 0 } };
        if i % 4 < k.sub as u64 {
            sub.push(e)
        } else {
            root.push(e)
        }
    }
    let mut i = 0;
    while left > 0 {
        let s = left.min(0x1f_ffff);
        root.push(Entry { name: format!("g{i:05}"), node: Node::File { len: s * 2048, seed: 0 } });
        left -= s;
        i += 1;
    }
    if !sub.is_empty() {
        root.push(Entry { name: "sub".into(), node: Node::Dir(sub) });
    }
    let t = Tree(root);
    // 4096 sectors of allowance for the descriptor, the first 32 sectors and the tables
    let total: u64 = t.list().iter().map(|e| if e.1 { 0 } else { e.2.div_ceil(2048).max(1) }).sum();
    let upper = total + 33 + 400;
    cx.nontrivial(true);
    let mut fs = MemFs::new(&t);
    fs.virtual_copy = true;
    let mut d = SparseDev::default();
    let r = blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {}));
    if total + 33 > 1 << 32 {
        cx.label("exceeds the addressable sectors");
        ensure!(r.is_err(), "packing {total} sectors of files succeeded");
    } else if upper < 1 << 32 {
        cx.label("just fits");
        r.map_err(|e| format!("packing {total} sectors of files failed: {e:?}"))?;
        let vol = blk!(xdvdfs::read::read_volume(&mut d)).map_err(e2s)?;
        let tree = blk!(vol.root_table.file_tree(&mut d)).map_err(e2s)?;
        let mut used: Vec<(u64, u64)> = vec![(0, 33)];
        ensure!(tree.len() == t.list().len(), "{} entries became {}", t.list().len(), tree.len());
        for (_, e) in tree {
            let data = e.node.dirent.data;
            used.push((data.sector as u64, data.sector as u64 + (data.size as u64).div_ceil(2048)));
        }
        used.sort();
        for w in used.windows(2) {
            ensure!(w[0].1 <= w[1].0, "regions overlap: sectors {:?} and {:?}", w[0], w[1]);
        }
    } else {
        cx.label("at the limit");
    }
    Ok(())
}

fn host(k: &(Case, u8), cx: &mut Cx) -> Outcome {
    let (k, how) = k;
    let t = apply(k);
    // names the host cannot hold, and sizes that would really be copied
    let mut ok = true;
    t.walk(&mut |_, e| {
        ok &= e.name.len() <= 255 && !e.name.contains('/') && !e.name.contains('\0') && !e.name.is_empty() && e.name != "." && e.name != "..";
        if let Node::File { len, .. } = e.node {
            ok &= len < 1 << 20 || (1 << 32..1 << 41).contains(&len);
        }
    });
    let mut names = HashSet::new();
    ok &= t.list().iter().all(|e| names.insert(e.0.clone()));
    if !ok {
        cx.label("not possible on the host");
        return Ok(());
    }
    let d = cx.scratch();
    fn write(dir: &std::path::Path, l: &[Entry]) {
        std::fs::create_dir_all(dir).unwrap();
        for e in l {
            let p = dir.join(&e.name);
            match &e.node {
                Node::Dir(c) => write(&p, c),
                Node::File { len, seed } if *len < 1 << 20 => std::fs::write(p, xv::content::bytes(*seed, *len)).unwrap(),
                Node::File { len, .. } => std::fs::File::create(p).and_then(|f| f.set_len(*len)).unwrap_or_else(|e| panic!("harness: {e}")),
            }
        }
    }
    write(&d.join("src"), &t.0);
    let v = representable(&t.0);
    // globs do not match across line breaks
    let breaks = t.list().iter().any(|e| e.0.iter().any(|n| n.contains(['\n', '\r'])));
    let args: Vec<&str> = match how {
        3 if breaks => vec!["pack", "src", "x.iso"],
        0 => vec!["pack", "src", "x.iso"],
        1 => vec!["compress", "src", "x.cso"],
        2 => vec!["extract-xiso", "-c", "src", "x.iso"],
        _ => vec!["build-image", "-m", "**:/{0}", "src", "x.iso"],
    };
    cx.nontrivial(t.0.len() > 1);
    let o = cli::run(&d, &args);
    match &v {
        Verdict::No(w) => {
            cx.label(format!("violates {w}"));
            o.failure(&format!("{args:?} of a source that violates a limit ({w})"))?;
        }
        Verdict::Yes => {
            cx.label("representable");
            o.success(&format!("{args:?}"))?;
            if *how != 1 {
                let img = std::fs::read(d.join("x.iso")).map_err(|e| format!("no image: {e}"))?;
                same(&t.flat(), &xv::reader::extract(&img)?, "the image")?;
            }
        }
        Verdict::Either => o.sane()?,
    }
    Ok(())
}

fn main() {
    let mut c = Check::new(
        "C12",
        "exploration",
        "A case is a random tree with one or two mutations at random directories: a sibling equal ignoring ASCII case (or only under
         a wider notion of case), a name with a character outside Windows-1252, names around 255 encoded bytes, files around and
         above 4 GiB (declared size, contents not materialised), and directories of equal-sized entries around the exact capacity
         of a table. A model decides whether the tree is representable; creation has to fail exactly if it is not, and on success
         every entry is there with its size and no regions overlap. Part `sectors` generates sources around 2^32 sectors, part
         `host` repeats the mutations on a host directory through the command line. Non-trivial: more than one entry.",
    );
    c.assume("directories of mixed entry sizes close to the table limit may be accepted or rejected, and so may images within 4096 sectors of 2^32 sectors");
    c.part("model", 30000, 400000, || case(Opts { big: false, bulk: false, ..Opts::default() }), judge);
    c.part(
        "sectors",
        400,
        1000,
        || {
            (1u16..3000, prop_oneof![Just(0xffff_ffffu32), 1u32..0xffff_ffff, Just(0xffff_f800), Just(0x8000_0000)], 0u8..4, prop_oneof![-1000i32..1000, 3500i32..4200, -60000i32..60000])
                .prop_map(|(n, len, sub, delta)| Sectors { n, len, sub, delta })
                .boxed()
        },
        sectors,
    );
    c.part("host", 1200, 20000, || (case(Opts { host: true, big: false, bulk: false, max_entries: 8, ..Opts::default() }), 0u8..4).boxed(), host);
    c.finish();
}
