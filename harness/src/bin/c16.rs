//! C16: the content checksum depends on contents only.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha3::{Digest, Sha3_256};
use std::sync::Arc;
use xdvdfs::blockdev::OffsetWrapper;
use xv::builder::{build_checked, build_far, giant, Layout};
use xv::cli;
use xv::content;
use xv::devs::{IoSrc, Medium, MemDev};
use xv::gen::{self, Opts};
use xv::ops::*;
use xv::runner::*;
use xv::tree::*;
use xv::{blk, ensure, reader, OFFSETS};

/// The bytes the checksum is defined over: paths in order, each followed by the file's contents.
fn stream(t: &Tree) -> Vec<u8> {
    let mut l: Vec<(String, bool, u64, u64)> = t.list().into_iter().map(|(p, d, n, s)| (format!("/{}", p.join("/")), d, n, s)).collect();
    l.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
    let mut out = vec![];
    for (p, d, n, s) in l {
        out.extend_from_slice(p.as_bytes());
        if !d {
            out.extend_from_slice(&content::bytes(s, n));
        }
    }
    out
}

fn digest(b: &[u8]) -> [u8; 32] {
    Sha3_256::digest(b).into()
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn sum<D>(mut d: D) -> Result<[u8; 32], String>
where
    D: xdvdfs::blockdev::BlockDeviceRead,
    D::ReadError: std::fmt::Debug + Send + Sync,
{
    let v = blk!(xdvdfs::read::read_volume(&mut d)).map_err(e2s)?;
    blk!(xdvdfs::checksum::checksum(&mut d, &v)).map_err(e2s)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    lay2: Layout,
    #[serde(default)]
    far: Option<(u16, u8)>,
    offset: u8,
    /// edits of the tree: (kind, place, value)
    edits: Vec<(u8, u16, u32)>,
}

/// A different tree, or None if the edit does not apply here.
fn edit(t: &Tree, kind: u8, place: u16, v: u32) -> Option<(Tree, &'static str)> {
    let mut t = t.clone();
    let n = t.list().len();
    let mut i = 0;
    let target = if n > 0 { place as usize % n } else { 0 };
    fn at<'a>(l: &'a mut Vec<Entry>, i: &mut usize, target: usize) -> Option<(&'a mut Vec<Entry>, usize)> {
        for j in 0..l.len() {
            if *i == target {
                return Some((l, j));
            }
            *i += 1;
            if let Node::Dir(_) = l[j].node {
                let Node::Dir(c) = &mut l[j].node else { unreachable!() };
                // the borrow checker does not accept a conditional return of a reborrow
                let c: *mut Vec<Entry> = c;
                if let Some(r) = at(unsafe { &mut *c }, i, target) {
                    return Some(r);
                }
            }
        }
        None
    }
    let fresh = |l: &Vec<Entry>| {
        let mut s = format!("n{v:x}");
        while l.iter().any(|e| upper(&e.name) == upper(&s)) {
            s.push('q');
        }
        s
    };
    let what = match kind {
        0 => {
            let (l, j) = at(&mut t.0, &mut i, target)?;
            let Node::File { len, seed } = &mut l[j].node else { return None };
            if *len == 0 {
                return None;
            }
            *seed = seed.wrapping_add(1 + v as u64);
            "other contents"
        }
        1 => {
            let (l, j) = at(&mut t.0, &mut i, target)?;
            let Node::File { len, .. } = &mut l[j].node else { return None };
            *len = if v % 2 == 0 { *len + 1 } else { len.checked_sub(1)? };
            "other length"
        }
        2 => {
            let (l, j) = at(&mut t.0, &mut i, target)?;
            l[j].name = fresh(l);
            "other name"
        }
        3 => {
            let (l, j) = at(&mut t.0, &mut i, target)?;
            let f = gen::flip_case(&l[j].name, v as u64 | 1);
            if f == l[j].name {
                return None;
            }
            l[j].name = f;
            "letter case"
        }
        4 => {
            let (l, j) = at(&mut t.0, &mut i, target)?;
            l.remove(j);
            "entry removed"
        }
        5 => {
            let l = match n {
                0 => &mut t.0,
                _ => at(&mut t.0, &mut i, target)?.0,
            };
            let name = fresh(l);
            let node = if v % 2 == 0 { Node::Dir(vec![]) } else { Node::File { len: (v % 9) as u64, seed: v as u64 } };
            l.push(Entry { name, node });
            "entry added"
        }
        6 => {
            let (l, j) = at(&mut t.0, &mut i, target)?;
            let e = l.remove(j);
            let name = fresh(l);
            l.push(Entry { name, node: Node::Dir(vec![e]) });
            "entry moved down"
        }
        _ => {
            // swap the contents of two files
            let l = t.list();
            let fs: Vec<usize> = (0..l.len()).filter(|&i| !l[i].1).collect();
            if fs.len() < 2 {
                return None;
            }
            let a = fs[place as usize % fs.len()];
            let b = fs[v as usize % fs.len()];
            if (l[a].2, l[a].3) == (l[b].2, l[b].3) {
                return None;
            }
            for (x, y) in [(a, b), (b, a)] {
                let mut i = 0;
                let (v, j) = at(&mut t.0, &mut i, x)?;
                v[j].node = Node::File { len: l[y].2, seed: l[y].3 };
            }
            "contents swapped"
        }
    };
    Some((t, what))
}

fn library(k: &Case, cx: &mut Cx) -> Outcome {
    let s = stream(&k.tree);
    let want = digest(&s);
    let a = build_checked(&k.tree, &k.lay);
    let b = build_checked(&k.tree, &k.lay2);
    cx.nontrivial(k.tree.list().len() >= 3 && a != b);
    let base = OFFSETS[k.offset as usize % 4];
    let m = |i: &Vec<u8>, far| Medium { image: Arc::new(i.clone()), base, tail: 77, surround: 5, far };
    let (b, far) = build_far(&k.tree, &k.lay2, k.far);
    cx.label_if(far.is_some(), "far regions");
    let check = |what: &str, got: Result<[u8; 32], String>| -> Outcome {
        let got = got.map_err(|e| format!("{what}: {e}"))?;
        ensure!(got == want, "{what}: the checksum is {}, not {}", hex(&got), hex(&want));
        Ok(())
    };
    check("first layout", sum(MemDev::new(a.clone())))?;
    check("second layout", sum(MemDev { far, ..MemDev::new(b.clone()) }))?;
    check("at an offset", sum(blk!(OffsetWrapper::new(m(&a, None))).map_err(e2s)?))?;
    check("std::io", sum(blk!(OffsetWrapper::new(std::io::BufReader::new(IoSrc::new(m(&b, far))))).map_err(e2s)?))?;
    check("packed", sum(MemDev::new(pack_mem(&k.tree)?)))?;
    check("repacked", sum(MemDev::new(repack_default(&m(&b, far))?)))?;
    cx.evals(6);
    for &(kind, place, v) in &k.edits {
        let Some((t, what)) = edit(&k.tree, kind, place, v) else { continue };
        let s2 = stream(&t);
        // the definition does not separate paths from contents, so different trees can share a stream
        if s2 == s {
            cx.label("edit that the definition does not see");
            continue;
        }
        cx.evals(1);
        cx.label(what);
        let got = sum(MemDev::new(build_checked(&t, &k.lay)))?;
        ensure!(got != want, "the checksum does not change: {what}");
        let w2 = digest(&s2);
        ensure!(got == w2, "{what}: the checksum is {}, not {}", hex(&got), hex(&w2));
    }
    Ok(())
}

fn command(k: &Case, cx: &mut Cx) -> Outcome {
    let d = cx.scratch();
    let want = hex(&digest(&stream(&k.tree)));
    let a = build_checked(&k.tree, &k.lay);
    std::fs::write(d.join("a.iso"), &a).map_err(e2s)?;
    let base = OFFSETS[k.offset as usize % 4];
    let (b, far) = build_far(&k.tree, &k.lay2, k.far);
    Medium { image: Arc::new(b), base, tail: 9, surround: 3, far }.to_file(&d.join("b.iso")).map_err(e2s)?;
    host_tree(&d.join("src"), &k.tree);
    cli::run(&d, &["pack", "src", "p.iso"]).success("pack")?;
    let mut files = vec!["a.iso", "b.iso", "p.iso", "a.iso"];
    // the last sector of compressed images is the subject of a finding of C06
    let p = std::fs::read(d.join("p.iso")).map_err(e2s)?;
    let end = reader::parse(&p)?.dirs.iter().flat_map(|x| x.entries.iter().map(|e| (e.sector, e.size)).chain([(x.sector, x.size)])).map(|(s, n)| s as u64 * 2048 + n as u64).max().unwrap_or(0);
    if end + 2048 <= p.len() as u64 {
        cli::run(&d, &["compress", "src", "c.cso"]).success("compress")?;
        files.push("c.1.cso");
        cx.label("compressed too");
    }
    let others: Vec<(String, String)> = k
        .edits
        .iter()
        .filter_map(|e| edit(&k.tree, e.0, e.1, e.2))
        .take(2)
        .enumerate()
        .map(|(i, (t, _))| {
            std::fs::write(d.join(format!("e{i}.iso")), build_checked(&t, &k.lay)).unwrap();
            (format!("e{i}.iso"), hex(&digest(&stream(&t))))
        })
        .collect();
    let mut args = vec!["checksum"];
    if k.offset & 4 != 0 {
        args.push("-s");
    }
    args.extend(files.iter().copied());
    args.extend(others.iter().map(|o| o.0.as_str()));
    let expect: String = files.iter().map(|f| format!("{want}\t{f}\n")).chain(others.iter().map(|(f, h)| format!("{h}\t{f}\n"))).collect();
    cx.nontrivial(k.tree.list().len() >= 3);
    for _ in 0..2 {
        cx.evals(1);
        let o = cli::run(&d, &args).success("checksum")?;
        ensure!(o.out() == expect, "{args:?}: expected {expect:?}, printed {:?}", o.out());
    }
    // a missing image is reported
    cli::run(&d, &["checksum", "a.iso", "none.iso"]).failure("checksum of a missing image")?;
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    tree: Tree,
    lay: Layout,
    giant: (u16, u8, u32),
    offset: u8,
}

/// A file of 2 GiB or more, of which all but a few sectors are zeroes.
fn run_giant(k: &Giant, cx: &mut Cx) -> Outcome {
    let Some(g) = giant(&k.tree, &k.lay, k.giant) else {
        cx.label("no file to enlarge");
        return Ok(());
    };
    cx.nontrivial(true);
    cx.label_if(g.size >= 1 << 31, "file of 2 GiB or more");
    let d = cx.scratch();
    let m = Medium { image: Arc::new(g.img.clone()), base: OFFSETS[k.offset as usize], tail: 0, surround: 3, far: Some(g.far) };
    m.to_file(&d.join("in.iso")).map_err(|e| format!("harness: {e}"))?;
    let mut h = Sha3_256::new();
    let mut l: Vec<_> = k.tree.list();
    l.sort_by_key(|e| format!("/{}", e.0.join("/")).into_bytes());
    for (p, dir, n, s) in l {
        h.update(format!("/{}", p.join("/")).as_bytes());
        if p == g.path {
            g.feed(s, &mut |b| h.update(b));
        } else if !dir {
            h.update(content::bytes(s, n));
        }
    }
    let want = hex(&h.finalize());
    let o = cli::run(&d, &["checksum", "-s", "in.iso"]).success("checksum")?;
    ensure!(o.out() == format!("{want}\tin.iso\n"), "checksum: printed {:?}, not {want}", o.out());
    Ok(())
}

fn main() {
    let mut c = Check::new(
        "C16",
        "exploration",
        "A case is a tree in two independent layouts, embedded at an offset, packed and repacked; all have to have the checksum that a
         model computes over the sorted paths and contents. Then the tree is edited (contents, length, name, letter case, entries
         added, removed, moved, contents swapped), which has to change the checksum to the model's value for the edited tree, unless
         the definition gives both the same byte stream. Part `commands` compares the printed lines of the checksum command over
         bare, embedded, packed, compressed and edited images, twice. Non-trivial: at least three entries.",
    );
    c.assume("paths and contents are hashed without separators, as documented by the implementation; trees with equal byte streams are not told apart");
    let case = |o: Opts| {
        (gen::tree(o), gen::layout(), (gen::layout(), gen::far_file()), 0u8..8, proptest::collection::vec((0u8..8, any::<u16>(), any::<u32>()), 2..8))
            .prop_map(|(tree, lay, (lay2, far), offset, edits)| Case { tree, lay, lay2, far, offset, edits })
            .boxed()
    };
    c.part("library", 3000, 80000, || case(Opts { bulk_max: 200, ..Opts::default() }), library);
    c.part("commands", 500, 10000, || case(Opts { host: true, bulk_max: 60, max_entries: 10, ..Opts::default() }), command);
    c.part("large library", 16, 400, || (case(Opts { host: false, big: false, bulk: false, max_entries: 6, ..Opts::default() }), gen::large_tree(false)).prop_map(|(k, tree)| Case { tree, far: None, ..k }).boxed(), library);
    c.part("large", 10, 400, || (case(Opts { host: true, big: false, bulk: false, max_entries: 6, ..Opts::default() }), gen::large_tree(true)).prop_map(|(k, tree)| Case { tree, far: None, ..k }).boxed(), command);
    // just beyond 2 GiB
    c.part(
        "giant",
        1,
        40,
        || {
            (gen::tree(Opts { big: false, bulk: false, max_entries: 8, ..Opts::default() }).prop_filter("no file", |t| t.total_bytes() > 0), gen::layout(), gen::giant_2g(), 0u8..4)
                .prop_map(|(tree, lay, giant, offset)| Giant { tree, lay, giant, offset })
                .boxed()
        },
        run_giant,
    );
    c.finish();
}
