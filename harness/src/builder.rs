//! Builds well-formed images with layouts the repository's own writer never chooses.
use crate::content::{self, mix};
use crate::devs::read_far;
use crate::ensure;
use crate::reader::MAGIC;
use crate::tree::{encode_name, name_cmp, Entry, Node, Path, Tree};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Layout {
    pub seed: u64,
    /// 0 balanced, 1 random, 2 right chain, 3 left chain, 4 zigzag
    pub shape: u8,
    /// 0 preorder, 1 shuffled, 2 sorted (root entry first in any case)
    pub order: u8,
    pub zero_fill: bool,
    /// write 0xffff instead of 0 for a missing child (0 never, 1 always, 2 mixed)
    pub ffff: u8,
    pub shuffle_regions: bool,
    pub gaps: bool,
    pub low_sectors: bool,
    pub round_dirs: bool,
    pub empty_dir_sector: bool,
    pub odd_attrs: bool,
    pub tight_end: bool,
    /// files with the same bytes share them
    #[serde(default)]
    pub share: bool,
}

impl Default for Layout {
    fn default() -> Self {
        Layout {
            seed: 1,
            shape: 0,
            order: 0,
            zero_fill: false,
            ffff: 0,
            shuffle_regions: false,
            gaps: false,
            low_sectors: false,
            round_dirs: true,
            empty_dir_sector: true,
            odd_attrs: false,
            tight_end: false,
            share: false,
        }
    }
}

struct R(u64);
impl R {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
}

struct Ent {
    name: Vec<u8>,
    attr: u8,
    region: Option<usize>,
    size: u32,
}

struct Table {
    ents: Vec<Ent>, // sorted
    pos: Vec<u64>,
    left: Vec<Option<usize>>,
    right: Vec<Option<usize>>,
    used: u64,
    size: u32,
}

enum Region {
    Table(usize),
    File { seed: u64, len: u64 },
}

/// Shape of the search tree over n sorted entries: (root, left, right).
fn shape(n: usize, kind: u8, r: &mut R) -> (usize, Vec<Option<usize>>, Vec<Option<usize>>) {
    let mut left = vec![None; n];
    let mut right = vec![None; n];
    let pick = |lo: usize, hi: usize, depth: usize, r: &mut R| -> usize {
        let k = hi - lo;
        match kind {
            0 => lo + k / 2,
            1 => lo + r.below(k as u64) as usize,
            2 => lo,
            3 => hi - 1,
            _ => {
                if depth % 2 == 0 {
                    lo
                } else {
                    hi - 1
                }
            }
        }
    };
    let root = pick(0, n, 0, r);
    let mut st = vec![(root, 0usize, n, 0usize)];
    while let Some((m, lo, hi, d)) = st.pop() {
        if lo < m {
            let c = pick(lo, m, d + 1, r);
            left[m] = Some(c);
            st.push((c, lo, m, d + 1));
        }
        if m + 1 < hi {
            let c = pick(m + 1, hi, d + 1, r);
            right[m] = Some(c);
            st.push((c, m + 1, hi, d + 1));
        }
    }
    (root, left, right)
}

fn add_table(list: &[Entry], lay: &Layout, r: &mut R, tables: &mut Vec<Table>, regions: &mut Vec<Region>) -> (Option<usize>, u32) {
    if list.is_empty() && !lay.empty_dir_sector {
        return (None, 0);
    }
    let mut sorted: Vec<&Entry> = list.iter().collect();
    sorted.sort_by(|a, b| name_cmp(&a.name, &b.name));
    let mut ents = vec![];
    for e in sorted {
        let name = encode_name(&e.name).expect("encodable name");
        assert!(name.len() <= 255);
        let odd = if lay.odd_attrs { (r.next() as u8) & 0b1110_1111 } else { 0 };
        match &e.node {
            Node::Dir(c) => {
                let (region, size) = add_table(c, lay, r, tables, regions);
                ents.push(Ent { name, attr: 0x10 | odd, region, size });
            }
            Node::File { len, seed } => {
                let same = |x: &Region| matches!(x, Region::File { seed: s, len: l } if s == seed && l == len);
                let region = if let Some(i) = regions.iter().position(|x| lay.share && *len > 0 && same(x)) {
                    Some(i)
                } else if *len > 0 {
                    regions.push(Region::File { seed: *seed, len: *len });
                    Some(regions.len() - 1)
                } else {
                    None
                };
                let attr = if lay.odd_attrs { odd } else { 0x20 };
                ents.push(Ent { name, attr, region, size: *len as u32 });
            }
        }
    }
    let n = ents.len();
    let (mut pos, mut left, mut right, mut used) = (vec![0u64; n], vec![], vec![], 0u64);
    if n > 0 {
        let (root, l, rr) = shape(n, lay.shape, r);
        left = l;
        right = rr;
        // physical order
        let mut order: Vec<usize> = vec![];
        match lay.order {
            0 => {
                let mut st = vec![root];
                while let Some(i) = st.pop() {
                    order.push(i);
                    if let Some(c) = right[i] {
                        st.push(c);
                    }
                    if let Some(c) = left[i] {
                        st.push(c);
                    }
                }
            }
            k => {
                let mut rest: Vec<usize> = (0..n).filter(|i| *i != root).collect();
                if k == 1 {
                    for i in (1..rest.len()).rev() {
                        rest.swap(i, r.below(i as u64 + 1) as usize);
                    }
                }
                order.push(root);
                order.extend(rest);
            }
        }
        for i in order {
            let sz = 14 + ents[i].name.len() as u64;
            let mut p = used.div_ceil(4) * 4;
            if p / 2048 != (p + sz - 1) / 2048 {
                p = (p / 2048 + 1) * 2048;
            }
            pos[i] = p;
            used = p + sz;
        }
        used = used.div_ceil(4) * 4;
        assert!(used <= 262144, "table too large");
    }
    let size = if n == 0 || lay.round_dirs { used.div_ceil(2048).max(1) * 2048 } else { used } as u32;
    tables.push(Table { ents, pos, left, right, used, size });
    regions.push(Region::Table(tables.len() - 1));
    (Some(regions.len() - 1), size)
}

pub fn build(tree: &Tree, lay: &Layout) -> Vec<u8> {
    let mut r = R(lay.seed);
    let mut tables = vec![];
    let mut regions = vec![];
    let (root_region, root_size) = add_table(&tree.0, lay, &mut r, &mut tables, &mut regions);
    // placement
    let mut idx: Vec<usize> = (0..regions.len()).collect();
    if lay.shuffle_regions {
        for i in (1..idx.len()).rev() {
            idx.swap(i, r.below(i as u64 + 1) as usize);
        }
    } else {
        idx.reverse();
    }
    let mut sector = vec![0u64; regions.len()];
    let mut low = 0u64;
    let mut next = 33u64;
    let mut end = 33 * 2048u64;
    for i in idx {
        let len = match &regions[i] {
            Region::Table(t) => (tables[*t].size as u64).div_ceil(2048) * 2048,
            Region::File { len, .. } => *len,
        };
        let secs = len.div_ceil(2048);
        if lay.low_sectors && low + secs <= 32 && r.below(2) == 0 {
            sector[i] = low;
            low += secs;
            continue;
        }
        if lay.gaps {
            next += r.below(4);
        }
        sector[i] = next;
        let tight = lay.tight_end && matches!(regions[i], Region::File { .. });
        end = if tight { next * 2048 + len } else { (next + secs) * 2048 };
        next += secs;
    }
    // unreferenced bytes are garbage, not zero: nothing may depend on them
    let mut img = vec![0u8; end as usize];
    let garbage = r.next();
    if lay.gaps {
        for (k, c) in img.chunks_mut(8).enumerate() {
            let g = mix(garbage ^ k as u64).to_le_bytes();
            let l = c.len();
            c.copy_from_slice(&g[..l]);
        }
    }
    let vd = 32 * 2048usize;
    img[vd..vd + 2048].fill(0);
    img[vd..vd + 20].copy_from_slice(MAGIC);
    let rs = root_region.map(|x| sector[x]).unwrap_or(0) as u32;
    img[vd + 20..vd + 24].copy_from_slice(&rs.to_le_bytes());
    img[vd + 24..vd + 28].copy_from_slice(&root_size.to_le_bytes());
    img[vd + 28..vd + 36].copy_from_slice(&(lay.seed ^ 0x01d5_0000_0000_0000).to_le_bytes());
    img[vd + 2028..vd + 2048].copy_from_slice(MAGIC);
    for (i, reg) in regions.iter().enumerate() {
        let base = (sector[i] * 2048) as usize;
        match reg {
            Region::File { seed, len } => {
                let b = crate::content::bytes(*seed, *len);
                img[base..base + b.len()].copy_from_slice(&b);
            }
            Region::Table(t) => {
                let t = &tables[*t];
                let full = (t.size as usize).div_ceil(2048) * 2048;
                img[base..base + full].fill(if lay.zero_fill { 0 } else { 0xff });
                for (k, e) in t.ents.iter().enumerate() {
                    let o = base + t.pos[k] as usize;
                    let mut child = |c: Option<usize>| match c {
                        Some(c) => (t.pos[c] / 4) as u16,
                        None => match lay.ffff {
                            0 => 0,
                            1 => 0xffff,
                            _ => {
                                if r.below(2) == 0 {
                                    0
                                } else {
                                    0xffff
                                }
                            }
                        },
                    };
                    let l = child(t.left[k]);
                    let rr = child(t.right[k]);
                    img[o..o + 2].copy_from_slice(&l.to_le_bytes());
                    img[o + 2..o + 4].copy_from_slice(&rr.to_le_bytes());
                    let s = match e.region {
                        Some(x) => sector[x] as u32,
                        None => (lay.seed % 97) as u32,
                    };
                    img[o + 4..o + 8].copy_from_slice(&s.to_le_bytes());
                    img[o + 8..o + 12].copy_from_slice(&e.size.to_le_bytes());
                    img[o + 12] = e.attr;
                    img[o + 13] = e.name.len() as u8;
                    img[o + 14..o + 14 + e.name.len()].copy_from_slice(&e.name);
                }
                debug_assert!(t.used <= t.size as u64);
            }
        }
    }
    img
}

/// Self-check of the builder against the independent reader.
pub fn build_checked(tree: &Tree, lay: &Layout) -> Vec<u8> {
    let img = build(tree, lay);
    let p = crate::reader::parse(&img).expect("builder produces a parsable image");
    for d in &p.dirs {
        crate::validate::check_bst(d).expect("builder produces a search tree");
    }
    let got = p.flat(&img).expect("flatten");
    if let Some(d) = crate::tree::diff(&tree.flat(), &got) {
        panic!("harness: builder and reader disagree: {d}");
    }
    img
}

/// Distances in an image, in sectors: around the limits of 2 and 4 GiB, a whole medium, and the last sectors there can be.
const FAR: [u64; 8] = [0x100000, 0x200000, 0x300000, 0x400000, 0x80_0000, 0x4000_0000, 0x8000_0000, 0xffff_ffff];

/// Moves all regions from one on so far that there is a gap; returns its position and length.
/// `how`: distance; its high bits decide if a region is to straddle the boundary.
pub fn spread(img: &mut [u8], at: u16, how: u8) -> Option<(u64, u64)> {
    let p = crate::reader::parse(img).expect("builder produces a parsable image");
    let vd = 32 * 2048usize;
    // (where the sector is noted, sector, sectors)
    let mut all = vec![(vd + 20, p.root_sector as u64, p.root_size as u64)];
    for d in &p.dirs {
        for e in &d.entries {
            all.push((d.sector as usize * 2048 + e.pos as usize + 4, e.sector as u64, e.size as u64));
        }
    }
    all.retain(|e| e.2 > 0);
    let mut starts: Vec<u64> = all.iter().map(|e| e.1).filter(|s| *s > 32).collect();
    starts.sort();
    starts.dedup();
    let cut = *starts.get(at as usize % starts.len().max(1))?;
    let far = FAR[how as usize % 8];
    let last = all.iter().map(|e| e.1 + e.2.div_ceil(2048)).max().unwrap();
    let by = if far == 0xffff_ffff {
        // the last region starts at the last sector that has a number
        far - *starts.last().unwrap()
    } else if how & 8 != 0 {
        // the boundary is within what is moved
        far - cut - (how as u64 >> 4).min(last - cut)
    } else {
        far
    };
    for (o, s, _) in all {
        if s >= cut {
            img[o..o + 4].copy_from_slice(&((s + by) as u32).to_le_bytes());
        }
    }
    Some((cut * 2048, by * 2048))
}

/// An image, perhaps with a gap.
pub fn build_far(tree: &Tree, lay: &Layout, far: Option<(u16, u8)>) -> (Vec<u8>, Option<(u64, u64)>) {
    let mut img = build_checked(tree, lay);
    let gap = far.and_then(|(at, how)| spread(&mut img, at, how));
    (img, gap)
}

/// An image with a gap of zeroes inside a file's data.
pub struct Giant {
    pub img: Vec<u8>,
    pub far: (u64, u64),
    pub path: Path,
    /// position and length of the gap in the file
    pub gap: (u64, u64),
    pub size: u64,
}

/// Lengths around the limits of 24 to 32 bits.
const GIANT: [u64; 8] = [1 << 24, 1 << 26, 1 << 30, 1 << 31, 3 << 30, u32::MAX as u64, 1 << 31, u32::MAX as u64];

/// Enlarges a file that shares its data with no other.
pub fn giant(tree: &Tree, lay: &Layout, (pick, kind, v): (u16, u8, u32)) -> Option<Giant> {
    let mut img = build_checked(tree, lay);
    let p = crate::reader::parse(&img).expect("builder produces a parsable image");
    let mut all = vec![(32 * 2048 + 20, p.root_sector as u64, p.root_size as u64, None)];
    for d in &p.dirs {
        for e in &d.entries {
            let mut path = d.path.clone();
            path.push(e.name_str());
            all.push((d.sector as usize * 2048 + e.pos as usize + 4, e.sector as u64, e.size as u64, if e.is_dir() { None } else { Some(path) }));
        }
    }
    all.retain(|e| e.2 > 0);
    let end = |e: &(usize, u64, u64, Option<Path>)| e.1 + e.2.div_ceil(2048);
    let alone: Vec<usize> = (0..all.len()).filter(|&i| all[i].3.is_some() && all[i].1 > 32 && (0..all.len()).all(|j| i == j || end(&all[j]) <= all[i].1 || all[j].1 >= end(&all[i]))).collect();
    let (at, sector, len, path) = all[*alone.get(pick as usize % alone.len().max(1))?].clone();
    let want = GIANT[kind as usize % 8];
    // exactly the limit, or near it, or anything
    let want = match kind / 8 % 4 {
        0 => want,
        1 => want - v as u64 % 5000,
        2 => (want + v as u64 % 5000).min(u32::MAX as u64),
        _ => want / 2 + v as u64 % (want / 2),
    };
    let by = want.saturating_sub(len) / 2048 * 2048;
    if by == 0 {
        return None;
    }
    let cut = v as u64 % len;
    for (o, s, ..) in &all {
        if *s > sector {
            img[*o..*o + 4].copy_from_slice(&((s + by / 2048) as u32).to_le_bytes());
        }
    }
    img[at + 4..at + 8].copy_from_slice(&((len + by) as u32).to_le_bytes());
    Some(Giant { img, far: (sector * 2048 + cut, by), path: path.unwrap(), gap: (cut, by), size: len + by })
}

impl Giant {
    /// Bytes of the enlarged file, whose data without the gap is `content::bytes(seed, len)`.
    pub fn range(&self, seed: u64, offset: u64, n: u64) -> Vec<u8> {
        let len = self.size - self.gap.1;
        let n = n.min(self.size.saturating_sub(offset));
        let mut b = vec![0; n as usize];
        read_far(&content::bytes(seed, len), self.gap, offset.min(self.size), &mut b);
        b
    }

    /// An image read through `get` holds this tree, the file enlarged. `zero`: are these bytes zero?
    pub fn check(&self, tree: &Tree, get: &dyn Fn(u64, &mut [u8]) -> bool, zero: &dyn Fn(u64, u64) -> bool) -> Result<(), String> {
        let p = crate::reader::parse_with(get)?;
        let mut want = std::collections::BTreeMap::new();
        tree.walk(&mut |pre, e| {
            let mut p = pre.to_vec();
            p.push(e.name.clone());
            want.insert(p, &e.node);
        });
        let mut found = 0;
        for dir in &p.dirs {
            for e in &dir.entries {
                let mut path = dir.path.clone();
                path.push(e.name_str());
                let node = want.get(&path).ok_or_else(|| format!("{path:?} is not in the tree"))?;
                found += 1;
                let Node::File { len, seed } = node else {
                    ensure!(e.is_dir(), "{path:?} is no directory");
                    continue;
                };
                let own = path == self.path;
                let n = if own { self.size } else { *len };
                ensure!(!e.is_dir() && e.size as u64 == n, "{path:?}: {} bytes, not {n}", e.size);
                let base = e.sector as u64 * 2048;
                let parts = if own { vec![(0, self.gap.0), (self.gap.0 + self.gap.1, n - self.gap.0 - self.gap.1)] } else { vec![(0, n)] };
                for (o, l) in parts {
                    let mut b = vec![0; l as usize];
                    ensure!(n == 0 || get(base + o, &mut b), "{path:?} goes beyond the end of the image");
                    let want = if own { self.range(*seed, o, l) } else { content::bytes(*seed, n) };
                    ensure!(b == want, "{path:?} at {o}: other data than the source's");
                }
                if own {
                    ensure!(zero(base + self.gap.0, base + self.gap.0 + self.gap.1), "{path:?} of {n} bytes: data where the source has zeroes");
                }
            }
        }
        ensure!(found == want.len(), "{found} entries of {}", want.len());
        Ok(())
    }

    /// The bytes of the enlarged file, in pieces.
    pub fn feed(&self, seed: u64, f: &mut dyn FnMut(&[u8])) {
        let b = content::bytes(seed, self.size - self.gap.1);
        f(&b[..self.gap.0 as usize]);
        let zeroes = vec![0u8; 1 << 20];
        let mut left = self.gap.1;
        while left > 0 {
            let n = left.min(1 << 20);
            f(&zeroes[..n as usize]);
            left -= n;
        }
        f(&b[self.gap.0 as usize..]);
    }

    /// A host file holds the enlarged file.
    pub fn check_copy(&self, path: &std::path::Path, seed: u64) -> Result<(), String> {
        let f = HostFile::open(path)?;
        let t = path.file_name().unwrap_or_default();
        ensure!(f.len == self.size, "{t:?} has {} bytes, not {}", f.len, self.size);
        for (o, l) in [(0, self.gap.0), (self.gap.0 + self.gap.1, self.size - self.gap.0 - self.gap.1)] {
            let mut b = vec![0; l as usize];
            ensure!(f.get(o, &mut b) && b == self.range(seed, o, l), "{t:?} at {o}: other data");
        }
        ensure!(f.zero(self.gap.0, self.gap.0 + self.gap.1), "{t:?}: data where there are zeroes");
        Ok(())
    }
}

/// A host directory's file becomes 2 GiB or more, a hole for the most part; a tree of the host has to be there already.
pub fn enlarge_host(src: &std::path::Path, tree: &Tree, pick: u16, cut: u64, over: u64) -> Result<Option<(Giant, u64)>, String> {
    use std::os::unix::fs::FileExt;
    let files: Vec<_> = tree.list().into_iter().filter(|e| !e.1 && e.2 > 0).collect();
    let Some((path, _, len, seed)) = files.get(pick as usize % files.len().max(1)).cloned() else { return Ok(None) };
    let size = (1u64 << 31) - 1 + over + len;
    let cut = cut % (len + 1);
    let b = content::bytes(seed, len);
    let f = std::fs::OpenOptions::new().write(true).truncate(true).open(src.join(path.join("/"))).map_err(|e| format!("harness: {e}"))?;
    f.set_len(size).and_then(|_| f.write_all_at(&b[..cut as usize], 0)).and_then(|_| f.write_all_at(&b[cut as usize..], cut + size - len)).map_err(|e| format!("harness: {e}"))?;
    Ok(Some((Giant { img: vec![], far: (0, 0), path, gap: (cut, size - len), size }, seed)))
}

/// A large file of the host.
pub struct HostFile {
    f: std::fs::File,
    pub len: u64,
}

impl HostFile {
    pub fn open(p: &std::path::Path) -> Result<HostFile, String> {
        let f = std::fs::File::open(p).map_err(|e| format!("{}: {e}", p.display()))?;
        let len = f.metadata().map_err(|e| e.to_string())?.len();
        Ok(HostFile { f, len })
    }
    pub fn get(&self, o: u64, b: &mut [u8]) -> bool {
        use std::os::unix::fs::FileExt;
        self.f.read_exact_at(b, o).is_ok()
    }
    pub fn zero(&self, a: u64, e: u64) -> bool {
        let (mut b, none) = (vec![0u8; 1 << 20], vec![0u8; 1 << 20]);
        let mut o = a;
        while o < e {
            let n = (e - o).min(1 << 20) as usize;
            if !self.get(o, &mut b[..n]) || b[..n] != none[..n] {
                return false;
            }
            o += n as u64;
        }
        true
    }
}
