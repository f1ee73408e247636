//! Structured damage to images.
use crate::builder::{build, Layout};
use crate::tree::Tree;
use crate::{content, reader};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Where a mutated 16- or 32-bit value comes from.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum V {
    Lit(u32),
    /// the position (in words) of an entry of the same table
    Entry(u16),
    /// the sector of a directory / of an entry's data
    Dir(u16),
    Data(u16),
    /// the old value plus something
    Add(i32),
    /// around the length of the image
    End(i32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum M {
    /// entry, field (left, right, sector, size, attributes, name length), value
    Field(u16, u8, V),
    /// an entry becomes a directory whose table is that of directory j
    Loop(u16, u16),
    Root(bool, V),
    /// xor a byte of an entry
    Entry(u16, u16, u8),
    Flip(u32, u8),
    Cut(u32),
    /// overwrite a whole sector with filler or noise
    Sector(u16, u8, u32),
    Name(u16, Vec<u8>),
    /// an entry becomes a directory, in a new sector at the end, whose only
    /// entry is itself
    Own(u16),
}

pub fn v() -> BoxedStrategy<V> {
    prop_oneof![
        3 => proptest::sample::select(vec![0u32, 1, 2, 3, 4, 0x7f, 0x80, 0xff, 0x1ff, 0x200, 0x3ff, 0x7ff, 0x800, 0x3fff, 0x4000, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x40000, 0x7fffffff, 0x80000000, 0xfffff800, 0xfffffffe, 0xffffffff, 32, 33]).prop_map(V::Lit),
        1 => any::<u32>().prop_map(V::Lit),
        1 => (0u32..4096).prop_map(V::Lit),
        4 => any::<u16>().prop_map(V::Entry),
        2 => any::<u16>().prop_map(V::Dir),
        1 => any::<u16>().prop_map(V::Data),
        2 => (-4096i32..4096).prop_map(V::Add),
        1 => (-5i32..5).prop_map(V::Add),
        1 => (-5i32..5).prop_map(V::End),
    ]
    .boxed()
}

pub fn muts() -> BoxedStrategy<Vec<M>> {
    proptest::collection::vec(
        prop_oneof![
            8 => (any::<u16>(), 0u8..6, v()).prop_map(|(a, b, c)| M::Field(a, b, c)),
            2 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| M::Loop(a, b)),
            1 => any::<u16>().prop_map(M::Own),
            1 => (any::<bool>(), v()).prop_map(|(a, b)| M::Root(a, b)),
            2 => (any::<u16>(), any::<u16>(), 1u8..=255).prop_map(|(a, b, c)| M::Entry(a, b, c)),
            1 => (any::<u32>(), 1u8..=255).prop_map(|(a, b)| M::Flip(a, b)),
            1 => any::<u32>().prop_map(M::Cut),
            1 => (any::<u16>(), 0u8..4, any::<u32>()).prop_map(|(a, b, c)| M::Sector(a, b, c)),
            2 => (any::<u16>(), prop_oneof![
                proptest::collection::vec(any::<u8>(), 1..20),
                proptest::sample::select(vec![&b".."[..], b".", b"/", b"a/b", b"../x", b"", b"\0", b"/etc"]).prop_map(|b| b.to_vec()),
            ]).prop_map(|(a, b)| M::Name(a, b)),
        ],
        0..6,
    )
    .boxed()
}

/// An image, damaged.
pub fn image(tree: &Tree, lay: &Layout, muts: &[M]) -> Vec<u8> {
    let mut img = build(tree, lay);
    let p = reader::parse(&img).expect("harness: own image");
    // (absolute position, table index)
    let mut ents: Vec<(usize, usize, u64)> = vec![];
    for (di, d) in p.dirs.iter().enumerate() {
        for e in &d.entries {
            ents.push(((d.sector as u64 * 2048 + e.pos) as usize, di, e.pos));
        }
    }
    let data: Vec<u32> = p.dirs.iter().flat_map(|d| d.entries.iter().map(|e| e.sector)).collect();
    let pick = |n: usize, i: u16| if n == 0 { None } else { Some(i as usize % n) };
    let put = |img: &mut Vec<u8>, at: usize, b: &[u8]| {
        if at + b.len() <= img.len() {
            img[at..at + b.len()].copy_from_slice(b);
        }
    };
    let get32 = |img: &[u8], at: usize, n: usize| -> u32 {
        let mut b = [0; 4];
        if at + n <= img.len() {
            b[..n].copy_from_slice(&img[at..at + n]);
        }
        u32::from_le_bytes(b)
    };
    for m in muts {
        match m {
            M::Field(e, f, v) => {
                let Some(i) = pick(ents.len(), *e) else { continue };
                let (at, di, _) = ents[i];
                let (o, n) = [(0, 2), (2, 2), (4, 4), (8, 4), (12, 1), (13, 1)][*f as usize];
                let val = match v {
                    V::Lit(x) => *x,
                    V::Entry(j) => {
                        let same: Vec<u64> = ents.iter().filter(|x| x.1 == di).map(|x| x.2).collect();
                        (same[*j as usize % same.len()] / 4) as u32
                    }
                    V::Dir(j) => p.dirs[*j as usize % p.dirs.len()].sector,
                    V::Data(j) => data[*j as usize % data.len()],
                    V::Add(x) => get32(&img, at + o, n).wrapping_add(*x as u32),
                    V::End(x) => ((img.len() as i64 / if n == 2 { 4 } else { 2048 }) + *x as i64) as u32,
                };
                put(&mut img, at + o, &val.to_le_bytes()[..n]);
            }
            M::Loop(e, j) => {
                let Some(i) = pick(ents.len(), *e) else { continue };
                let d = &p.dirs[*j as usize % p.dirs.len()];
                let at = ents[i].0;
                put(&mut img, at + 4, &d.sector.to_le_bytes());
                put(&mut img, at + 8, &d.size.to_le_bytes());
                put(&mut img, at + 12, &[0x10]);
            }
            M::Own(e) => {
                let Some(i) = pick(ents.len(), *e) else { continue };
                let sector = img.len().div_ceil(2048) as u32;
                let mut t = vec![0xff; 2048];
                t[..4].fill(0);
                t[4..8].copy_from_slice(&sector.to_le_bytes());
                t[8..12].copy_from_slice(&2048u32.to_le_bytes());
                t[12..15].copy_from_slice(&[0x10, 1, b'l']);
                img.resize(sector as usize * 2048, 0);
                img.extend(t);
                let at = ents[i].0;
                put(&mut img, at + 4, &sector.to_le_bytes());
                put(&mut img, at + 8, &2048u32.to_le_bytes());
                put(&mut img, at + 12, &[0x10]);
            }
            M::Root(size, v) => {
                let at = 65536 + 20 + if *size { 4 } else { 0 };
                let val = match v {
                    V::Lit(x) => *x,
                    V::Dir(j) | V::Entry(j) => {
                        let d = &p.dirs[*j as usize % p.dirs.len()];
                        if *size {
                            d.size
                        } else {
                            d.sector
                        }
                    }
                    V::Data(j) => data.get(*j as usize % data.len().max(1)).copied().unwrap_or(7),
                    V::Add(x) => get32(&img, at, 4).wrapping_add(*x as u32),
                    V::End(x) => ((img.len() as i64 / 2048) + *x as i64) as u32,
                };
                put(&mut img, at, &val.to_le_bytes());
            }
            M::Entry(e, o, x) => {
                let Some(i) = pick(ents.len(), *e) else { continue };
                let at = ents[i].0 + *o as usize % 24;
                if at < img.len() {
                    img[at] ^= x;
                }
            }
            M::Flip(a, x) => {
                if !img.is_empty() {
                    let n = img.len();
                    img[*a as usize % n] ^= x;
                }
            }
            M::Cut(a) => {
                let n = img.len() as u32 + 1;
                img.truncate((*a % n) as usize);
            }
            M::Sector(s, kind, seed) => {
                let n = img.len() / 2048;
                // mostly the sectors of tables
                let s = if *s & 1 == 0 { p.dirs[(*s / 2) as usize % p.dirs.len()].sector as usize } else { *s as usize % n.max(1) };
                if (s + 1) * 2048 > img.len() {
                    continue;
                }
                let b = match kind {
                    0 => vec![0xff; 2048],
                    1 => vec![0; 2048],
                    _ => content::bytes(*seed as u64 / 8 * 8, 2048),
                };
                img[s * 2048..(s + 1) * 2048].copy_from_slice(&b);
            }
            M::Name(e, b) => {
                let Some(i) = pick(ents.len(), *e) else { continue };
                put(&mut img, ents[i].0 + 13, &[b.len() as u8]);
                put(&mut img, ents[i].0 + 14, b);
            }
        }
    }
    img
}
