//! Generators. Every random choice is proptest's.
use crate::builder::Layout;
use crate::content::mix;
use crate::tree::{encode_name, upper, Entry, Node, Tree};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Opts {
    /// names have to exist on a host file system too
    pub host: bool,
    /// allow 1 MiB-class files
    pub big: bool,
    /// allow bulk directories
    pub bulk: bool,
    /// largest bulk directory
    pub bulk_max: u16,
    pub max_entries: usize,
    /// levels of the deepest chain of directories
    pub deep: u16,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { host: false, big: true, bulk: true, bulk_max: 600, max_entries: 16, deep: 280 }
    }
}

pub fn name() -> BoxedStrategy<String> {
    prop_oneof![
        6 => "[a-zA-Z]{1,8}(\\.[a-z]{1,3})?",
        3 => "[aAbB_.\\-~0-9 ]{1,5}",
        2 => "[ -.0-~]{1,20}",
        2 => proptest::collection::vec(ext_char(), 1..12).prop_map(|v| v.into_iter().collect::<String>()),
        1 => (prop_oneof![Just(1usize), Just(2), 100usize..=255, Just(254), Just(255), 239usize..=242], "[a-zA-Z0-9]")
            .prop_map(|(n, c)| c.repeat(n)),
        1 => proptest::sample::select(vec![
            "default.xbe", "DEFAULT.XBE", "Default.xbe", "$SystemUpdate", ".hidden", "..a", "...", "a.b.c", "_", "-", "NFL-noESRB.png",
            "NFL.png", "NFLFever.jpg", "a_b", "abb", "A{1}B", "con", "x:y", "a\\b", "tab\tname", "q\"uote", "*", "?", "é", "É", "ü", "€",
        ]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}

/// Any Windows-1252 character except NUL and '/'.
pub fn ext_char() -> BoxedStrategy<char> {
    prop_oneof![
        3 => (0x80u8..=0xff).prop_map(crate::tree::dec1252),
        1 => proptest::sample::select(vec!['é', 'É', 'ß', 'ÿ', 'Ÿ', '€', '™', 'Š', 'š', '÷', '×', 'µ']),
        2 => (0x21u8..0x7f).prop_map(|b| if b == b'/' { 'z' } else { b as char }),
    ]
    .boxed()
}

pub fn file_len(big: bool) -> BoxedStrategy<u64> {
    let b = if big { 1u32 } else { 0 };
    if b == 0 {
        prop_oneof![
            3 => Just(0u64),
            4 => 1u64..64,
            4 => proptest::sample::select(vec![1u64, 2047, 2048, 2049, 4095, 4096, 4097, 6144, 8192, 14, 2046]),
            3 => 1u64..10000,
            1 => proptest::sample::select(vec![65535u64, 65536, 65537, 63488]),
        ]
        .boxed()
    } else {
        prop_oneof![
            30 => file_len(false),
            1 => proptest::sample::select(vec![1048575u64, 1048576, 1048577, 1050624, 1048576 + 5000, 2097152, 2097153, 3145729]),
            2 => 10000u64..300000,
        ]
        .boxed()
    }
}

pub fn seed() -> BoxedStrategy<u64> {
    any::<u32>().prop_map(|x| x as u64).boxed()
}

#[derive(Clone, Debug)]
enum K {
    File(u64, u64),
    Dir,
    /// what an earlier entry is, under the same name, elsewhere
    Copy(u16),
    Bulk { n: u16, len: u8, vary: u8, seed: u64, order: u8, data: bool, inline: bool },
    /// directories within each other, some with a file beside the next one
    Deep { n: u16, files: u64 },
}

#[derive(Clone, Debug)]
struct Spec {
    parent: u16,
    name: String,
    k: K,
}

fn spec(o: Opts) -> BoxedStrategy<Spec> {
    let kind = {
        let bulk_w = if o.bulk { 1 } else { 0 };
        if bulk_w == 0 {
            prop_oneof![
                14 => (file_len(o.big), seed()).prop_map(|(l, s)| K::File(l, s)),
                6 => Just(K::Dir),
                1 => any::<u16>().prop_map(K::Copy),
            ]
            .boxed()
        } else {
            let mx = o.bulk_max.max(48);
            prop_oneof![
                60 => (file_len(o.big), seed()).prop_map(|(l, s)| K::File(l, s)),
                26 => Just(K::Dir),
                6 => any::<u16>().prop_map(K::Copy),
                3 => (
                    prop_oneof![4 => 1u16..40, 3 => 40u16..200.min(mx), 2 => Just(128u16.min(mx)), 2 => Just(64u16.min(mx)), 1 => 8u16..=mx],
                    prop_oneof![
                        3 => 3u8..40,
                        2 => proptest::sample::select(vec![3u8, 6, 10, 14, 15, 18, 47, 50, 111, 114, 239, 242, 243, 254, 255]),
                        1 => 40u8..=255
                    ],
                    prop_oneof![2 => Just(0u8), 1 => 1u8..30],
                    seed(), 0u8..5, proptest::bool::weighted(0.2), any::<bool>()
                ).prop_map(|(n, len, vary, seed, order, data, inline)| K::Bulk { n, len, vary, seed, order, data, inline }),
            ]
            .boxed()
        }
    };
    (any::<u16>(), name(), kind).prop_map(|(parent, name, k)| Spec { parent, name, k }).boxed()
}

pub fn clamp_name(n: &str, host: bool) -> String {
    let mut s: String = n.chars().filter(|c| *c != '/' && *c != '\0' && encode_name(&c.to_string()).is_some()).collect();
    loop {
        let e = encode_name(&s).unwrap().len();
        if e > 255 || (host && s.len() > 255) {
            s.pop();
        } else {
            break;
        }
    }
    if s.is_empty() || s == "." || s == ".." {
        s = "n".into();
    }
    s
}

fn uniq(n: &str, host: bool, used: &mut HashSet<String>) -> String {
    let mut s = clamp_name(n, host);
    let mut k = 0;
    while !used.insert(upper(&s)) {
        let suf = format!("~{k}");
        k += 1;
        let mut b = clamp_name(n, host);
        while encode_name(&b).unwrap().len() + suf.len() > 255 || (host && b.len() + suf.len() > 255) {
            b.pop();
        }
        s = b + &suf;
    }
    s
}

pub fn bulk_names(n: u16, len: u8, vary: u8, seed: u64, order: u8) -> Vec<String> {
    let n = n as u64;
    let mut v: Vec<String> = (0..n)
        .map(|i| {
            let l = (len as u64 + if vary > 0 { mix(seed ^ i) % vary as u64 } else { 0 }).clamp(3, 255) as usize;
            let mut c = i;
            let mut digits = vec![];
            for _ in 0..3 {
                digits.push(b"0123456789abcdefghijklmnopqrstuvwxyz"[(c % 36) as usize]);
                c /= 36;
            }
            digits.reverse();
            let mut s = String::from_utf8(digits).unwrap();
            if mix(seed.wrapping_add(i)) % 3 == 0 {
                s = s.to_ascii_uppercase();
            }
            s.push_str(&"x".repeat(l - 3));
            s
        })
        .collect();
    match order {
        0 => {}
        1 => v.reverse(),
        2 => {
            for i in (1..v.len()).rev() {
                v.swap(i, (mix(seed ^ (i as u64) << 20) % (i as u64 + 1)) as usize);
            }
        }
        3 => {
            // alternate from both ends
            let mut out = vec![];
            let (mut a, mut b) = (0usize, v.len());
            while a < b {
                out.push(v[a].clone());
                a += 1;
                if a < b {
                    b -= 1;
                    out.push(v[b].clone());
                }
            }
            v = out;
        }
        _ => {
            // blocks: second half first
            let h = v.len() / 2;
            v.rotate_left(h);
        }
    }
    v
}

fn build(specs: Vec<Spec>, o: Opts) -> Tree {
    // arena of directories
    struct D {
        used: HashSet<String>,
        list: Vec<(String, Result<usize, (u64, u64)>)>,
        bytes: usize,
    }
    let nd = || D { used: HashSet::new(), list: vec![], bytes: 0 };
    let mut dirs = vec![nd()];
    let mut pickable = vec![0usize];
    // where entries are, for copies
    let mut all: Vec<(usize, usize)> = vec![];
    for s in specs {
        let mut p = pickable[s.parent as usize % pickable.len()];
        let before = dirs[p].list.len();
        if dirs[p].bytes > 200_000 {
            continue;
        }
        match s.k {
            K::File(len, seed) => {
                let n = uniq(&s.name, o.host, &mut dirs[p].used);
                dirs[p].bytes += n.len() + 32;
                dirs[p].list.push((n, Err((len, seed))));
            }
            K::Dir => {
                let n = uniq(&s.name, o.host, &mut dirs[p].used);
                dirs[p].bytes += n.len() + 32;
                dirs.push(nd());
                let id = dirs.len() - 1;
                dirs[p].list.push((n, Ok(id)));
                pickable.push(id);
            }
            K::Copy(of) => {
                let Some(&(d, i)) = all.get(of as usize % all.len().max(1)) else { continue };
                // elsewhere if there is an elsewhere
                if d == p && pickable.len() > 1 {
                    let at = pickable.iter().position(|x| *x == p).unwrap();
                    p = pickable[(at + 1) % pickable.len()];
                }
                let before = dirs[p].list.len();
                let (name, what) = dirs[d].list[i].clone();
                let name = uniq(&name, o.host, &mut dirs[p].used);
                dirs[p].bytes += name.len() + 32;
                let what = match what {
                    Err(f) => Err(f),
                    Ok(from) => {
                        // the files of the directory
                        let mut c = nd();
                        for (n, k) in &dirs[from].list {
                            if let Err(f) = k {
                                c.used.insert(upper(n));
                                c.bytes += n.len() + 32;
                                c.list.push((n.clone(), Err(*f)));
                            }
                        }
                        dirs.push(c);
                        let id = dirs.len() - 1;
                        pickable.push(id);
                        Ok(id)
                    }
                };
                dirs[p].list.push((name, what));
                all.push((p, before));
                continue;
            }
            K::Deep { n, files } => {
                let mut d = p;
                for i in 0..n {
                    let c = (b'a' + (i % 26) as u8) as char;
                    let nm = uniq(&if n > 20 { c.to_string() } else { format!("{c}{}", s.name.chars().take(6).collect::<String>()) }, o.host, &mut dirs[d].used);
                    if files >> (i % 64) & 1 == 1 {
                        let f = uniq("~f", o.host, &mut dirs[d].used);
                        dirs[d].list.push((f, Err((i as u64 * 97 % 5000, files ^ i as u64))));
                    }
                    dirs.push(nd());
                    let id = dirs.len() - 1;
                    dirs[d].list.push((nm, Ok(id)));
                    if i % 8 == 7 || i + 1 == n {
                        pickable.push(id);
                    }
                    d = id;
                }
            }
            K::Bulk { n, len, vary, seed, order, data, inline } => {
                let id = if inline {
                    p
                } else {
                    let nm = uniq(&s.name, o.host, &mut dirs[p].used);
                    dirs.push(nd());
                    let id = dirs.len() - 1;
                    dirs[p].list.push((nm, Ok(id)));
                    pickable.push(id);
                    id
                };
                for (i, nm) in bulk_names(n, len, vary, seed, order).into_iter().enumerate() {
                    if dirs[id].bytes > 200_000 {
                        break;
                    }
                    let nm = uniq(&nm, o.host, &mut dirs[id].used);
                    dirs[id].bytes += nm.len() + 32;
                    let h = mix(seed ^ (i as u64) << 8);
                    let l = if data { h % 40 } else { 0 };
                    dirs[id].list.push((nm, Err((l, h & 0xffff_ffff))));
                }
            }
        }
        all.extend((before..dirs[p].list.len()).take(4).map(|i| (p, i)));
    }
    fn conv(dirs: &[D], id: usize) -> Vec<Entry> {
        dirs[id]
            .list
            .iter()
            .map(|(n, k)| Entry {
                name: n.clone(),
                node: match k {
                    Ok(id) => Node::Dir(conv(dirs, *id)),
                    Err((len, seed)) => Node::File { len: *len, seed: *seed },
                },
            })
            .collect()
    }
    Tree(conv(&dirs, 0))
}

pub fn tree(o: Opts) -> BoxedStrategy<Tree> {
    prop_oneof![
        1 => Just(Tree::default()),
        40 => proptest::collection::vec(spec(o), 1..=o.max_entries).prop_map(move |v| build(v, o)),
        1 => (proptest::collection::vec(spec(Opts { bulk: false, ..o }), 1..=o.max_entries), any::<u16>(), name(), deep(o.deep)).prop_map(move |(mut v, at, name, k)| {
            v.insert(at as usize % (v.len() + 1), Spec { parent: at, name, k });
            build(v, o)
        }),
    ]
    .boxed()
}

fn deep(max: u16) -> BoxedStrategy<K> {
    let files = prop_oneof![any::<u64>(), (any::<u64>(), any::<u64>()).prop_map(|(a, b)| a & b & (a >> 5))];
    (prop_oneof![4 => 3u16..20, 4 => 20u16..80, 2 => 80u16..280], files).prop_map(move |(n, files)| K::Deep { n: if n > max { 3 + n % (max - 2) } else { n }, files }).boxed()
}

/// A small tree with one file of 16 to 40 MiB.
pub fn large_tree(host: bool) -> BoxedStrategy<Tree> {
    let len = prop_oneof![
        3 => (16u64 << 20)..(40 << 20),
        1 => proptest::sample::select(vec![1u64 << 24, (1 << 24) + 1, (1 << 24) + 2048, (1 << 24) - 1, 1 << 25, (1 << 25) + 2047]),
    ];
    (tree(Opts { host, big: false, bulk: false, max_entries: 5, ..Opts::default() }), any::<u16>(), len, seed())
        .prop_map(|(mut t, pick, len, seed)| {
            fn files<'a>(l: &'a mut Vec<Entry>, out: &mut Vec<&'a mut Node>) {
                for e in l {
                    match &mut e.node {
                        Node::Dir(c) => files(c, out),
                        n => out.push(n),
                    }
                }
            }
            let mut v = vec![];
            files(&mut t.0, &mut v);
            let n = v.len();
            if n > 0 {
                *v[pick as usize % n] = Node::File { len, seed };
            } else if t.0.is_empty() {
                t.0.push(Entry { name: "large.bin".into(), node: Node::File { len, seed } });
            }
            t
        })
        .boxed()
}

/// A gap inside a file, see builder::giant: which file, how large it gets, and a variation.
pub fn giant() -> BoxedStrategy<(u16, u8, u32)> {
    (any::<u16>(), any::<u8>(), any::<u32>()).boxed()
}

/// As `giant`, just beyond 2 GiB.
pub fn giant_2g() -> BoxedStrategy<(u16, u8, u32)> {
    (any::<u16>(), 0u32..400_000, 2048u32..5000).prop_map(|(pick, a, b)| (pick, 3 + 16, a * 5000 + b)).boxed()
}

/// One bulk directory at the root, for table-shape stress.
pub fn bulk_tree(max: u16) -> BoxedStrategy<Tree> {
    let o = Opts::default();
    (
        prop_oneof![2 => 1u16..40, 3 => 1u16..=max],
        prop_oneof![1 => 3u8..=60, 1 => proptest::sample::select(vec![3u8, 6, 14, 15, 18, 47, 50, 111, 114, 239, 242, 255])],
        prop_oneof![2 => Just(0u8), 2 => 1u8..60],
        seed(),
        0u8..5,
        proptest::collection::vec(spec(Opts { bulk: false, big: false, ..o }), 0..4),
    )
        .prop_map(move |(n, len, vary, seed, order, mut extra)| {
            let mut v = vec![Spec {
                parent: 0,
                name: "b".into(),
                k: K::Bulk { n, len, vary, seed, order, data: false, inline: true },
            }];
            v.append(&mut extra);
            build(v, o)
        })
        .boxed()
}

pub fn layout() -> BoxedStrategy<Layout> {
    (
        seed(),
        0u8..5,
        0u8..3,
        any::<bool>(),
        prop_oneof![2 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
        any::<[bool; 8]>(),
    )
        .prop_map(|(seed, shape, order, zero_fill, ffff, f)| Layout {
            seed,
            shape,
            order,
            zero_fill,
            ffff,
            shuffle_regions: f[0],
            gaps: f[1],
            low_sectors: f[2],
            round_dirs: f[3],
            empty_dir_sector: f[4],
            odd_attrs: f[5],
            tight_end: f[6],
            share: f[7],
        })
        .boxed()
}

/// A gap in an image, see builder::spread.
pub fn far() -> BoxedStrategy<Option<(u16, u8)>> {
    proptest::option::weighted(0.2, (any::<u16>(), any::<u8>())).boxed()
}

/// The same, of at most 16 GiB.
pub fn far_file() -> BoxedStrategy<Option<(u16, u8)>> {
    far().prop_map(|f| f.map(|(at, how)| (at, if how % 8 > 4 { how & 0xf8 } else { how }))).boxed()
}

/// Flip the case of ASCII letters according to a bit pattern.
pub fn flip_case(s: &str, bits: u64) -> String {
    s.chars()
        .enumerate()
        .map(|(i, c)| {
            if c.is_ascii_alphabetic() && (bits >> (i % 64)) & 1 == 1 {
                if c.is_ascii_lowercase() {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                }
            } else {
                c
            }
        })
        .collect()
}

/// A tree of more entries than 16 bits count, over several directories.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many {
    dirs: Vec<u16>,
    nested: bool,
    seed: u64,
}

pub fn many() -> BoxedStrategy<Many> {
    (proptest::collection::vec(9000u16..10500, 7..10), any::<bool>(), seed()).prop_map(|(dirs, nested, seed)| Many { dirs, nested, seed }).boxed()
}

impl Many {
    pub fn tree(&self) -> Tree {
        let mut l: Vec<Entry> = vec![];
        for (d, n) in self.dirs.iter().enumerate() {
            let mut v: Vec<Entry> = (0..*n as u64)
                .map(|i| {
                    let h = mix(self.seed ^ i << 8 ^ d as u64);
                    let len = if h >> 8 & 15 == 0 { h >> 16 & 7 } else { 0 };
                    Entry { name: format!("{i:x}{}", (b'a' + (h % 26) as u8) as char), node: Node::File { len, seed: h >> 20 & 0xffff } }
                })
                .collect();
            if self.nested && d > 0 {
                // the directories so far
                let at = self.seed as usize % (v.len() + 1);
                let prev = std::mem::take(&mut l);
                v.insert(at, Entry { name: "~z".into(), node: Node::Dir(prev) });
            }
            l.push(Entry { name: format!("dir{d}"), node: Node::Dir(v) });
        }
        Tree(l)
    }
}
