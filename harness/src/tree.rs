//! The abstract model: a directory tree.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Node {
    File { len: u64, seed: u64 },
    Dir(Vec<Entry>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Entry {
    pub name: String,
    pub node: Node,
}

/// A tree: the listing of the root directory, in listing order.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Default)]
pub struct Tree(pub Vec<Entry>);

pub type Path = Vec<String>;

/// What a tree is, independent of order and representation.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Item {
    Dir,
    File(Vec<u8>),
}
pub type Flat = BTreeMap<Path, Item>;

impl Tree {
    pub fn walk<'a>(&'a self, f: &mut impl FnMut(&[String], &'a Entry)) {
        fn rec<'a>(pre: &mut Vec<String>, l: &'a [Entry], f: &mut impl FnMut(&[String], &'a Entry)) {
            for e in l {
                f(pre, e);
                if let Node::Dir(c) = &e.node {
                    pre.push(e.name.clone());
                    rec(pre, c, f);
                    pre.pop();
                }
            }
        }
        rec(&mut vec![], &self.0, f)
    }

    pub fn flat(&self) -> Flat {
        let mut out = Flat::new();
        self.walk(&mut |pre, e| {
            let mut p = pre.to_vec();
            p.push(e.name.clone());
            let item = match &e.node {
                Node::Dir(_) => Item::Dir,
                Node::File { len, seed } => Item::File(crate::content::bytes(*seed, *len)),
            };
            out.insert(p, item);
        });
        out
    }

    /// (path, is_dir, len, seed), in walk order
    pub fn list(&self) -> Vec<(Path, bool, u64, u64)> {
        let mut out = vec![];
        self.walk(&mut |pre, e| {
            let mut p = pre.to_vec();
            p.push(e.name.clone());
            match &e.node {
                Node::Dir(_) => out.push((p, true, 0, 0)),
                Node::File { len, seed } => out.push((p, false, *len, *seed)),
            }
        });
        out
    }

    pub fn find(&self, path: &[String]) -> Option<&Node> {
        let mut l = &self.0;
        for (i, c) in path.iter().enumerate() {
            let e = l.iter().find(|e| &e.name == c)?;
            if i + 1 == path.len() {
                return Some(&e.node);
            }
            match &e.node {
                Node::Dir(c) => l = c,
                _ => return None,
            }
        }
        None
    }

    pub fn dir(&self, path: &[String]) -> Option<&Vec<Entry>> {
        if path.is_empty() {
            return Some(&self.0);
        }
        match self.find(path)? {
            Node::Dir(l) => Some(l),
            _ => None,
        }
    }

    pub fn total_bytes(&self) -> u64 {
        self.list().iter().map(|e| e.2).sum()
    }

    pub fn max_dir(&self) -> usize {
        let mut m = self.0.len();
        self.walk(&mut |_, e| {
            if let Node::Dir(l) = &e.node {
                m = m.max(l.len())
            }
        });
        m
    }

    pub fn depth(&self) -> usize {
        self.list().iter().map(|e| e.0.len()).max().unwrap_or(0)
    }
}

pub fn upper(s: &str) -> String {
    s.chars().map(|c| c.to_ascii_uppercase()).collect()
}

/// The order of names within a directory table: by character, ASCII letters upper-cased.
pub fn name_cmp(a: &str, b: &str) -> std::cmp::Ordering {
    let x: Vec<char> = upper(a).chars().collect();
    let y: Vec<char> = upper(b).chars().collect();
    x.cmp(&y)
}

/// Windows-1252, WHATWG flavour (undefined positions map to C1 controls).
const HI: [u32; 32] = [
    0x20AC, 0x81, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x8D, 0x017D,
    0x8F, 0x90, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x9D,
    0x017E, 0x0178,
];

pub fn dec1252(b: u8) -> char {
    if (0x80..0xa0).contains(&b) {
        char::from_u32(HI[(b - 0x80) as usize]).unwrap()
    } else {
        b as char
    }
}

pub fn enc1252(c: char) -> Option<u8> {
    let u = c as u32;
    if u < 0x80 || (0xa0..0x100).contains(&u) {
        return Some(u as u8);
    }
    HI.iter().position(|h| *h == u).map(|p| 0x80 + p as u8)
}

pub fn encode_name(s: &str) -> Option<Vec<u8>> {
    s.chars().map(enc1252).collect()
}
pub fn decode_name(b: &[u8]) -> String {
    b.iter().map(|b| dec1252(*b)).collect()
}

/// Difference between two flattened trees, for error messages.
pub fn diff(expected: &Flat, got: &Flat) -> Option<String> {
    for (p, i) in expected {
        match got.get(p) {
            None => return Some(format!("missing {:?} ({})", p.join("/"), kind(i))),
            Some(g) if g != i => {
                return Some(format!("{:?} differs: expected {}, got {}{}", p.join("/"), kind(i), kind(g), first(i, g)))
            }
            _ => {}
        }
    }
    for (p, i) in got {
        if !expected.contains_key(p) {
            return Some(format!("unexpected {:?} ({})", p.join("/"), kind(i)));
        }
    }
    None
}
fn kind(i: &Item) -> String {
    match i {
        Item::Dir => "directory".into(),
        Item::File(b) => format!("file of {} bytes", b.len()),
    }
}
fn first(a: &Item, b: &Item) -> String {
    match (a, b) {
        (Item::File(a), Item::File(b)) => {
            let k = a.iter().zip(b).position(|(x, y)| x != y);
            match k {
                Some(k) => format!(", first difference at byte {k}"),
                None => String::new(),
            }
        }
        _ => String::new(),
    }
}
