//! Trees and map rules for remapped sources.
use crate::tree::*;
use proptest::prelude::*;

pub fn names() -> BoxedStrategy<String> {
    prop_oneof![
        8 => proptest::sample::select(vec!["a", "b", "c", "ab", "A", "x.txt", "y.txt", "z.bin", "default.xbe", "d.e", "bin", "data", "a.txt"]).prop_map(|s| s.to_string()),
        2 => proptest::sample::select(vec!["é", "a b", "ü.txt", ".hid", "..x", "a,b", "a-b", "a_b", "x.txt.bak", "{1}", "a{2}", "a$", "ß€", "1", "0", "track01_lev2.bin", "abcdefghijklmno", "a.b.c.d.e.f.g", "b ", " b", "x.txt "]).prop_map(|s| s.to_string()),
        1 => "[a-c.]{1,4}",
    ]
    .boxed()
}

pub fn tree(host: bool) -> BoxedStrategy<Tree> {
    proptest::collection::vec((any::<u16>(), names(), proptest::bool::weighted(0.4), prop_oneof![Just(0u64), 1u64..80, Just(2048u64), Just(3000u64)], any::<u32>()), 1..24)
        .prop_map(move |v| {
            // arena
            let mut dirs: Vec<Vec<(String, Option<usize>, u64, u64)>> = vec![vec![]];
            let mut depth = vec![0];
            for (p, n, d, len, seed) in v {
                let p = p as usize % dirs.len();
                let n = if n == "." || n == ".." { "n".to_string() } else { n };
                // exact duplicates cannot exist; case variants may, in memory and on the host
                let _ = host;
                if dirs[p].iter().any(|e| e.0 == n) {
                    continue;
                }
                if d && depth[p] < 4 {
                    dirs.push(vec![]);
                    let dp = depth[p] + 1;
                    depth.push(dp);
                    let id = dirs.len() - 1;
                    dirs[p].push((n, Some(id), 0, 0));
                } else {
                    dirs[p].push((n, None, len, seed as u64));
                }
            }
            fn conv(d: &[Vec<(String, Option<usize>, u64, u64)>], i: usize) -> Vec<Entry> {
                d[i].iter()
                    .map(|(n, k, len, seed)| Entry {
                        name: n.clone(),
                        node: match k {
                            Some(k) => Node::Dir(conv(d, *k)),
                            None => Node::File { len: *len, seed: *seed },
                        },
                    })
                    .collect()
            }
            Tree(conv(&dirs, 0))
        })
        .boxed()
}

/// A glob for (a generalisation of) a path of the tree.
#[derive(Clone, Debug)]
pub struct G {
    pick: u16,
    cut: u8,
    gen: Vec<u8>,
    free: Option<String>,
    neg: u8,
    to: String,
}

pub fn target() -> BoxedStrategy<String> {
    prop_oneof![
        5 => proptest::sample::select(vec![
            "/", "/x", "/{0}", "/{1}", "/{2}", "/{1}/{2}", "/x/{1}", "/p/q/{0}", "{1}", "x/y", "/d/{1}.txt", "/{2}/{1}", "/out/{3}", "/{1}{2}",
            "./k/{0}", "../{0}", "//k//{0}", "/k/", "", "/a", "/A", "/bin/{1}", "/{0}/{0}", "/.hid/{1}", "/..k/{0}", "/{10}", "/{01}",
            "/x/{99999999999999999999999}", "/é/{0}", "/{11}{12}", "/{12}_{2}{10}", "/{13}", "/x{10}", "/{9}{8}", "/{0012}{1}", "/{1}{11}{10}.e", "/{123}x{1}", "/{0456}{2}/{1}",
        ]).prop_map(|s| s.to_string()),
        1 => proptest::sample::select(vec!["/{x}", "/{1", "/{0}/{", "/{-1}", "/{ 1}", "/{1}}", "/{}", "/{{1}}"]).prop_map(|s| s.to_string()),
        1 => "(/[a-c]{1,2}){0,2}/(\\{[0-3]\\}){1,2}",
    ]
    .boxed()
}

pub fn g() -> BoxedStrategy<G> {
    (
        any::<u16>(),
        0u8..4,
        proptest::collection::vec(0u8..14, 4),
        proptest::option::weighted(
            0.35,
            prop_oneof![
                4 => proptest::sample::select(vec![
                    "**", "*", "**/*", "**/*.txt", "*.{txt,bin}", "a/**", "[ab]*", "?", "*/*", "(?i)A", "**/a", "**/b/**", "{a,b}/**", "a*", "$", "**/{x,y}.txt",
                    "*.*", "b/*/*", "**/default.xbe", "/a", "./a", "a/", "<a:1>", "**/(?i)x.TXT", "[!a]*", "a/**/b",
                ]).prop_map(|s| s.to_string()),
                1 => proptest::sample::select(vec!["[", "{a", "a**b", "//", "**/**", "", "***", "[]", "a]", "<a", "}", "\\"]).prop_map(|s| s.to_string()),
                1 => "[a-c*?/\\[\\]{},.!]{1,8}",
            ],
        ),
        prop_oneof![4 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)],
        target(),
    )
        .prop_map(|(pick, cut, gen, free, neg, to)| G { pick, cut, gen, free, neg, to })
        .boxed()
}

pub fn escape(s: &str) -> String {
    s.chars().flat_map(|c| if "?*$:<>()[]{},!\\".contains(c) { vec!['\\', c] } else { vec![c] }).collect()
}

pub fn rule(t: &Tree, g: &G) -> (String, String) {
    let l = t.list();
    let text = match (&g.free, l.is_empty()) {
        (Some(f), _) => f.clone(),
        (None, true) => "*".into(),
        _ => {
            let p = &l[g.pick as usize % l.len()].0;
            let n = p.len().saturating_sub(g.cut as usize).max(1);
            p[..n]
                .iter()
                .enumerate()
                .map(|(i, c)| match g.gen[i % 4] {
                    0 | 1 => "*".to_string(),
                    2 => "**".to_string(),
                    3 => match c.rsplit_once('.') {
                        Some((a, b)) if !a.is_empty() => format!("*.{{{},zz}}", escape(b)),
                        _ => "*".into(),
                    },
                    4 => {
                        let ch = c.chars().next().unwrap();
                        format!("{}*", escape(&ch.to_string()))
                    }
                    // a capture for each character
                    5 if c.chars().count() < 18 => "?".repeat(c.chars().count()),
                    6 if c.contains('.') => {
                        let n = c.split('.').count();
                        vec!["*"; n].join(".")
                    }
                    _ => escape(c),
                })
                .collect::<Vec<_>>()
                .join("/")
        }
    };
    let text = match g.neg {
        0 => text,
        1 if text.starts_with('!') => text,
        1 => format!("!{text}"),
        _ => text,
    };
    let to = if text.starts_with('!') && g.pick % 2 == 0 { String::new() } else { g.to.clone() };
    (text, to)
}
