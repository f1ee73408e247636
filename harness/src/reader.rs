//! An independent XDVDFS reader. Shares no code with the repository.
use crate::tree::{decode_name, Flat, Item};
use std::collections::BTreeSet;

pub const MAGIC: &[u8; 20] = b"MICROSOFT*XBOX*MEDIA";

#[derive(Clone, Debug)]
pub struct PEntry {
    pub pos: u64,
    pub left: u16,
    pub right: u16,
    pub sector: u32,
    pub size: u32,
    pub attr: u8,
    pub name: Vec<u8>,
    pub depth: usize,
}

impl PEntry {
    pub fn is_dir(&self) -> bool {
        self.attr & 0x10 != 0
    }
    pub fn name_str(&self) -> String {
        decode_name(&self.name)
    }
}

#[derive(Clone, Debug)]
pub struct PDir {
    pub path: Vec<String>,
    pub sector: u32,
    pub size: u32,
    pub entries: Vec<PEntry>,
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub root_sector: u32,
    pub root_size: u32,
    pub filetime: u64,
    pub dirs: Vec<PDir>,
}

fn u32le(b: &[u8]) -> u32 {
    u32::from_le_bytes(b[..4].try_into().unwrap())
}

pub fn has_volume(img: &[u8]) -> bool {
    let b = 32 * 2048;
    img.len() >= b + 2048 && &img[b..b + 20] == MAGIC && &img[b + 2028..b + 2048] == MAGIC
}

/// Reads bytes at a position of the image; false: there are none.
pub type Get<'a> = &'a dyn Fn(u64, &mut [u8]) -> bool;

pub fn parse(img: &[u8]) -> Result<Parsed, String> {
    parse_with(&|o, b| match (o as usize).checked_add(b.len()).and_then(|e| img.get(o as usize..e)) {
        Some(s) => {
            b.copy_from_slice(s);
            true
        }
        None => false,
    })
}

/// Of an image with a gap.
pub fn parse_far(img: &[u8], far: Option<(u64, u64)>) -> Result<Parsed, String> {
    parse_with(&|o, b| crate::devs::read_far(img, far.unwrap_or((0, 0)), o, b))
}

pub fn parse_with(get: Get) -> Result<Parsed, String> {
    let mut vd = [0; 2048];
    if !get(32 * 2048, &mut vd) || &vd[..20] != MAGIC || &vd[2028..] != MAGIC {
        return Err("no valid volume descriptor at sector 32".into());
    }
    let root_sector = u32le(&vd[20..]);
    let root_size = u32le(&vd[24..]);
    let filetime = u64::from_le_bytes(vd[28..36].try_into().unwrap());
    let mut dirs = vec![];
    let mut stack = vec![(vec![], root_sector, root_size)];
    while let Some((path, sector, size)) = stack.pop() {
        if path.len() > 600 || dirs.len() > 100_000 {
            return Err("directory nesting does not end".into());
        }
        let d = parse_dir(get, path, sector, size)?;
        for e in d.entries.iter().rev() {
            if e.is_dir() {
                let mut p = d.path.clone();
                p.push(e.name_str());
                stack.push((p, e.sector, e.size));
            }
        }
        dirs.push(d);
    }
    Ok(Parsed { root_sector, root_size, filetime, dirs })
}

fn parse_dir(get: Get, path: Vec<String>, sector: u32, size: u32) -> Result<PDir, String> {
    let mut entries = vec![];
    let show = path.join("/");
    if size != 0 {
        let base = sector as u64 * 2048;
        let mut seen = BTreeSet::new();
        let mut st = vec![(0u64, 1usize)];
        while let Some((pos, depth)) = st.pop() {
            if !seen.insert(pos) {
                return Err(format!("table of {show:?}: entry at {pos} reached twice"));
            }
            if pos + 14 > size as u64 {
                return Err(format!("table of {show:?}: entry at {pos} outside the table of {size} bytes"));
            }
            let mut h = [0; 14];
            if !get(base + pos, &mut h) {
                return Err(format!("table of {show:?}: entry at {pos} outside the image"));
            }
            if pos == 0 && (h.iter().all(|b| *b == 0xff) || h.iter().all(|b| *b == 0)) {
                break;
            }
            let nl = h[13] as usize;
            let mut name = vec![0; nl];
            if pos + 14 + nl as u64 > size as u64 || !get(base + pos + 14, &mut name) {
                return Err(format!("table of {show:?}: name of entry at {pos} outside the table"));
            }
            let e = PEntry {
                pos,
                left: u16::from_le_bytes([h[0], h[1]]),
                right: u16::from_le_bytes([h[2], h[3]]),
                sector: u32le(&h[4..]),
                size: u32le(&h[8..]),
                attr: h[12],
                name,
                depth,
            };
            for c in [e.right, e.left] {
                if c != 0 && c != 0xffff {
                    st.push((c as u64 * 4, depth + 1));
                }
            }
            entries.push(e);
        }
    }
    Ok(PDir { path, sector, size, entries })
}

impl Parsed {
    pub fn flat(&self, img: &[u8]) -> Result<Flat, String> {
        let mut out = Flat::new();
        for d in &self.dirs {
            for e in &d.entries {
                let mut p = d.path.clone();
                p.push(e.name_str());
                let item = if e.is_dir() {
                    Item::Dir
                } else {
                    let o = e.sector as usize * 2048;
                    let end = o + e.size as usize;
                    if e.size == 0 {
                        Item::File(vec![])
                    } else if end > img.len() {
                        return Err(format!("data of {:?} outside the image", p.join("/")));
                    } else {
                        Item::File(img[o..end].to_vec())
                    }
                };
                if out.insert(p.clone(), item).is_some() {
                    return Err(format!("{:?} appears twice", p.join("/")));
                }
            }
        }
        Ok(out)
    }
}

/// Parse and flatten, the usual oracle.
pub fn extract(img: &[u8]) -> Result<Flat, String> {
    parse(img)?.flat(img)
}
