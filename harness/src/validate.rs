//! Structural rules every produced image has to satisfy.
use crate::reader::{parse, Parsed};
use crate::tree::{name_cmp, upper};
use std::cmp::Ordering;

pub struct Facts {
    pub max_table: u64,
    pub max_entries: usize,
    pub full_sectors: usize,
}

pub fn validate(img: &[u8]) -> Result<(Parsed, Facts), String> {
    let p = parse(img)?;
    if img.len() % 65536 != 0 {
        return Err(format!("image length {} is not a multiple of 64 KiB", img.len()));
    }
    let mut facts = Facts { max_table: 0, max_entries: 0, full_sectors: 0 };
    // (first byte, end byte, what)
    let mut regions: Vec<(u64, u64, String)> = vec![(32 * 2048, 33 * 2048, "volume descriptor".into())];
    let ilen = img.len() as u64;
    for d in &p.dirs {
        let show = format!("/{}", d.path.join("/"));
        let start = d.sector as u64 * 2048;
        let rounded = (d.size as u64).div_ceil(2048) * 2048;
        if d.size > 0 {
            regions.push((start, start + rounded, format!("table of {show:?}")));
            if start + rounded > ilen {
                return Err(format!("table of {show:?} extends beyond the image"));
            }
        } else if !d.entries.is_empty() {
            return Err(format!("empty table {show:?} has entries"));
        }
        facts.max_table = facts.max_table.max(d.size as u64);
        facts.max_entries = facts.max_entries.max(d.entries.len());
        for e in &d.entries {
            let n = e.name_str();
            if !e.is_dir() && e.size > 0 {
                let s = e.sector as u64 * 2048;
                let end = s + (e.size as u64).div_ceil(2048) * 2048;
                if s + e.size as u64 > ilen {
                    return Err(format!("data of {show:?}/{n:?} extends beyond the image"));
                }
                regions.push((s, end, format!("data of {show:?}/{n:?}")));
            }
            if e.name.is_empty() {
                return Err(format!("entry with empty name in {show:?}"));
            }
            if e.pos % 4 != 0 {
                return Err(format!("entry {n:?} of {show:?} not 4-byte aligned"));
            }
            let last = e.pos + 14 + e.name.len() as u64 - 1;
            if e.pos / 2048 != last / 2048 {
                return Err(format!("entry {n:?} of {show:?} at {} crosses a sector boundary", e.pos));
            }
        }
        // coverage of the table, filler elsewhere
        let mut es: Vec<_> = d.entries.iter().collect();
        es.sort_by_key(|e| e.pos);
        let mut at = 0u64;
        let mut gaps = vec![];
        for e in &es {
            if e.pos < at {
                return Err(format!("entries overlap in table of {show:?} at {}", e.pos));
            }
            gaps.push((at, e.pos));
            at = e.pos + 14 + e.name.len() as u64;
            if (e.pos / 2048 + 1) * 2048 - at < 4 {
                facts.full_sectors += 1;
            }
        }
        gaps.push((at, rounded));
        for (a, b) in gaps {
            if a < b {
                let s = &img[(start + a) as usize..(start + b) as usize];
                if !(s.iter().all(|x| *x == 0xff) || s.iter().all(|x| *x == 0)) {
                    return Err(format!("unused bytes {a}..{b} of table of {show:?} are not filler"));
                }
            }
        }
        // a sequential scan must see every entry: inside a sector entries are packed back to back
        for w in es.windows(2) {
            let end = w[0].pos + 14 + w[0].name.len() as u64;
            let end = end.div_ceil(4) * 4;
            let ok = if w[1].pos / 2048 == w[0].pos / 2048 {
                w[1].pos == end
            } else {
                w[1].pos % 2048 == 0 && w[1].pos / 2048 == w[0].pos / 2048 + 1
            };
            if !ok {
                return Err(format!("gap before entry at {} in table of {show:?}", w[1].pos));
            }
        }
        // search tree: in-order sequence strictly increasing
        check_bst(d)?;
        let n = d.entries.len() as f64;
        let depth = d.entries.iter().map(|e| e.depth).max().unwrap_or(0) as f64;
        if depth > 2.0 * (n + 1.0).log2() + 1.0 {
            return Err(format!("table of {show:?}: depth {depth} for {n} entries"));
        }
    }
    regions.sort();
    for w in regions.windows(2) {
        if w[1].0 < w[0].1 {
            return Err(format!("{} overlaps {}", w[1].2, w[0].2));
        }
    }
    Ok((p, facts))
}

/// Every entry must be found by binary search from the root of its table.
pub fn check_bst(d: &crate::reader::PDir) -> Result<(), String> {
    use std::collections::HashMap;
    if d.entries.is_empty() {
        return Ok(());
    }
    let by: HashMap<u64, &crate::reader::PEntry> = d.entries.iter().map(|e| (e.pos, e)).collect();
    let mut order = vec![];
    // iterative in-order
    let mut st: Vec<(u64, bool)> = vec![(0, false)];
    while let Some((pos, done)) = st.pop() {
        let e = by[&pos];
        let child = |c: u16| if c == 0 || c == 0xffff { None } else { Some(c as u64 * 4) };
        if done {
            order.push(e.name_str());
        } else {
            if let Some(r) = child(e.right) {
                st.push((r, false));
            }
            st.push((pos, true));
            if let Some(l) = child(e.left) {
                st.push((l, false));
            }
        }
    }
    for w in order.windows(2) {
        if name_cmp(&w[0], &w[1]) != Ordering::Less {
            return Err(format!(
                "table of {:?} is not a search tree: {:?} before {:?}",
                d.path.join("/"),
                upper(&w[0]),
                upper(&w[1])
            ));
        }
    }
    Ok(())
}
