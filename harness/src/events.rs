//! Progress events against the image they belong to.
use crate::runner::Outcome;
use crate::{ensure, reader};
use std::collections::BTreeMap;
use xdvdfs::write::img::ProgressInfo;

pub fn show(p: &ProgressInfo) -> String {
    format!("{p:?}")
}

/// A complete event sequence against the image it belongs to.
pub fn complete(ev: &[ProgressInfo], img: &[u8], name: &dyn Fn(&[String]) -> String) -> Outcome {
    let p = reader::parse(img)?;
    let mut dirs: BTreeMap<String, u64> = BTreeMap::new();
    let mut entries: BTreeMap<String, u64> = BTreeMap::new();
    let mut lens: Vec<usize> = vec![];
    for d in &p.dirs {
        dirs.insert(name(&d.path), d.sector as u64);
        lens.push(d.entries.len());
        for e in &d.entries {
            let mut q = d.path.clone();
            q.push(e.name_str());
            entries.insert(name(&q), e.sector as u64);
        }
    }
    let (nd, ne) = (dirs.len(), entries.len());
    let (mut fc, mut dc, mut found, mut done) = (None, None, vec![], 0);
    for (i, e) in ev.iter().enumerate() {
        ensure!(done == 0, "event {} follows the completion", show(e));
        match e {
            ProgressInfo::DiscoveredDirectory(n) => {
                ensure!(fc.is_none() && dc.is_none(), "a directory is discovered after the counts were announced");
                found.push(*n);
            }
            ProgressInfo::FileCount(n) => ensure!(fc.replace(*n).is_none(), "the number of entries is announced twice"),
            ProgressInfo::DirCount(n) => ensure!(dc.replace(*n).is_none(), "the number of directories is announced twice"),
            ProgressInfo::DirAdded(p, s) => {
                ensure!(fc.is_some() && dc.is_some(), "{} before the counts", show(e));
                let w = dirs.remove(p).ok_or_else(|| format!("{}: no such directory, or reported twice", show(e)))?;
                ensure!(w == *s, "{}: the table is at sector {w}", show(e));
            }
            ProgressInfo::FileAdded(p, s) => {
                ensure!(fc.is_some() && dc.is_some(), "{} before the counts", show(e));
                let w = entries.remove(p).ok_or_else(|| format!("{}: no such entry, or reported twice", show(e)))?;
                ensure!(w == *s, "{}: it is at sector {w}", show(e));
            }
            ProgressInfo::FinishedPacking => {
                done += 1;
                ensure!(i + 1 == ev.len(), "completion is not the last event");
            }
            e => return Err(format!("harness: unknown event {e:?}")),
        }
    }
    ensure!(done == 1, "completion is not reported");
    ensure!(dirs.is_empty(), "directories not reported: {:?}", dirs.keys().take(5).collect::<Vec<_>>());
    ensure!(entries.is_empty(), "entries not reported: {:?}", entries.keys().take(5).collect::<Vec<_>>());
    ensure!(fc == Some(ne) && dc == Some(nd), "announced {fc:?} entries and {dc:?} directories; reported {ne} and {nd}");
    found.sort();
    lens.sort();
    ensure!(found == lens, "sizes of discovered directories: {found:?}, not {lens:?}");
    Ok(())
}
