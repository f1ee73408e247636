//! Everything the reading half of the library shows of an image, as lines of text. Compiled twice: with all features, and in
//! `/verif/nostd` with `read` alone.
use maybe_async::maybe_async;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use xdvdfs::blockdev::{BlockDeviceRead, OffsetWrapper, OutOfBounds};
use xdvdfs::layout::{DirectoryEntryNode, DirectoryEntryTable};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Look {
    pub base: u64,
    pub tail: u64,
    pub paths: Vec<String>,
    pub fail: Option<u64>,
    pub range: (u32, u32),
}

#[derive(Debug)]
#[allow(dead_code)]
pub enum LookError {
    Injected(u64),
    OutOfRange(u64, usize),
    Budget,
}
impl std::fmt::Display for LookError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}

/// The image at its place in a medium of other bytes.
pub struct Dev<'a> {
    img: &'a [u8],
    at: Look,
    k: u64,
}
#[maybe_async]
impl BlockDeviceRead for Dev<'_> {
    type ReadError = LookError;
    async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), LookError> {
        self.k += 1;
        if self.at.fail == Some(self.k) {
            return Err(LookError::Injected(offset));
        }
        if self.k > 20_000 {
            assert!(self.k < 20_100, "the read budget is exhausted and errors are ignored");
            return Err(LookError::Budget);
        }
        let n = self.img.len() as u64;
        if offset.checked_add(buffer.len() as u64).is_none_or(|e| e > self.at.base + n + self.at.tail) {
            return Err(LookError::OutOfRange(offset, buffer.len()));
        }
        for (i, b) in buffer.iter_mut().enumerate() {
            let p = offset + i as u64;
            *b = if p >= self.at.base && p < self.at.base + n { self.img[(p - self.at.base) as usize] } else { 5 };
        }
        Ok(())
    }
}

fn sum(b: &[u8]) -> String {
    let h = b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3));
    format!("{} bytes {h:016x}", b.len())
}

fn node(n: &DirectoryEntryNode) -> String {
    let d = n.node.dirent;
    let name = n.name_str::<LookError>();
    format!(
        "{:?} {name:?} {:?} attr {:x} at {} left {} right {} dir {} empty {}",
        n.name_slice(),
        { d.data },
        { d.attributes }.0,
        n.offset,
        { n.node.left_entry_offset },
        { n.node.right_entry_offset },
        d.is_directory(),
        d.is_empty()
    )
}

fn err<E: Debug + std::fmt::Display>(e: &xdvdfs::util::Error<E>) -> String {
    format!("{e:?}: {e}")
}

pub fn look(img: &[u8], job: &Look) -> Vec<String> {
    let mut out = vec![];
    macro_rules! run {
        ($e:expr) => {
            futures::executor::block_on($e)
        };
    }
    let mut dev = match run!(OffsetWrapper::new(Dev { img, at: job.clone(), k: 0 })) {
        Ok(d) => d,
        Err(e) => return vec![format!("open: {}", err(&e))],
    };
    out.push(format!("offset {}", dev.get_offset()));
    let vol = match run!(xdvdfs::read::read_volume(&mut dev)) {
        Ok(v) => v,
        Err(e) => {
            out.push(format!("volume: {}", err(&e)));
            return out;
        }
    };
    out.push(format!("{vol:?} {}", vol.is_valid()));
    match run!(vol.root_dirent(&mut dev)) {
        Ok(n) => out.push(format!("root entry {:?}", n.as_ref().map(node))),
        Err(e) => out.push(format!("root entry: {}", err(&e))),
    }
    let root = vol.root_table;
    let mut tables: Vec<DirectoryEntryTable> = vec![root];
    let mut i = 0;
    while i < tables.len() && i < 12 {
        let t = tables[i];
        i += 1;
        out.push(format!("table of {} bytes, empty {}", { t.region.size }, t.is_empty()));
        match run!(t.walk_dirent_tree(&mut dev)) {
            Ok(l) => {
                out.extend(l.iter().map(node));
                tables.extend(l.iter().filter_map(|n| n.node.dirent.dirent_table()));
            }
            Err(e) => out.push(format!("walk: {}", err(&e))),
        }
        match run!(t.scan_dirent_tree(&mut dev)) {
            Ok(mut it) => loop {
                match run!(it.next_entry()) {
                    Ok(Some(n)) => out.push(node(&n)),
                    Ok(None) => break,
                    Err(e) => {
                        out.push(format!("scan: {}", err(&e)));
                        break;
                    }
                }
            },
            Err(e) => out.push(format!("scan: {}", err(&e))),
        }
    }
    let mut known = vec![];
    match run!(root.file_tree(&mut dev)) {
        Ok(l) => {
            for (d, n) in &l {
                out.push(format!("{d:?} {}", node(n)));
                if let Ok(s) = n.name_str::<LookError>() {
                    known.push(format!("{d}/{s}"));
                }
            }
            for (_, n) in l.iter().take(30) {
                let d = n.node.dirent;
                let size = d.data.size;
                if size > 1 << 20 {
                    continue;
                }
                match run!(d.read_data_all(&mut dev)) {
                    Ok(b) => out.push(sum(&b)),
                    Err(e) => out.push(format!("data: {}", err(&e))),
                }
                let mut b = vec![0xa5; (job.range.1 % 5000) as usize];
                let r = run!(d.read_data(&mut dev, &mut b)).map_err(|e| err(&e));
                out.push(format!("data: {r:?} {}", sum(&b)));
                let at = if size == 0 { job.range.0 as u64 } else { job.range.0 as u64 % (size as u64 * 2) };
                match run!(d.read_data_offset(&mut dev, job.range.1 as u64 % 5000, at)) {
                    Ok(b) => out.push(sum(&b)),
                    Err(e) => out.push(format!("data at {at}: {}", err(&e))),
                }
                // the same on bytes in memory
                if job.base == 0 {
                    let mut mem = img.to_vec();
                    let mem: &mut [u8] = &mut mem;
                    let r: Result<_, xdvdfs::util::Error<OutOfBounds>> = run!(d.read_data_all(mem));
                    out.push(format!("in memory {:?}", r.map(|b| sum(&b)).map_err(|e| err(&e))));
                }
            }
        }
        Err(e) => out.push(format!("tree: {}", err(&e))),
    }
    for (i, p) in job.paths.iter().cloned().chain(known.into_iter().take(20)).enumerate() {
        let p = if i % 3 == 2 { p.to_ascii_uppercase() } else { p };
        match run!(root.walk_path(&mut dev, &p)) {
            Ok(n) => out.push(format!("{p:?} {}", node(&n))),
            Err(e) => out.push(format!("{p:?}: {}", err(&e))),
        }
    }
    out
}
