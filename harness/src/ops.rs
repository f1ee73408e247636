//! The operations of the code under test, as plain functions.
use crate::blk;
use crate::devs::{IoMem, IoSrc, Medium, MemDev};
use crate::memfs::MemFs;
use crate::tree::{Flat, Item, Tree};
use std::fmt::Debug;
use std::path::Path;
use xdvdfs::blockdev::{self, OffsetWrapper};
use xdvdfs::layout::DirectoryEntryNode;
use xdvdfs::write::fs as wfs;
use xdvdfs::write::img::{create_xdvdfs_image, ProgressInfo};

pub fn e2s<E: Debug>(e: E) -> String {
    format!("{e:?}")
}

/// Pack an in-memory source; returns the image.
pub fn pack_mem(t: &Tree) -> Result<Vec<u8>, String> {
    let mut fs = MemFs::new(t);
    let mut d = MemDev::default();
    blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).map_err(|e| format!("packing failed: {e:?}"))?;
    Ok(d.data)
}

pub fn pack_mem_events(t: &Tree) -> (Result<Vec<u8>, String>, Vec<ProgressInfo>) {
    let mut fs = MemFs::new(t);
    let mut d = MemDev::default();
    let mut ev = vec![];
    let r = blk!(create_xdvdfs_image(&mut fs, &mut d, |p| ev.push(p)));
    (r.map_err(|e| format!("packing failed: {e:?}")).map(|_| d.data), ev)
}

/// Pack a host directory into a growing std::io destination.
pub fn pack_host_io(dir: &Path) -> Result<Vec<u8>, String> {
    let mut fs = wfs::StdFilesystem::create(dir);
    let mut d = IoMem::default();
    blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).map_err(|e| format!("packing failed: {e:?}"))?;
    Ok(d.data)
}

/// Pack a host directory into a fixed buffer of exactly `size` bytes.
pub fn pack_host_box(dir: &Path, size: usize) -> Result<Vec<u8>, String> {
    let mut fs = wfs::StdFilesystem::create(dir);
    let mut d: Box<[u8]> = vec![0u8; size].into_boxed_slice();
    blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).map_err(|e| format!("packing failed: {e:?}"))?;
    Ok(d.into_vec())
}

/// Pack a host directory through a buffered file, as the tools do.
pub fn pack_host_file(dir: &Path, out: &Path, cap: usize) -> Result<Vec<u8>, String> {
    let mut fs = wfs::StdFilesystem::create(dir);
    {
        let f = std::fs::File::create(out).map_err(|e| format!("harness: {e}"))?;
        let mut d = std::io::BufWriter::with_capacity(cap, f);
        blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).map_err(|e| format!("packing failed: {e:?}"))?;
        std::io::Write::flush(&mut d).map_err(e2s)?;
    }
    std::fs::read(out).map_err(|e| format!("harness: {e}"))
}

/// Repack an image with the generic copier.
pub fn repack_default(m: &Medium) -> Result<Vec<u8>, String> {
    let dev = blk!(OffsetWrapper::new(m.clone())).map_err(|e| format!("opening failed: {e:?}"))?;
    let mut fs: wfs::XDVDFSFilesystem<_, MemDev> =
        blk!(wfs::XDVDFSFilesystem::new(dev)).ok_or_else(|| "XDVDFSFilesystem::new failed".to_string())?;
    let mut d = MemDev::default();
    blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).map_err(|e| format!("repacking failed: {e:?}"))?;
    Ok(d.data)
}

/// Repack an image with the std::io copier.
pub fn repack_stdio(src: IoSrc, buffered: bool) -> Result<Vec<u8>, String> {
    let mut d = IoMem::default();
    if buffered {
        let dev = blk!(OffsetWrapper::new(std::io::BufReader::new(src))).map_err(|e| format!("opening failed: {e:?}"))?;
        let mut fs = blk!(wfs::XDVDFSFilesystem::<_, IoMem, wfs::StdIOCopier<_, _>>::new(dev))
            .ok_or_else(|| "XDVDFSFilesystem::new failed".to_string())?;
        blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).map_err(|e| format!("repacking failed: {e:?}"))?;
    } else {
        let dev = blk!(OffsetWrapper::new(src)).map_err(|e| format!("opening failed: {e:?}"))?;
        let mut fs = blk!(wfs::XDVDFSFilesystem::<_, IoMem, wfs::StdIOCopier<_, _>>::new(dev))
            .ok_or_else(|| "XDVDFSFilesystem::new failed".to_string())?;
        blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).map_err(|e| format!("repacking failed: {e:?}"))?;
    }
    Ok(d.data)
}

/// Repack a bare image through the unwrapped std::io copier.
pub fn repack_stdio_bare(src: IoSrc) -> Result<Vec<u8>, String> {
    let mut d = IoMem::default();
    let mut fs = blk!(wfs::XDVDFSFilesystem::<_, IoMem, wfs::StdIOCopier<_, _>>::new(src))
        .ok_or_else(|| "XDVDFSFilesystem::new failed".to_string())?;
    blk!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).map_err(|e| format!("repacking failed: {e:?}"))?;
    Ok(d.data)
}

/// The tree as the library's own reader shows it (recursive listing + whole-file reads).
pub fn lib_flat<D>(dev: &mut D) -> Result<Flat, String>
where
    D: blockdev::BlockDeviceRead,
    D::ReadError: Debug,
{
    let vol = blk!(xdvdfs::read::read_volume(dev)).map_err(e2s)?;
    let tree = blk!(vol.root_table.file_tree(dev)).map_err(e2s)?;
    let mut out = Flat::new();
    for (dir, d) in tree {
        let mut p: Vec<String> = dir.split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        p.push(name_of(&d)?);
        let item = if d.node.dirent.is_directory() {
            Item::Dir
        } else {
            Item::File(blk!(d.node.dirent.read_data_all(dev)).map_err(e2s)?.into_vec())
        };
        if out.insert(p.clone(), item).is_some() {
            return Err(format!("{p:?} listed twice"));
        }
    }
    Ok(out)
}

pub fn name_of(d: &DirectoryEntryNode) -> Result<String, String> {
    d.name_str::<std::io::Error>().map(|c| c.into_owned()).map_err(e2s)
}

pub fn pathvec(p: &[String]) -> wfs::PathVec {
    let mut v = wfs::PathVec::default();
    for c in p {
        v = wfs::PathVec::from_base(&v, c);
    }
    v
}

pub fn pathvec_root() -> wfs::PathVec {
    wfs::PathVec::default()
}

/// Write a tree below the scratch directory; failures are the harness's own.
pub fn host_tree(dir: &Path, t: &Tree) {
    crate::cli::write_tree(dir, t).unwrap_or_else(|e| panic!("harness: cannot write the source tree: {e}"));
}

pub fn same(expected: &Flat, got: &Flat, what: &str) -> Result<(), String> {
    match crate::tree::diff(expected, got) {
        None => Ok(()),
        Some(d) => Err(format!("{what}: {d}")),
    }
}

/// One entry as both sides describe it.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Desc {
    pub name: Vec<u8>,
    pub sector: u32,
    pub size: u32,
    pub attr: u8,
    /// absolute position of the entry in the image
    pub pos: u64,
}
pub fn desc_of(n: &DirectoryEntryNode) -> Desc {
    let d = n.node.dirent;
    let data = d.data;
    Desc { name: n.name_slice().to_vec(), sector: data.sector, size: data.size, attr: d.attributes.0, pos: n.offset }
}
pub fn desc_parsed(d: &crate::reader::PDir, e: &crate::reader::PEntry) -> Desc {
    Desc { name: e.name.clone(), sector: e.sector, size: e.size, attr: e.attr, pos: d.sector as u64 * 2048 + e.pos }
}
