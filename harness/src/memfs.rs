//! An in-memory packing source built from a Tree.
use crate::content;
use crate::devs::DevError;
use crate::tree::{Node, Tree};
use maybe_async::maybe_async;
use std::collections::HashMap;
use xdvdfs::blockdev;
use xdvdfs::write::fs::{FileEntry, FileType, FilesystemCopier, FilesystemHierarchy, PathVec};

#[derive(Debug)]
pub enum MemFsError {
    NotFound(String),
    Injected,
    Write(String),
}
impl std::fmt::Display for MemFsError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for MemFsError {}

#[derive(Clone, Debug, Default)]
pub struct MemFs {
    dirs: HashMap<Vec<String>, Vec<FileEntry>>,
    files: HashMap<Vec<String>, (u64, u64)>,
    /// do not really write file contents (for huge declared sizes)
    pub virtual_copy: bool,
    /// write only so many bytes at both ends of a file (0: all)
    pub ends: u64,
    /// write in pieces of this many bytes (0: one write)
    pub chunk: usize,
    pub calls: u64,
    pub fail_at: Option<u64>,
    pub faulted: bool,
    /// copies requested: (path, out offset, size)
    pub copies: Vec<(Vec<String>, u64, u64)>,
}

pub fn comps(p: &PathVec) -> Vec<String> {
    p.iter().cloned().collect()
}

impl MemFs {
    pub fn new(t: &Tree) -> Self {
        let mut s = MemFs::default();
        let conv = |l: &Vec<crate::tree::Entry>| -> Vec<FileEntry> {
            l.iter()
                .map(|e| FileEntry {
                    name: e.name.clone(),
                    file_type: match e.node {
                        Node::Dir(_) => FileType::Directory,
                        _ => FileType::File,
                    },
                    len: match e.node {
                        Node::File { len, .. } => len,
                        _ => 0,
                    },
                })
                .collect()
        };
        s.dirs.insert(vec![], conv(&t.0));
        t.walk(&mut |pre, e| {
            let mut p = pre.to_vec();
            p.push(e.name.clone());
            match &e.node {
                Node::Dir(l) => {
                    s.dirs.insert(p, conv(l));
                }
                Node::File { len, seed } => {
                    s.files.insert(p, (*len, *seed));
                }
            }
        });
        s
    }
    fn tick(&mut self) -> Result<(), MemFsError> {
        let k = self.calls;
        self.calls += 1;
        if self.fail_at == Some(k) {
            self.faulted = true;
            return Err(MemFsError::Injected);
        }
        Ok(())
    }
}

#[maybe_async]
impl FilesystemHierarchy for MemFs {
    type Error = MemFsError;
    async fn read_dir(&mut self, path: &PathVec) -> Result<Vec<FileEntry>, MemFsError> {
        self.tick()?;
        let c = comps(path);
        self.dirs.get(&c).cloned().ok_or_else(|| MemFsError::NotFound(c.join("/")))
    }
}

#[maybe_async]
impl<W> FilesystemCopier<W> for MemFs
where
    W: blockdev::BlockDeviceWrite,
    W::WriteError: std::fmt::Debug + Send + Sync,
{
    type Error = MemFsError;
    async fn copy_file_in(
        &mut self,
        src: &PathVec,
        dest: &mut W,
        input_offset: u64,
        output_offset: u64,
        size: u64,
    ) -> Result<u64, MemFsError> {
        self.tick()?;
        let c = comps(src);
        let (len, seed) = *self.files.get(&c).ok_or_else(|| MemFsError::NotFound(c.join("/")))?;
        self.copies.push((c, output_offset, size));
        if self.virtual_copy {
            return Ok(size.min(len.saturating_sub(input_offset)));
        }
        if self.ends > 0 && input_offset == 0 && size == len && len > 2 * self.ends {
            for o in [0, len - self.ends] {
                let b = content::range(seed, len, o, self.ends);
                <W as blockdev::BlockDeviceWrite>::write(dest, output_offset + o, &b).await.map_err(|e| MemFsError::Write(format!("{e:?}")))?;
            }
            return Ok(size);
        }
        let b = content::range(seed, len, input_offset, size);
        let step = if self.chunk == 0 { b.len().max(1) } else { self.chunk };
        let mut at = 0usize;
        while at < b.len() {
            let n = step.min(b.len() - at);
            <W as blockdev::BlockDeviceWrite>::write(dest, output_offset + at as u64, &b[at..at + n])
                .await
                .map_err(|e| MemFsError::Write(format!("{e:?}")))?;
            at += n;
        }
        Ok(b.len() as u64)
    }
}

/// Slice destination (sector reads of the compressor).
#[derive(Debug)]
pub struct SliceFs(pub MemFs);

#[maybe_async]
impl FilesystemHierarchy for SliceFs {
    type Error = MemFsError;
    async fn read_dir(&mut self, path: &PathVec) -> Result<Vec<FileEntry>, MemFsError> {
        self.0.read_dir(path).await
    }
}
#[maybe_async]
impl FilesystemCopier<[u8]> for SliceFs {
    type Error = MemFsError;
    async fn copy_file_in(
        &mut self,
        src: &PathVec,
        dest: &mut [u8],
        input_offset: u64,
        output_offset: u64,
        size: u64,
    ) -> Result<u64, MemFsError> {
        self.0.tick()?;
        let c = comps(src);
        let (len, seed) = *self.0.files.get(&c).ok_or_else(|| MemFsError::NotFound(c.join("/")))?;
        let b = content::range(seed, len, input_offset, size);
        let o = output_offset as usize;
        dest[o..o + b.len()].copy_from_slice(&b);
        Ok(b.len() as u64)
    }
}

pub fn is_injected(e: &DevError) -> bool {
    *e == DevError::Injected
}
