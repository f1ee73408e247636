//! Devices with budgets, logs and injected faults.
use crate::content::mix;
use maybe_async::maybe_async;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::Arc;
use xdvdfs::blockdev;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DevError {
    Injected,
    OutOfRange,
    /// the deterministic budget of operations is exhausted
    Fuel,
}
impl std::fmt::Display for DevError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for DevError {}

/// Growable memory device.
#[derive(Clone, Default, Debug)]
pub struct MemDev {
    pub data: Vec<u8>,
    pub reads: u64,
    pub writes: u64,
    pub lens: u64,
    pub fuel: Option<u64>,
    pub out_of_fuel: bool,
    pub fail_read_at: Option<u64>,
    /// index in the sequence of write and len calls
    pub fail_write_at: Option<u64>,
    pub faulted: bool,
    pub log: Option<Vec<(u64, Vec<u8>)>>,
    /// (offset, len) of reads
    pub read_log: Option<Vec<(u64, u64)>>,
    /// for reading: a gap of so many zeroes at this position
    pub far: Option<(u64, u64)>,
}

/// Reads from data with a gap.
pub fn read_far(data: &[u8], far: (u64, u64), offset: u64, buf: &mut [u8]) -> bool {
    let (cut, by) = far;
    if offset.checked_add(buf.len() as u64).is_none_or(|e| e > data.len() as u64 + by) {
        return false;
    }
    let mut at = 0;
    while at < buf.len() {
        let o = offset + at as u64;
        let left = (buf.len() - at) as u64;
        let n;
        if o >= cut && o < cut + by {
            n = left.min(cut + by - o) as usize;
            buf[at..at + n].fill(0);
        } else {
            let (s, end) = if o < cut { (o, cut) } else { (o - by, data.len() as u64) };
            n = left.min(end - s) as usize;
            buf[at..at + n].copy_from_slice(&data[s as usize..s as usize + n]);
        }
        at += n;
    }
    true
}

impl MemDev {
    pub fn new(data: Vec<u8>) -> Self {
        MemDev { data, ..Default::default() }
    }
    pub fn fueled(data: Vec<u8>, fuel: u64) -> Self {
        MemDev { data, fuel: Some(fuel), ..Default::default() }
    }
    pub fn do_read(&mut self, offset: u64, buf: &mut [u8]) -> Result<(), DevError> {
        let k = self.reads;
        self.reads += 1;
        if let Some(l) = &mut self.read_log {
            l.push((offset, buf.len() as u64));
        }
        if let Some(f) = self.fuel {
            if k >= f {
                self.out_of_fuel = true;
                if k > f + 64 {
                    // the code under test ignores errors and goes on
                    panic!("read budget of {f} reads exhausted and errors ignored");
                }
                return Err(DevError::Fuel);
            }
        }
        if self.fail_read_at == Some(k) {
            self.faulted = true;
            return Err(DevError::Injected);
        }
        if let Some(far) = self.far {
            return if read_far(&self.data, far, offset, buf) { Ok(()) } else { Err(DevError::OutOfRange) };
        }
        let end = offset.checked_add(buf.len() as u64).ok_or(DevError::OutOfRange)?;
        if end > self.data.len() as u64 {
            return Err(DevError::OutOfRange);
        }
        buf.copy_from_slice(&self.data[offset as usize..end as usize]);
        Ok(())
    }
    pub fn do_write(&mut self, offset: u64, buf: &[u8]) -> Result<(), DevError> {
        let k = self.writes + self.lens;
        self.writes += 1;
        if self.fail_write_at == Some(k) {
            self.faulted = true;
            return Err(DevError::Injected);
        }
        let end = offset as usize + buf.len();
        if end > 1 << 31 {
            return Err(DevError::OutOfRange);
        }
        if !buf.is_empty() {
            if self.data.len() < end {
                self.data.resize(end, 0);
            }
            self.data[offset as usize..end].copy_from_slice(buf);
        }
        if let Some(l) = &mut self.log {
            l.push((offset, buf.to_vec()));
        }
        Ok(())
    }
}

#[maybe_async]
impl blockdev::BlockDeviceRead for MemDev {
    type ReadError = DevError;
    async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), DevError> {
        self.do_read(offset, buffer)
    }
}

#[maybe_async]
impl blockdev::BlockDeviceWrite for MemDev {
    type WriteError = DevError;
    async fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), DevError> {
        self.do_write(offset, buffer)
    }
    async fn len(&mut self) -> Result<u64, DevError> {
        let k = self.writes + self.lens;
        self.lens += 1;
        if self.fail_write_at == Some(k) {
            self.faulted = true;
            return Err(DevError::Injected);
        }
        Ok(self.data.len() as u64)
    }
}

/// An image embedded in a larger medium; bytes around it are a function of `surround`.
#[derive(Clone, Debug)]
pub struct Medium {
    pub image: Arc<Vec<u8>>,
    pub base: u64,
    pub tail: u64,
    pub surround: u64,
    /// a gap in the image: position and length
    pub far: Option<(u64, u64)>,
}
impl Medium {
    pub fn bare(image: Vec<u8>) -> Self {
        Medium { image: Arc::new(image), base: 0, tail: 0, surround: 0, far: None }
    }
    /// with the gap
    pub fn image_len(&self) -> u64 {
        self.image.len() as u64 + self.far.map_or(0, |f| f.1)
    }
    pub fn len(&self) -> u64 {
        self.base + self.image_len() + self.tail
    }
    pub fn byte_run(&self, offset: u64, buf: &mut [u8]) {
        let mut pos = 0usize;
        while pos < buf.len() {
            let o = offset + pos as u64;
            let iend = self.base + self.image_len();
            if o >= self.base && o < iend {
                let n = (iend - o).min((buf.len() - pos) as u64) as usize;
                read_far(&self.image, self.far.unwrap_or((0, 0)), o - self.base, &mut buf[pos..pos + n]);
                pos += n;
            } else {
                let stop = if o < self.base { self.base } else { u64::MAX };
                let n = ((stop - o).min(4096) as usize).min(buf.len() - pos);
                for (k, b) in buf[pos..pos + n].iter_mut().enumerate() {
                    *b = if self.surround == 0 {
                        0
                    } else {
                        let a = o + k as u64;
                        mix(self.surround ^ (a / 8)).to_le_bytes()[(a % 8) as usize]
                    };
                }
                pos += n;
            }
        }
    }
    /// Write to a (sparse) file: only the neighbourhood of the image gets surrounding bytes.
    pub fn to_file(&self, path: &std::path::Path) -> io::Result<()> {
        let mut f = std::fs::File::create(path)?;
        f.set_len(self.len())?;
        if self.surround != 0 {
            let near = self.base.min(4096);
            let mut b = vec![0; near as usize];
            self.byte_run(self.base - near, &mut b);
            f.seek(SeekFrom::Start(self.base - near))?;
            f.write_all(&b)?;
        }
        let (cut, by) = self.far.unwrap_or((0, 0));
        f.seek(SeekFrom::Start(self.base))?;
        f.write_all(&self.image[..cut as usize])?;
        f.seek(SeekFrom::Start(self.base + cut + by))?;
        f.write_all(&self.image[cut as usize..])?;
        if self.surround != 0 {
            let mut b = vec![0; self.tail.min(4096) as usize];
            self.byte_run(self.base + self.image_len(), &mut b);
            f.write_all(&b)?;
        }
        Ok(())
    }
    /// Does the file still hold what to_file wrote?
    pub fn check_file(&self, path: &std::path::Path) -> Result<(), String> {
        let mut f = std::fs::File::open(path).map_err(|e| format!("the image is gone: {e}"))?;
        let len = f.metadata().map_err(|e| e.to_string())?.len();
        if len != self.len() {
            return Err(format!("the image has {len} bytes, not {}", self.len()));
        }
        let near = if self.surround == 0 { 0 } else { 4096 };
        let (cut, by) = self.far.unwrap_or((0, 0));
        let before = self.base.min(near);
        for (o, n) in [(self.base - before, before + cut), (self.base + cut + by, self.image.len() as u64 - cut + self.tail.min(near))] {
            let (mut a, mut b) = (vec![0; n as usize], vec![0; n as usize]);
            self.byte_run(o, &mut a);
            f.seek(SeekFrom::Start(o)).and_then(|_| f.read_exact(&mut b)).map_err(|e| e.to_string())?;
            if a != b {
                return Err("the image has changed".into());
            }
        }
        Ok(())
    }
}

#[maybe_async]
impl blockdev::BlockDeviceRead for Medium {
    type ReadError = DevError;
    async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), DevError> {
        if offset.checked_add(buffer.len() as u64).is_none_or(|e| e > self.len()) {
            return Err(DevError::OutOfRange);
        }
        self.byte_run(offset, buffer);
        Ok(())
    }
}

/// std::io view of a Medium, with short reads, interruptions, faults and a budget.
#[derive(Clone, Debug)]
pub struct IoSrc {
    pub m: Medium,
    pub pos: u64,
    /// 0: whole reads; n: at most n bytes per read call
    pub short: usize,
    /// every n-th call is interrupted
    pub interrupt: u64,
    pub calls: u64,
    pub fail_at: Option<u64>,
    pub faulted: bool,
    pub fuel: Option<u64>,
}
impl IoSrc {
    pub fn new(m: Medium) -> Self {
        IoSrc { m, pos: 0, short: 0, interrupt: 0, calls: 0, fail_at: None, faulted: false, fuel: None }
    }
}
impl Read for IoSrc {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let k = self.calls;
        self.calls += 1;
        if let Some(f) = self.fuel {
            if k >= f {
                if k > f + 64 {
                    panic!("read budget of {f} reads exhausted and errors ignored");
                }
                return Err(io::Error::other("out of fuel"));
            }
        }
        if self.fail_at == Some(k) {
            self.faulted = true;
            return Err(io::Error::other("injected"));
        }
        let every = self.interrupt.max(2);
        if self.interrupt > 0 && k % every == every - 1 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let left = self.m.len().saturating_sub(self.pos);
        let mut n = (buf.len() as u64).min(left) as usize;
        if self.short > 0 {
            n = n.min(self.short);
        }
        self.m.byte_run(self.pos, &mut buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for IoSrc {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let n = match p {
            SeekFrom::Start(o) => o as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.m.len() as i128 + d as i128,
        };
        if n < 0 {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

/// std::io destination that is also a block device.
#[derive(Clone, Debug, Default)]
pub struct IoMem {
    pub data: Vec<u8>,
    pub pos: u64,
    pub calls: u64,
    pub fail_at: Option<u64>,
    pub faulted: bool,
    pub short: usize,
    pub log: Option<Vec<(u64, Vec<u8>)>>,
}
impl Write for IoMem {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let k = self.calls;
        self.calls += 1;
        if self.fail_at == Some(k) {
            self.faulted = true;
            return Err(io::Error::other("injected"));
        }
        let n = if self.short > 0 { buf.len().min(self.short) } else { buf.len() };
        let end = self.pos as usize + n;
        if end > 1 << 31 {
            return Err(io::Error::other("too large"));
        }
        if self.data.len() < end {
            self.data.resize(end, 0);
        }
        self.data[self.pos as usize..end].copy_from_slice(&buf[..n]);
        if let Some(l) = &mut self.log {
            l.push((self.pos, buf[..n].to_vec()));
        }
        self.pos = end as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for IoMem {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let n = match p {
            SeekFrom::Start(o) => o as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if n < 0 {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}
#[maybe_async]
impl blockdev::BlockDeviceWrite for IoMem {
    type WriteError = io::Error;
    async fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), io::Error> {
        self.seek(SeekFrom::Start(offset))?;
        self.write_all(buffer)
    }
    async fn len(&mut self) -> Result<u64, io::Error> {
        let k = self.calls;
        self.calls += 1;
        if self.fail_at == Some(k) {
            self.faulted = true;
            return Err(io::Error::other("injected"));
        }
        Ok(self.data.len() as u64)
    }
}

/// Sparse device: 2048-byte pages, any offset.
#[derive(Clone, Debug, Default)]
pub struct SparseDev {
    pub pages: std::collections::HashMap<u64, Box<[u8]>>,
    pub len: u64,
    /// refuse reads beyond the end
    pub strict: bool,
}
#[maybe_async]
impl blockdev::BlockDeviceWrite for SparseDev {
    type WriteError = DevError;
    async fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), DevError> {
        let mut at = 0;
        while at < buffer.len() {
            let o = offset + at as u64;
            let k = (o % 2048) as usize;
            let n = (2048 - k).min(buffer.len() - at);
            let p = self.pages.entry(o / 2048).or_insert_with(|| vec![0; 2048].into_boxed_slice());
            p[k..k + n].copy_from_slice(&buffer[at..at + n]);
            at += n;
        }
        if !buffer.is_empty() {
            self.len = self.len.max(offset + buffer.len() as u64);
        }
        Ok(())
    }
    async fn len(&mut self) -> Result<u64, DevError> {
        Ok(self.len)
    }
}
#[maybe_async]
impl blockdev::BlockDeviceRead for SparseDev {
    type ReadError = DevError;
    async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), DevError> {
        if self.strict && offset.checked_add(buffer.len() as u64).is_none_or(|e| e > self.len) {
            return Err(DevError::OutOfRange);
        }
        let mut at = 0;
        while at < buffer.len() {
            let o = offset + at as u64;
            let k = (o % 2048) as usize;
            let n = (2048 - k).min(buffer.len() - at);
            match self.pages.get(&(o / 2048)) {
                Some(p) => buffer[at..at + n].copy_from_slice(&p[k..k + n]),
                None => buffer[at..at + n].fill(0),
            }
            at += n;
        }
        Ok(())
    }
}

/// A growing destination of any size that stores only what is not zero.
#[derive(Clone, Debug, Default)]
pub struct HoleyDev {
    pub pages: std::collections::BTreeMap<u64, Box<[u8]>>,
    pub len: u64,
    pub pos: u64,
}
pub fn all_zero(b: &[u8]) -> bool {
    b.is_empty() || b[0] == 0 && unsafe { libc::memcmp(b.as_ptr() as *const _, b.as_ptr().add(1) as *const _, b.len() - 1) == 0 }
}
impl HoleyDev {
    pub fn put(&mut self, offset: u64, b: &[u8]) {
        if b.is_empty() {
            return;
        }
        let end = offset + b.len() as u64;
        // fresh zeroes
        if offset >= self.len && all_zero(b) {
            self.len = end;
            return;
        }
        let mut at = 0;
        while at < b.len() {
            let o = offset + at as u64;
            let k = (o % 2048) as usize;
            let n = (2048 - k).min(b.len() - at);
            let part = &b[at..at + n];
            if !all_zero(part) || self.pages.contains_key(&(o / 2048)) {
                let p = self.pages.entry(o / 2048).or_insert_with(|| vec![0; 2048].into_boxed_slice());
                p[k..k + n].copy_from_slice(part);
            }
            at += n;
        }
        self.len = self.len.max(end);
    }
    pub fn get(&self, o: u64, b: &mut [u8]) -> bool {
        if o.checked_add(b.len() as u64).is_none_or(|e| e > self.len) {
            return false;
        }
        let mut at = 0;
        while at < b.len() {
            let (s, k) = ((o + at as u64) / 2048, ((o + at as u64) % 2048) as usize);
            let n = (2048 - k).min(b.len() - at);
            match self.pages.get(&s) {
                Some(p) => b[at..at + n].copy_from_slice(&p[k..k + n]),
                None => b[at..at + n].fill(0),
            }
            at += n;
        }
        true
    }
    /// whether there are only zeroes in a range
    pub fn zero(&self, from: u64, to: u64) -> bool {
        from >= to
            || to <= self.len
                && self.pages.range(from / 2048..to.div_ceil(2048)).all(|(s, p)| {
                    let base = s * 2048;
                    let (a, b) = (from.max(base) - base, to.min(base + 2048) - base);
                    all_zero(&p[a as usize..b as usize])
                })
    }
}
#[maybe_async]
impl blockdev::BlockDeviceWrite for HoleyDev {
    type WriteError = io::Error;
    async fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), io::Error> {
        self.put(offset, buffer);
        Ok(())
    }
    async fn len(&mut self) -> Result<u64, io::Error> {
        Ok(self.len)
    }
}
impl Write for HoleyDev {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.put(self.pos, buf);
        self.pos += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for HoleyDev {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let n = match p {
            SeekFrom::Start(o) => o as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.len as i128 + d as i128,
        };
        if n < 0 {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}
