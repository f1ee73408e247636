//! The kernel's side of the FUSE protocol, spoken to the file system daemon over a socket.
//!
//! The daemon is started with mount options that make it ask `fusermount3` for a mounted device. A stand-in
//! of that name hands it one end of a socket pair instead; nothing is mounted.
use std::io::Write;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

/// The stand-in for fusermount3; call first thing in main.
pub fn helper() {
    let name = std::env::args().next().unwrap_or_default();
    if !name.ends_with("fusermount3") && !name.ends_with("fusermount") {
        return;
    }
    let Some(comm) = std::env::var("_FUSE_COMMFD").ok().and_then(|s| s.parse::<i32>().ok()) else {
        std::process::exit(0) // asked for help or to unmount
    };
    if let Ok(log) = std::env::var("XV_FUSE_LOG") {
        let args: Vec<String> = std::env::args().skip(1).collect();
        let f = std::fs::OpenOptions::new().append(true).create(true).open(log);
        let _ = f.and_then(|mut f| f.write_all((serde_json::to_string(&args).unwrap() + "\n").as_bytes()));
    }
    let mode = std::env::var("XV_FUSE_MODE").unwrap_or_default();
    if mode.contains("slow") {
        std::thread::sleep(Duration::from_millis(60));
    }
    if mode.contains("fail") {
        if !mode.contains("quiet") {
            eprintln!("fusermount3: mount failed: Operation not permitted");
        }
        std::process::exit(1)
    }
    let fd: i32 = std::env::var("XV_FUSE_FD").ok().and_then(|s| s.parse().ok()).unwrap_or(-1);
    unsafe {
        let mut byte = [0u8];
        let mut iov = libc::iovec { iov_base: byte.as_mut_ptr() as *mut _, iov_len: 1 };
        let mut buf = [0u64; 8];
        let mut m: libc::msghdr = std::mem::zeroed();
        m.msg_iov = &mut iov;
        m.msg_iovlen = 1;
        m.msg_control = buf.as_mut_ptr() as *mut _;
        m.msg_controllen = libc::CMSG_SPACE(4) as _;
        let c = libc::CMSG_FIRSTHDR(&m);
        (*c).cmsg_level = libc::SOL_SOCKET;
        (*c).cmsg_type = libc::SCM_RIGHTS;
        (*c).cmsg_len = libc::CMSG_LEN(4) as _;
        *(libc::CMSG_DATA(c) as *mut i32) = fd;
        let r = libc::sendmsg(comm, &m, 0);
        std::process::exit((r < 0) as i32)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Attr {
    pub ino: u64,
    pub size: u64,
    pub mode: u32,
}
impl Attr {
    pub fn is_dir(&self) -> bool {
        self.mode & libc::S_IFMT == libc::S_IFDIR
    }
    pub fn is_file(&self) -> bool {
        self.mode & libc::S_IFMT == libc::S_IFREG
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Dirent {
    pub ino: u64,
    pub off: u64,
    pub typ: u32,
    pub name: String,
}

pub struct Mounted {
    child: Child,
    sock: OwnedFd,
    ended: OwnedFd,
    errors: PathBuf,
    unique: u64,
    minor: u32,
    pub requests: u64,
    /// the largest reply the connection carries
    pub room: u32,
}

/// An error number, or the daemon is gone.
pub type Reply<T> = Result<T, i32>;

fn u32_at(b: &[u8], o: usize) -> u32 {
    b.get(o..o + 4).map_or(0, |b| u32::from_le_bytes(b.try_into().unwrap()))
}
fn u64_at(b: &[u8], o: usize) -> u64 {
    b.get(o..o + 8).map_or(0, |b| u64::from_le_bytes(b.try_into().unwrap()))
}

impl Mounted {
    /// Start the daemon in the foreground on an image. `dir` must have no directory `bin` or `mnt`.
    pub fn start(dir: &Path, img: &Path) -> Result<Mounted, String> {
        std::fs::create_dir_all(dir.join("mnt")).map_err(|e| format!("harness: {e}"))?;
        let args = ["-o".into(), "auto_unmount,nofork".into(), img.as_os_str().to_owned(), dir.join("mnt").into_os_string()];
        let mut m = Mounted::launch(dir, &args, "")?;
        m.begin()?;
        m.begun()?;
        Ok(m)
    }

    /// Run the daemon with these arguments, in `dir`. The stand-in for fusermount3 behaves as `mode` says.
    pub fn launch(dir: &Path, args: &[std::ffi::OsString], mode: &str) -> Result<Mounted, String> {
        let bin = dir.join("bin");
        std::fs::create_dir_all(&bin).map_err(|e| format!("harness: {e}"))?;
        let _ = std::os::unix::fs::symlink(std::env::current_exe().unwrap(), bin.join("fusermount3"));
        let mut room = 0i32;
        let (a, b) = unsafe {
            let mut p = [0i32; 2];
            if libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr()) != 0 {
                return Err("harness: socketpair".into());
            }
            for fd in p {
                let n: i32 = 1 << 20;
                libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &n as *const _ as *const _, 4);
                libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUFFORCE, &n as *const _ as *const _, 4);
                let mut l = 4;
                libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &mut room as *mut _ as *mut _, &mut l);
            }
            let tv = libc::timeval { tv_sec: 120, tv_usec: 0 };
            libc::setsockopt(p[0], libc::SOL_SOCKET, libc::SO_RCVTIMEO, &tv as *const _ as *const _, std::mem::size_of_val(&tv) as u32);
            (OwnedFd::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1]))
        };
        // every process that descends from the daemon holds the other end
        let (ended, held) = unsafe {
            let mut p = [0i32; 2];
            if libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
                return Err("harness: pipe".into());
            }
            (OwnedFd::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1]))
        };
        let path = format!("{}:{}", bin.display(), std::env::var("PATH").unwrap_or_default());
        let (fd, hold) = (b.as_raw_fd(), held.as_raw_fd());
        let errors = dir.join("stderr");
        let err = std::fs::File::create(&errors).map_err(|e| format!("harness: {e}"))?;
        let mut c = Command::new(crate::cli::bin("xdvdfsd"));
        c.args(args);
        c.current_dir(dir).env("PATH", path).env("XV_FUSE_FD", fd.to_string()).env_remove("RUST_LOG").env("RUST_BACKTRACE", "0");
        c.env("XV_FUSE_MODE", mode).env("XV_FUSE_LOG", dir.join("requests"));
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(err);
        unsafe {
            c.pre_exec(move || {
                // inherited by the daemon and its stand-in
                libc::fcntl(fd, libc::F_SETFD, 0);
                libc::fcntl(hold, libc::F_SETFD, 0);
                libc::setpgid(0, 0);
                let cpu = libc::rlimit { rlim_cur: 60, rlim_max: 90 };
                libc::setrlimit(libc::RLIMIT_CPU, &cpu);
                let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &core);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let child = c.spawn().map_err(|e| format!("harness: cannot run the daemon: {e}"))?;
        drop((b, held));
        Ok(Mounted { child, sock: a, ended, errors, unique: 1, minor: 8, requests: 0, room: (room.clamp(0, 1 << 20) as u32).saturating_sub(4096) })
    }

    /// Ask for a session, as the kernel does after mounting.
    pub fn begin(&mut self) -> Result<(), String> {
        let mut init = vec![];
        for v in [7u32, 31, 131072, 0] {
            init.extend(v.to_le_bytes());
        }
        self.unique += 2;
        self.send(26, 0, &init)
    }
    /// The reply to that.
    pub fn begun(&mut self) -> Result<(), String> {
        match self.reply() {
            Ok(Ok(b)) if b.len() >= 8 => self.minor = u32_at(&b, 4).min(31),
            Ok(r) => return Err(format!("the daemon does not start a session: {r:?}")),
            Err(e) => return Err(e),
        }
        Ok(())
    }
    pub fn errors(&self) -> String {
        String::from_utf8_lossy(&std::fs::read(&self.errors).unwrap_or_default()).trim().to_string()
    }
    /// The exit status of the process started first, if it ends in time.
    pub fn status(&mut self, timeout: Duration) -> Option<ExitStatus> {
        let t = Instant::now();
        let mut nap = 200;
        loop {
            if let Ok(Some(s)) = self.child.try_wait() {
                return Some(s);
            }
            if t.elapsed() >= timeout {
                return None;
            }
            std::thread::sleep(Duration::from_micros(nap));
            nap = (nap * 2).min(10_000);
        }
    }
    /// Whether all processes have ended in time.
    pub fn all_ended(&mut self, timeout: Duration) -> bool {
        let mut p = libc::pollfd { fd: self.ended.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        let t = Instant::now();
        loop {
            let left = timeout.saturating_sub(t.elapsed());
            let n = unsafe { libc::poll(&mut p, 1, left.as_millis() as i32) };
            if n > 0 {
                return p.revents & libc::POLLHUP != 0;
            }
            if n == 0 {
                return false;
            }
        }
    }

    fn gone(&mut self, why: &str) -> String {
        let _ = self.child.kill();
        let st = self.child.wait();
        format!("{why} ({st:?}): {}", self.errors())
    }

    /// One request and its reply. Err: the daemon died or went silent.
    fn call(&mut self, op: u32, node: u64, body: &[u8]) -> Result<Reply<Vec<u8>>, String> {
        self.unique += 2;
        self.send(op, node, body)?;
        self.reply()
    }

    fn reply(&mut self) -> Result<Reply<Vec<u8>>, String> {
        self.requests += 1;
        let mut buf = vec![0u8; 1 << 20];
        let n = loop {
            let n = unsafe { libc::recv(self.sock.as_raw_fd(), buf.as_mut_ptr() as *mut _, buf.len(), 0) };
            if n < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            break n;
        };
        if n < 0 {
            return Err(self.gone("the daemon does not answer"));
        }
        if n == 0 {
            return Err(self.gone("the daemon ended the session"));
        }
        buf.truncate(n as usize);
        if buf.len() < 16 || u32_at(&buf, 0) as usize != buf.len() || u64_at(&buf, 8) != self.unique {
            return Err(format!("the daemon's reply is malformed: {:02x?}", &buf[..buf.len().min(32)]));
        }
        let e = u32_at(&buf, 4) as i32;
        if e != 0 {
            return Ok(Err(-e));
        }
        Ok(Ok(buf[16..].to_vec()))
    }

    fn send(&mut self, op: u32, node: u64, body: &[u8]) -> Result<(), String> {
        let mut b = vec![];
        b.extend((40 + body.len() as u32).to_le_bytes());
        b.extend(op.to_le_bytes());
        b.extend(self.unique.to_le_bytes());
        b.extend(node.to_le_bytes());
        let id = unsafe { (libc::geteuid(), libc::getegid()) };
        for v in [id.0, id.1, std::process::id(), 0] {
            b.extend(v.to_le_bytes());
        }
        b.extend(body);
        let n = unsafe { libc::send(self.sock.as_raw_fd(), b.as_ptr() as *const _, b.len(), libc::MSG_NOSIGNAL) };
        if n != b.len() as isize {
            return Err(self.gone("the daemon does not take requests"));
        }
        Ok(())
    }

    fn attr(&self, b: &[u8], o: usize) -> Attr {
        Attr { ino: u64_at(b, o), size: u64_at(b, o + 8), mode: u32_at(b, o + 60) }
    }

    /// (node id, attributes)
    pub fn lookup(&mut self, parent: u64, name: &[u8]) -> Result<Reply<(u64, Attr)>, String> {
        let mut b = name.to_vec();
        b.push(0);
        let r = self.call(1, parent, &b)?;
        Ok(r.map(|b| (u64_at(&b, 0), self.attr(&b, 40))))
    }
    pub fn forget(&mut self, node: u64) -> Result<(), String> {
        self.unique += 2;
        self.send(2, node, &1u64.to_le_bytes())
    }
    pub fn getattr(&mut self, node: u64) -> Result<Reply<Attr>, String> {
        let body = if self.minor < 9 { vec![] } else { vec![0; 16] };
        let r = self.call(3, node, &body)?;
        Ok(r.map(|b| self.attr(&b, 16)))
    }
    /// open or opendir
    pub fn open(&mut self, node: u64, flags: i32, dir: bool) -> Result<Reply<u64>, String> {
        let mut b = flags.to_le_bytes().to_vec();
        b.extend([0; 4]);
        let r = self.call(if dir { 27 } else { 14 }, node, &b)?;
        Ok(r.map(|b| u64_at(&b, 0)))
    }
    pub fn release(&mut self, node: u64, fh: u64, dir: bool) -> Result<Reply<()>, String> {
        let mut b = fh.to_le_bytes().to_vec();
        b.extend([0; 16]);
        Ok(self.call(if dir { 29 } else { 18 }, node, &b)?.map(|_| ()))
    }
    fn read_in(&self, fh: u64, off: u64, size: u32) -> Vec<u8> {
        let mut b = fh.to_le_bytes().to_vec();
        b.extend(off.to_le_bytes());
        b.extend(size.to_le_bytes());
        b.extend([0; 4]);
        if self.minor >= 9 {
            b.extend([0; 16]);
        }
        b
    }
    pub fn read(&mut self, node: u64, fh: u64, off: u64, size: u32) -> Result<Reply<Vec<u8>>, String> {
        let b = self.read_in(fh, off, size);
        self.call(15, node, &b)
    }
    pub fn readdir(&mut self, node: u64, fh: u64, off: u64, size: u32) -> Result<Reply<Vec<Dirent>>, String> {
        let b = self.read_in(fh, off, size);
        let b = match self.call(28, node, &b)? {
            Ok(b) => b,
            Err(e) => return Ok(Err(e)),
        };
        if b.len() > size as usize {
            return Err(format!("readdir of {size} bytes returns {}", b.len()));
        }
        let mut out = vec![];
        let mut o = 0;
        while o < b.len() {
            let n = u32_at(&b, o + 16) as usize;
            let Some(name) = b.get(o + 24..o + 24 + n) else { return Err("readdir returns a partial record".into()) };
            let name = String::from_utf8(name.to_vec()).map_err(|_| "a name is not UTF-8".to_string())?;
            out.push(Dirent { ino: u64_at(&b, o), off: u64_at(&b, o + 8), typ: u32_at(&b, o + 20), name });
            o += (24 + n).div_ceil(8) * 8;
        }
        Ok(Ok(out))
    }
    /// any other request
    pub fn raw(&mut self, op: u32, node: u64, body: &[u8]) -> Result<Reply<Vec<u8>>, String> {
        self.call(op, node, body)
    }
}

impl Drop for Mounted {
    fn drop(&mut self) {
        unsafe { libc::kill(-(self.child.id() as i32), libc::SIGKILL) };
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
