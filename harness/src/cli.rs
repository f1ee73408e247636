//! Driving the command line tool as a black box.
use crate::tree::{Flat, Item, Node, Tree};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn bin(name: &str) -> PathBuf {
    let d = std::env::var("XV_REPO_TARGET").unwrap_or_else(|_| "/verif/target/repo".into());
    PathBuf::from(d).join("debug").join(name)
}

pub fn xdvdfs() -> PathBuf {
    bin("xdvdfs")
}

#[derive(Clone, Debug, Default)]
pub struct Run {
    pub uid: Option<u32>,
    /// largest file the process may write (SIGXFSZ ignored: writes fail with EFBIG)
    pub fsize: Option<u64>,
    pub exe: Option<PathBuf>,
    pub env: Vec<(String, String)>,
    /// what it reads from standard input
    pub stdin: Option<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn out(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn err(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
    /// Neither a panic nor a signal
    pub fn sane(&self) -> Result<(), String> {
        if self.signal == Some(libc::SIGXCPU) {
            return Err("the command does not terminate (CPU limit)".into());
        }
        if self.signal.is_some() || self.code == Some(101) {
            let e = self.err();
            return Err(format!("the command crashed (code {:?}, signal {:?}): {}", self.code, self.signal, e.lines().next().unwrap_or("")));
        }
        Ok(())
    }
    pub fn success(self, what: &str) -> Result<Out, String> {
        self.sane().map_err(|e| format!("{what}: {e}"))?;
        if !self.ok() {
            return Err(format!("{what} failed: {}", self.err().trim()));
        }
        Ok(self)
    }
    pub fn failure(self, what: &str) -> Result<Out, String> {
        self.sane().map_err(|e| format!("{what}: {e}"))?;
        if self.ok() {
            return Err(format!("{what} reported success"));
        }
        Ok(self)
    }
}

pub fn run<S: AsRef<std::ffi::OsStr>>(cwd: &Path, args: &[S]) -> Out {
    run_with(cwd, args, &Run::default())
}

pub fn run_with<S: AsRef<std::ffi::OsStr>>(cwd: &Path, args: &[S], r: &Run) -> Out {
    let exe = r.exe.clone().unwrap_or_else(xdvdfs);
    let mut c = Command::new(&exe);
    let si = if r.stdin.is_some() { Stdio::piped() } else { Stdio::null() };
    c.args(args).current_dir(cwd).stdin(si).stdout(Stdio::piped()).stderr(Stdio::piped());
    c.env_remove("RUST_BACKTRACE").env("RUST_BACKTRACE", "0");
    for (k, v) in &r.env {
        c.env(k, v);
    }
    let (uid, fsize) = (r.uid, r.fsize);
    unsafe {
        c.pre_exec(move || {
            let cpu = libc::rlimit { rlim_cur: 60, rlim_max: 90 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            let data = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
            libc::setrlimit(libc::RLIMIT_DATA, &data);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if let Some(f) = fsize {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit { rlim_cur: f, rlim_max: f };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            }
            if let Some(u) = uid {
                if libc::setgroups(0, std::ptr::null()) != 0 || libc::setgid(u) != 0 || libc::setuid(u) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
            }
            Ok(())
        });
    }
    let mut ch = c.spawn().unwrap_or_else(|e| panic!("harness: cannot run {exe:?}: {e}"));
    if let Some(b) = r.stdin.clone() {
        let mut i = ch.stdin.take().unwrap();
        std::thread::spawn(move || std::io::Write::write_all(&mut i, &b));
    }
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let h1 = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = std::io::Read::read_to_end(&mut so, &mut v);
        v
    });
    let h2 = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = std::io::Read::read_to_end(&mut se, &mut v);
        v
    });
    let t0 = Instant::now();
    let mut nap = 200u64;
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {}
            Err(e) => panic!("harness: wait: {e}"),
        }
        if t0.elapsed() > Duration::from_secs(300) {
            let _ = ch.kill();
            panic!("harness: command took over 300 s of wall-clock time");
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 3 / 2).min(5000);
    };
    Out { code: st.code(), signal: st.signal(), stdout: h1.join().unwrap(), stderr: h2.join().unwrap() }
}

/// Write a tree to the host file system.
pub fn write_tree(dir: &Path, t: &Tree) -> std::io::Result<()> {
    fn rec(dir: &Path, l: &[crate::tree::Entry]) -> std::io::Result<()> {
        for e in l {
            let p = dir.join(&e.name);
            match &e.node {
                Node::Dir(c) => {
                    std::fs::create_dir(&p)?;
                    rec(&p, c)?;
                }
                Node::File { len, seed } => std::fs::write(&p, crate::content::bytes(*seed, *len))?,
            }
        }
        Ok(())
    }
    std::fs::create_dir_all(dir)?;
    rec(dir, &t.0)
}

/// Read a tree from the host file system.
pub fn read_tree(dir: &Path) -> Result<Flat, String> {
    fn rec(dir: &Path, pre: &mut Vec<String>, out: &mut Flat) -> Result<(), String> {
        for e in std::fs::read_dir(dir).map_err(|e| format!("{dir:?}: {e}"))? {
            let e = e.map_err(|e| e.to_string())?;
            let n = e.file_name().into_string().map_err(|n| format!("name {n:?} is not UTF-8"))?;
            let t = e.file_type().map_err(|e| e.to_string())?;
            pre.push(n);
            if t.is_dir() {
                out.insert(pre.clone(), Item::Dir);
                rec(&e.path(), pre, out)?;
            } else if t.is_file() {
                let b = std::fs::read(e.path()).map_err(|x| format!("{:?}: {x}", e.path()))?;
                out.insert(pre.clone(), Item::File(b));
            } else {
                return Err(format!("{:?} is neither file nor directory", e.path()));
            }
            pre.pop();
        }
        Ok(())
    }
    let mut out = Flat::new();
    rec(dir, &mut vec![], &mut out)?;
    Ok(out)
}

/// A file of an earlier run, longer than what will be written.
pub fn stale(path: &Path, len: usize) {
    std::fs::write(path, vec![0xa7; len + 70_001]).unwrap_or_else(|e| panic!("harness: {e}"));
}

/// The relative paths below a directory, without reading files.
pub fn names(dir: &Path) -> Result<Vec<String>, String> {
    fn rec(dir: &Path, pre: &str, out: &mut Vec<String>) -> Result<(), String> {
        for e in std::fs::read_dir(dir).map_err(|e| format!("{dir:?}: {e}"))? {
            let e = e.map_err(|e| e.to_string())?;
            let n = format!("{pre}{}", e.file_name().to_string_lossy());
            if e.file_type().map_err(|e| e.to_string())?.is_dir() {
                rec(&e.path(), &format!("{n}/"), out)?;
            }
            out.push(n);
        }
        Ok(())
    }
    let mut out = vec![];
    rec(dir, "", &mut out)?;
    out.sort();
    Ok(out)
}

/// Image-internal path of components
pub fn ipath(p: &[String]) -> String {
    format!("/{}", p.join("/"))
}
