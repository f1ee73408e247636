//! Runs jobs given as lines of JSON (job, directory); answers with a line of JSON each.
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Formats every log line of the code under test.
struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(format!("{} {}", r.target(), r.args()));
    }
    fn flush(&self) {}
}

fn main() {
    if std::env::var("RUST_LOG").is_ok_and(|v| v == "trace") {
        log::set_logger(&Logger).unwrap();
        log::set_max_level(log::LevelFilter::Trace);
    }
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for l in stdin.lock().lines() {
        let Ok(l) = l else { return };
        let (job, dir): (xv::jobs::Job, std::path::PathBuf) = serde_json::from_str(&l).expect("harness: job");
        let r = catch_unwind(AssertUnwindSafe(|| xv::jobs::run(&job, &dir)));
        let r = r.unwrap_or_else(|p| {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            vec![format!("panic: {m}")]
        });
        writeln!(out, "{}", serde_json::to_string(&r).unwrap()).unwrap();
        out.flush().unwrap();
    }
}
