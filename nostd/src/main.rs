//! Answers lines of JSON (image file, job) with what the library without std shows of the image.
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
#[path = "../../harness/src/look.rs"]
mod look;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for l in stdin.lock().lines() {
        let Ok(l) = l else { return };
        let (f, job): (std::path::PathBuf, look::Look) = serde_json::from_str(&l).expect("harness: job");
        let img = std::fs::read(f).expect("harness: image");
        let r = catch_unwind(AssertUnwindSafe(|| look::look(&img, &job))).unwrap_or_else(|p| {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            vec![format!("panic: {m}")]
        });
        writeln!(out, "{}", serde_json::to_string(&r).unwrap()).unwrap();
        out.flush().unwrap();
    }
}
