//! C30: every build configuration shows the same.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use xv::builder::Layout;
use xv::builds::*;
use xv::gen::{self, Opts};
use xv::look::{look, Look};
use xv::muts::{image, muts, M};
use xv::runner::*;
use xv::tree::*;
use xv::{ensure, OFFSETS};

// the shipped profile, with every log line evaluated
const RELEASE: Other = Other {
    name: "release",
    worker: "target/hr/release/worker",
    tool: "target/reporel/release/xdvdfs",
    env: &[("RUST_LOG", "trace")],
    logs: true,
    damaged_cso: false,
};

struct Bare {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Bare {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static BARE: RefCell<Option<Bare>> = const { RefCell::new(None) };
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    lay: Layout,
    muts: Vec<M>,
    cut: Option<u32>,
    look: Look,
}

fn case() -> BoxedStrategy<Case> {
    let o = Opts { host: false, big: false, bulk_max: 80, max_entries: 12, ..Opts::default() };
    let paths = proptest::collection::vec(prop_oneof!["[/a-zA-Z.]{0,10}", "\\PC{0,10}", Just("/".to_string()), Just(String::new())], 0..6);
    let damage = prop_oneof![1 => Just(vec![]), 2 => muts()];
    let cut = prop_oneof![4 => Just(None), 1 => any::<u32>().prop_map(Some)];
    let fail = prop_oneof![2 => Just(None), 1 => (0u64..200).prop_map(Some)];
    (gen::tree(o), gen::layout(), damage, cut, (0usize..4, 0u64..5000, paths, fail, (any::<u32>(), any::<u32>())))
        .prop_map(|(tree, lay, muts, cut, (b, tail, paths, fail, range))| {
            let look = Look { base: OFFSETS[b], tail, paths, fail, range };
            Case { tree, lay, muts, cut, look }
        })
        .boxed()
}

fn without_std(k: &Case, cx: &mut Cx) -> Outcome {
    let mut img = image(&k.tree, &k.lay, &k.muts);
    if let Some(c) = k.cut {
        img.truncate(c as usize % (img.len() + 1));
    }
    let f = cx.scratch().join("i.iso");
    std::fs::write(&f, &img).map_err(|e| format!("harness: {e}"))?;
    let a = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| look(&img, &k.look))).unwrap_or_else(|p| {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        vec![format!("panic: {m}")]
    });
    let b: Option<Vec<String>> = BARE.with(|w| {
        let mut w = w.borrow_mut();
        let b = w.get_or_insert_with(|| {
            let root = std::env::var("XV_ROOT").unwrap_or_else(|_| "/verif".into());
            let mut child = Command::new(format!("{root}/target/n/debug/xv-nostd")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("harness: xv-nostd");
            Bare { to: child.stdin.take().unwrap(), from: BufReader::new(child.stdout.take().unwrap()), child }
        });
        let mut r = String::new();
        let ok = writeln!(b.to, "{}", serde_json::to_string(&(&f, &k.look)).unwrap()).is_ok() && b.to.flush().is_ok() && b.from.read_line(&mut r).is_ok_and(|n| n > 0);
        if !ok {
            *w = None;
            return None;
        }
        serde_json::from_str(&r).ok()
    });
    let b = b.ok_or("the process that uses the library without std died")?;
    cx.nontrivial(a.len() > 8);
    cx.label(if k.muts.is_empty() { "intact" } else { "damaged" });
    cx.evals(a.len() as u64);
    let n = a.iter().zip(&b).position(|(x, y)| x != y).or((a.len() != b.len()).then_some(a.len().min(b.len())));
    if let Some(i) = n {
        return Err(format!("with all features the library shows {:?} in line {i}, without std {:?}", a.get(i), b.get(i)));
    }
    ensure!(!a.iter().any(|l| l.starts_with("panic: harness")), "{a:?}");
    Ok(())
}

fn main() {
    let mut c = Check::new(
        "C30",
        "exploration",
        "The asynchronous debug build is compared with the other configurations the project builds. Parts `release` and `release commands`:
         the jobs and commands of C20 (packing, remapping, opening, repacking, compressing, devices, every command, with failing calls and
         damaged images) in the release profile with every log line evaluated (RUST_LOG=trace): each line of result, status, output,
         message and file left has to be equal. Part `without std`: the reading half compiled with `read` alone shows the same volume,
         entries, lookups, data and errors as the full library, on intact, damaged and truncated images at every offset, with failing
         reads. Non-trivial: more than four (eight) lines of result; a tree with several entries.",
    );
    c.assume("the release build of the tool is linked without link-time optimisation; log lines themselves are not judged");
    c.part("without std", 12000, 250000, case, without_std);
    c.part("release", 12000, 250000, jobs, |k, cx| job(&RELEASE, k, cx));
    c.part("release commands", 2000, 40000, cmds, |k, cx| command(&RELEASE, k, cx));
    c.finish();
}
