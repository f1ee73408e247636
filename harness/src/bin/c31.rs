//! C31: the scripts between page, browser and desktop program.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use xv::ensure;
use xv::runner::*;

struct Node {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}

fn ask(case: &Value) -> Result<Value, String> {
    NODE.with(|w| {
        let mut w = w.borrow_mut();
        let b = w.get_or_insert_with(|| {
            let root = std::env::var("XV_ROOT").unwrap_or_else(|_| "/verif".into());
            let mut child = Command::new("node")
                .args(["--no-warnings", &format!("{root}/glue/driver.mjs")])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("harness: node");
            Node { to: child.stdin.take().unwrap(), from: BufReader::new(child.stdout.take().unwrap()), child }
        });
        let mut r = String::new();
        let ok = writeln!(b.to, "{case}").is_ok() && b.to.flush().is_ok() && b.from.read_line(&mut r).is_ok_and(|n| n > 0);
        if !ok {
            *w = None;
            return Err("the scripts ended the process".into());
        }
        let v: Value = serde_json::from_str(&r).map_err(|e| format!("harness: {e}: {r}"))?;
        match v.get("error") {
            Some(e) => Err(format!("exception: {e}")),
            None => Ok(v),
        }
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Job {
    kind: u8,
    src: String,
    dest: String,
    outcome: Value,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Jobs {
    jobs: Vec<Job>,
    overlap: bool,
    script: Vec<u32>,
    urls: Vec<String>,
}
const KINDS: [&str; 3] = ["pack_image", "unpack_image", "compress_image"];

fn text() -> BoxedStrategy<String> {
    prop_oneof!["[a-zA-Z0-9_./\\\\: -]{1,20}", "\\PC{1,12}"].boxed()
}

fn jobs() -> BoxedStrategy<Jobs> {
    let outcome = prop_oneof![3 => Just(json!({"ok": null})), 2 => text().prop_map(|s| json!({"ok": s})), 1 => text().prop_map(|s| json!({"err": s}))];
    let job = (0u8..3, text(), text(), outcome).prop_map(|(kind, src, dest, outcome)| Job { kind, src, dest, outcome });
    (proptest::collection::vec(job, 1..4), any::<bool>(), proptest::collection::vec(any::<u32>(), 0..60), proptest::collection::vec("https?://[a-z./?=&#%]{0,20}", 0..3))
        .prop_map(|(mut jobs, overlap, script, urls)| {
            // sources identify the jobs
            for (i, j) in jobs.iter_mut().enumerate() {
                j.src = format!("{}{i}", j.src);
            }
            Jobs { jobs, overlap, script, urls }
        })
        .boxed()
}

fn commands(k: &Jobs, cx: &mut Cx) -> Outcome {
    let list: Vec<Value> = k.jobs.iter().map(|j| json!({"kind": KINDS[j.kind as usize], "src": j.src, "dest": j.dest, "outcome": j.outcome})).collect();
    let r = ask(&json!({"what": "jobs", "jobs": list, "overlap": k.overlap, "script": k.script, "urls": k.urls}))?;
    let trace = r["trace"].as_array().ok_or("harness: no trace")?;
    cx.evals(trace.len() as u64);
    cx.label(if k.overlap && k.jobs.len() > 1 { "overlapping" } else { "one after another" });
    let t = |e: &Value| e["t"].as_str().unwrap_or("").to_string();
    let mut delivered = 0;
    for (i, j) in k.jobs.iter().enumerate() {
        let name = KINDS[j.kind as usize];
        let what = format!("job {i}, {name} of {:?}", j.src);
        let at = |kind: &str| -> Vec<usize> { trace.iter().enumerate().filter(|(_, e)| t(e) == kind && (e["job"] == json!(i) || e["args"]["sourcePath"] == json!(j.src))).map(|(n, _)| n).collect() };
        let (inv, ans, done) = (at("invoke"), at("answer"), at("done"));
        ensure!(done.len() == 1, "{what}: ended {} times: {:?}", done.len(), r["trace"]);
        ensure!(inv.len() == 1, "{what}: the command is called {} times ({})", inv.len(), trace[done[0]]);
        let (inv, ans, done) = (inv[0], ans.first().copied().unwrap_or(usize::MAX), done[0]);
        ensure!(trace[inv]["cmd"] == name, "{what}: the command called is {}", trace[inv]["cmd"]);
        ensure!(trace[inv]["args"] == json!({"sourcePath": j.src, "destPath": j.dest}), "{what}: arguments {}", trace[inv]["args"]);
        ensure!(ans < done, "{what}: ended before the command answered");
        for key in ["ok", "err"] {
            ensure!(trace[done].get(key) == j.outcome.get(key), "{what}: the command's answer {} is passed on as {}", j.outcome, trace[done]);
        }
        // events while the command runs, and none afterwards
        for (which, event) in ["progress_callback", "compress_callback"].iter().enumerate() {
            if which == 1 && j.kind != 2 {
                continue;
            }
            let sent: Vec<&Value> = trace[inv..ans].iter().filter(|e| t(e) == "emit" && e["name"] == *event).map(|e| &e["payload"]).collect();
            let got = |r: &[Value]| -> Vec<Value> { r.iter().filter(|e| t(e) == "callback" && e["job"] == json!(i) && e["which"] == json!(which)).map(|e| e["payload"].clone()).collect() };
            let seen = got(&trace[inv..ans]);
            ensure!(sent.iter().copied().eq(seen.iter()), "{what}: of the events {event} {sent:?} while the command ran, the page was given {seen:?}");
            delivered += seen.len();
        }
        let late: Vec<&Value> = trace[done..].iter().filter(|e| t(e) == "callback" && e["job"] == json!(i)).collect();
        ensure!(late.is_empty(), "{what}: events delivered after its end: {late:?}");
        let all: Vec<&Value> = trace.iter().filter(|e| t(e) == "callback" && e["job"] == json!(i)).collect();
        for c in all {
            let event = ["progress_callback", "compress_callback"][c["which"].as_u64().unwrap_or(0) as usize];
            ensure!(trace.iter().any(|e| t(e) == "emit" && e["name"] == event && e["payload"] == c["payload"]), "{what}: {c} is not an event {event} of the command");
        }
    }
    ensure!(r["left"] == json!(0), "{} listeners are left after all commands ended", r["left"]);
    ensure!(r["urls"] == json!(k.urls), "links {:?} were opened as {}", k.urls, r["urls"]);
    cx.nontrivial(delivered > 0);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pick {
    which: u8,
    suggested: Option<String>,
    value: String,
    cancel: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Picks {
    browser: bool,
    picks: Vec<Pick>,
    script: Vec<u32>,
}

fn picks() -> BoxedStrategy<Picks> {
    let pick = (0u8..3, prop_oneof![Just(None), text().prop_map(Some)], text(), prop_oneof![3 => Just(false), 1 => Just(true)]).prop_map(|(which, suggested, value, cancel)| Pick { which, suggested, value, cancel });
    (any::<bool>(), proptest::collection::vec(pick, 1..5), proptest::collection::vec(any::<u32>(), 0..12)).prop_map(|(browser, picks, script)| Picks { browser, picks, script }).boxed()
}

fn pickers(k: &Picks, cx: &mut Cx) -> Outcome {
    let names = ["open", "save", "directory"];
    let list: Vec<Value> = k
        .picks
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let v = if k.browser { json!({"handle": i, "name": p.value}) } else { json!(p.value) };
            json!({"which": names[p.which as usize], "suggested": p.suggested, "value": v, "cancel": p.cancel})
        })
        .collect();
    let r = ask(&json!({"what": "pickers", "browser": k.browser, "picks": list, "script": k.script}))?;
    let shown = r["shown"].as_array().ok_or("harness: nothing shown")?;
    let called = r["called"].as_array().ok_or("harness: nothing called")?;
    cx.evals(k.picks.len() as u64);
    cx.label(if k.browser { "browser" } else { "desktop" });
    cx.nontrivial(called.len() > 1);
    ensure!(shown.len() == k.picks.len(), "{} pickers shown for {} requests", shown.len(), k.picks.len());
    for (i, (p, s)) in k.picks.iter().zip(shown).enumerate() {
        let o = &s["opts"];
        let what = format!("picker {i}: {}", names[p.which as usize]);
        let kind = if k.browser || p.which != 2 { names[p.which as usize] } else { "open" };
        ensure!(s["what"] == kind, "{what}: shown is {s}");
        if !k.browser {
            ensure!(p.which == 1 || o["directory"].as_bool().unwrap_or(false) == (p.which == 2), "{what}: options {o}");
            ensure!(!o["multiple"].as_bool().unwrap_or(false), "{what}: several can be picked: {o}");
        }
        if p.which == 1 {
            let key = if k.browser { "suggestedName" } else { "defaultPath" };
            ensure!(o.get(key).and_then(|v| v.as_str()) == p.suggested.as_deref(), "{what}: suggested {:?}, options {o}", p.suggested);
            // what the dialogs make of their filters
            let mut patterns: Vec<String> = vec![];
            if k.browser {
                for t in o["types"].as_array().into_iter().flatten() {
                    for e in t["accept"].as_object().into_iter().flatten() {
                        patterns.extend(e.1.as_array().into_iter().flatten().filter_map(|x| x.as_str().map(|x| format!("*{x}"))));
                    }
                }
            } else {
                for f in o["filters"].as_array().into_iter().flatten() {
                    patterns.extend(f["extensions"].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(|x| format!("*.{x}"))));
                }
            }
            for f in ["game.iso", "game.xiso"] {
                ensure!(patterns.is_empty() || patterns.iter().any(|p| p == "*.*" || p.strip_prefix('*').is_some_and(|e| f.ends_with(e) && f.len() > e.len() && e.len() == f.len() - 4)), "{what}: the dialog shows files like {patterns:?}, not {f}");
            }
        }
        let got: Vec<&Value> = called.iter().filter(|c| c["i"] == json!(i)).map(|c| &c["value"]).collect();
        let want: Vec<&Value> = if p.cancel { vec![] } else { vec![&list[i]["value"]] };
        ensure!(got == want, "{what}: picked {want:?}, the page was given {got:?}");
    }
    Ok(())
}

fn available(k: &u8, cx: &mut Cx) -> Outcome {
    let r = ask(&json!({"what": "available", "mask": k}))?;
    cx.nontrivial(true);
    ensure!(r["available"] == json!(*k == 7), "with the pickers {k:03b} the page takes file access to be {}", r["available"]);
    Ok(())
}

fn main() {
    let mut c = Check::new(
        "C31",
        "exploration",
        "The application's scripts run in node against stand-ins. Part `commands`: one to three commands, one after another or overlapping,
         whose subscriptions, answers (success, message, rejection) and events come in a random order; each command is called once with
         its two paths, every event while it runs reaches the right callback once and in order, none after its end, its answer is passed
         on after it came, and no listener is left. Part `pickers`: open, save and directory pickers of browser and desktop program,
         picked or cancelled in any order; the callback gets exactly what was picked; the options are those of the dialog interfaces.
         Part `available`: all subsets of picker functions. Non-trivial: delivered events; two picks.",
    );
    c.assume("dialogs, listeners and commands behave as documented for tauri 1 and the File System Access API; filters become `*.` and the extension (rfd 0.10)");
    c.part("commands", 6000, 100000, jobs, commands);
    c.part("pickers", 6000, 100000, picks, pickers);
    c.part("available", 64, 64, || (0u8..8).boxed(), available);
    c.finish();
}
