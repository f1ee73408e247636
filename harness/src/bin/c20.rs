//! C20: blocking and asynchronous builds behave identically.
use xv::builds::*;
use xv::runner::*;

const SYNC: Other = Other { name: "blocking", worker: "target/hs/debug/worker", tool: "target/reposync/debug/xdvdfs", env: &[], logs: false, damaged_cso: true };

fn main() {
    let mut c = Check::new(
        "C20",
        "exploration",
        "Part `library`: a job is a random operation given as data: packing from memory or the host (with failing source or output
         calls, copies in pieces, short writes), remapping by random rules, opening a well-formed or damaged image at any offset and
         looking at everything (walks, scans, recursive listing, path lookups, whole and ranged reads, with a failing read), repacking
         through every copier, compressing, or a history of calls on a device. The same source of jobs is compiled with the asynchronous
         interface (over devices whose futures suspend) and with the blocking one; two worker processes run each job, and every line they
         show (results, errors, events, digests of outputs) has to be equal. Part `commands`: every command of the tool built both ways, on
         the same directory contents, valid and damaged, with and without file size limits: exit status, output, messages and files left
         have to be equal. Non-trivial: more than four lines of result; a tree with several entries.",
    );
    c.assume("what both builds get wrong in the same way is the subject of the other properties");
    c.part("library", 12000, 250000, jobs, |k, cx| job(&SYNC, k, cx));
    c.part("commands", 2500, 50000, cmds, |k, cx| command(&SYNC, k, cx));
    c.finish();
}
