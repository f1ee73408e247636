#!/usr/bin/env python3
"""Regenerates MANIFEST.json: a property is claimed if its check exists."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("exploration", "Random trees packed through memory source, host source and CLI; image read back by an independent reader and compared."),
 "C02": ("exploration", "Random and bulk trees packed; image judged by an independent structural validator (bounds, overlap, alignment, search tree, balance, padding)."),
 "C03": ("exploration", "Images with arbitrary valid layouts from an independent builder; lookups of existing, flipped, near-miss and odd paths compared with a model."),
 "C04": ("exploration", "Images with arbitrary valid layouts; every enumeration of the library compared with the independent reader's entries and with each other."),
 "C05": ("exploration", "Images with arbitrary layouts and partition offsets repacked through both copiers and the CLI; results compared with the model tree."),
 "C06": ("exploration", "Random trees and images compressed; output decoded by an independent CISO/LZ4 decoder and compared with the packed image. One known finding in the ciso dependency."),
 "C07": ("exploration", "Random host trees and rule lists; the mapping predicted by a reference model and compared with library, CLI flags, spec files and dry runs. Globs are matched by the wax crate in the model too."),
 "C08": ("exploration", "Images embedded at all offsets with decoys and arbitrary surroundings; probe, reads and CLI compared with the bare image."),
 "C09": ("exploration", "Structure-aware mutations of valid images and random bytes fed to every read-side operation under a deterministic read budget, and to the CLI under a CPU limit."),
 "C10": ("exploration", "Images with hostile names extracted by an unprivileged process in a scratch directory with canaries; everything outside the destination must be untouched."),
 "C11": ("exploration", "Images with arbitrary layouts and offsets extracted through the CLI; the destination is compared with the model tree."),
 "C12": ("exploration", "Trees with violations of each format limit at random places, and boundary cases on both sides; result and image judged by a model of representability."),
 "C13": ("fault_enumeration", "For each generated tree every index of the output call sequence is failed in turn; the CLI runs against generated file size limits."),
 "C14": ("fault_enumeration", "For each generated image and operation every read index is failed in turn and the image is truncated at generated points; host files shrink during packing."),
 "C15": ("fault_enumeration", "For each generated tree every prefix of the write sequence, and byte prefixes of the write in progress, are judged by the independent reader."),
 "C16": ("exploration", "Checksums of generated image pairs with equal and different trees compared with an independent SHA3-256 model."),
 "C17": ("exploration", "Whole and ranged reads at boundary and random ranges compared with a model on every device type."),
 "C18": ("exploration", "Model-based histories of raw FUSE requests against the daemon process, served through a stand-in for fusermount, compared with the model tree."),
 "C19": ("exploration", "Commands run with generated spellings of source and destination, successful and failing; sources compared before and after."),
 "C20": ("exploration", "Differential testing: the same generated operations in a blocking and an asynchronous build of library and CLI."),
 "C21": ("fault_enumeration", "Event sequences of generated packs with and without injected failures compared with the parsed image."),
 "C22": ("exploration", "Model-based histories of reads and writes on every device type compared with a byte array."),
 "C23": ("exploration", "Generated ranged copies from every source into every destination type compared with a model."),
 "C24": ("exploration", "Output of the inspection commands on generated images compared with output predicted from the model tree and the independent reader."),
 "C25": ("exploration", "Generated extract-xiso command lines; the resulting files compared with a model of the options."),
 "C26": ("fault_enumeration", "The desktop command functions compiled against a stand-in window, run on generated trees, images and failures; results compared with the model."),
 "C27": ("fault_enumeration", "The browser application compiled against stand-ins for browser and user interface, driven by generated clicks, schedules and faults; files and page judged at the moment success is shown."),
 "C28": ("exploration", "Generated command lines of the daemon with a stand-in for fusermount that succeeds, is slow or fails; the mount request, the session, exit status, message and remaining processes compared with a model of the options."),
 "C29": ("exploration", "Generated command lines, specifications and directories; the whole scratch directory before and after each command compared with a model of where rules, sources and outputs come from."),
 "C30": ("exploration", "Differential testing: the same generated operations and commands in the debug build, the release build with all log lines evaluated, and the library without std."),
 "C31": ("exploration", "Generated schedules of subscriptions, events, answers and dialogs against the application's scripts in node with stand-ins for tauri and browser; the trace judged by invariants over the history."),
}
props = [json.loads(l) for l in open(f"{R}/properties.jsonl")]
checks, na = [], []
NA = {}
for p in props:
    i = p["id"]
    have = os.path.exists(f"{R}/harness/src/bin/{i.lower()}.rs")
    if i in NA or not have:
        na.append({"property": i, "reason": NA.get(i, "Its check is not built yet.")})
        continue
    lv, note = T[i]
    checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                   "evidence_file": f"evidence/{i}.json",
                   "technique": "property-based testing (proptest, generated inputs against an explicit oracle, shrinking)" if lv == "exploration" else "property-based testing with exhaustive fault injection per generated case",
                   "level": lv, "level_note": note})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: the checks use the public library interface and the built tools. See DESIGN.md."},
          open(f"{R}/MANIFEST.json", "w"), indent=1)
open(f"{R}/MANIFEST.json", "a").write("\n")
